From 4313308fc0c0c3faa903a96eb520a83479e6a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 01/78] fix: do not merge adjacent bold and italic elements
 into one

MergeAdjacent(doc, nameIsBoldOrItalic) merged <b>a</b><i>b</i> into a single
bold element, so italic text became bold and lost its own emphasis.
---
 plugin/commonmark/handle_pre_render.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/handle_pre_render.go b/plugin/commonmark/handle_pre_render.go
index 47eebb5..b719e3e 100644
--- a/plugin/commonmark/handle_pre_render.go
+++ b/plugin/commonmark/handle_pre_render.go
@@ -70,7 +70,8 @@ func (c *commonmark) handlePreRender(ctx converter.Context, doc *html.Node) {
 
 	// - - - Bold / Italic - - - //
 	domutils.RemoveRedundant(doc, nameIsBothBoldOrItalic)
-	domutils.MergeAdjacent(doc, nameIsBoldOrItalic)
+	domutils.MergeAdjacent(doc, nameIsBold)
+	domutils.MergeAdjacent(doc, nameIsItalic)
 
 	// domutils.MovePunctuation(ctx, doc, nameIsBoldOrItalic)
 
-- 
2.43.0


From f274561bfff41957fb574f411612a09704665fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 02/78] fix: do not sort the registered tag types under the
 read lock

getTagType sorted the shared slice in place while holding only the read
lock, which is a data race between concurrent conversions.
---
 converter/register.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converter/register.go b/converter/register.go
index d200ded..6a14837 100644
--- a/converter/register.go
+++ b/converter/register.go
@@ -215,8 +215,11 @@ func (conv *Converter) getTagType(tagName string) (tagType, bool) {
 		return "", false
 	}
 
-	types.Sort()
-	firstType := types[0].Value
+	// Sort a copy: we only hold the read lock, so the shared slice must not change.
+	sorted := make(prioritizedSlice[tagType], len(types))
+	copy(sorted, types)
+	sorted.Sort()
+	firstType := sorted[0].Value
 
 	return firstType, true
 }
-- 
2.43.0


From 78369c893489481c34032abe8887eee3be0d5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 03/78] fix: read the registered plugins under the lock

ConvertNode read registeredPlugins without holding the mutex, which is a
data race when a plugin is registered while another goroutine converts.
---
 converter/convert.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/convert.go b/converter/convert.go
index 047f64f..09f05e6 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -76,8 +76,10 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 		return nil, errNoRenderHandlers
 	}
 
+	conv.m.RLock()
 	containsCommonmark := slices.Contains(conv.registeredPlugins, "commonmark")
 	containsBase := slices.Contains(conv.registeredPlugins, "base")
+	conv.m.RUnlock()
 	if containsCommonmark && !containsBase {
 		return nil, errBasePluginMissing
 	}
-- 
2.43.0


From b77aaa31f94a35547bf7cdcc6604db676195f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:25 +0000
Subject: [PATCH 04/78] fix: keep the registration order of handlers with the
 same priority

sort.Slice is not stable: with more than 12 handlers of one kind those
registered with the same priority ran in an arbitrary order.
---
 converter/prioritized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/prioritized.go b/converter/prioritized.go
index b0d5196..6384da1 100644
--- a/converter/prioritized.go
+++ b/converter/prioritized.go
@@ -23,7 +23,7 @@ type prioritizedValue[V any] struct {
 type prioritizedSlice[V any] []prioritizedValue[V]
 
 func (s prioritizedSlice[V]) Sort() {
-	sort.Slice(s, func(i, j int) bool {
+	sort.SliceStable(s, func(i, j int) bool {
 		return s[i].Priority < s[j].Priority
 	})
 }
-- 
2.43.0


From 1ad90ca7f273041cf8db355957997338992e60c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 05/78] fix: only override a placeholder when escaping the # at
 the end of a heading

With the escape mode "disabled" there is no placeholder before the #, so a
heading "#" panicked and the character before the # was overwritten.
---
 plugin/commonmark/render_heading.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index a350e8b..34fbb21 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -93,6 +93,12 @@ func escapePoundSignAtEnd(s []byte) []byte {
 		return s
 	}
 
+	if len(s) < 2 || s[len(s)-2] != marker.BytesMarkerEscaping[0] {
+		// There is no placeholder to override
+		// (for example because the escaping is disabled).
+		return s
+	}
+
 	// Because we have a # at the end,
 	// we should manually force the escaping
 	// by overriding the placeholder.
-- 
2.43.0


From e7e8d79c4180836b645c23a1ae13b5f8605052c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 06/78] fix: do not count a mix of backticks and tildes as a
 code fence

A fence consists of one kind of character. A text like ~`~` was taken for a
fence, so that only its first character was escaped and the backticks
rendered as a code span.
---
 internal/escape/elem_code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/escape/elem_code.go b/internal/escape/elem_code.go
index 65adaaa..377bd1d 100644
--- a/internal/escape/elem_code.go
+++ b/internal/escape/elem_code.go
@@ -22,7 +22,7 @@ func IsFencedCode(chars []byte, index int) int {
 		if chars[i] == placeholderByte {
 			continue
 		}
-		if chars[i] == '`' || chars[i] == '~' {
+		if chars[i] == chars[index] {
 			count++
 			continue
 		}
-- 
2.43.0


From f9880e04073e78011861a8c8455adb3a5184661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 07/78] fix: escape text at the start of a line inside a
 blockquote

The un-escapers look at the start of the line, but saw the "> " prefix
instead. So text like "- a" or "# a" in a blockquote became a list or a
heading.
---
 plugin/commonmark/render_blockquote.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index 588e89e..c4652e9 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -20,6 +20,8 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 
 	content = textutils.TrimConsecutiveNewlines(content)
 	content = textutils.TrimUnnecessaryHardLineBreaks(content)
+	// The "> " prefix would hide the start of the line from the un-escapers.
+	content = ctx.UnEscapeContent(content)
 	content = textutils.PrefixLines(content, []byte{'>', ' '})
 
 	w.WriteRune('\n')
-- 
2.43.0


From 34dc5cf86b4794b05b9256d6dc959366d5a0546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:27 +0000
Subject: [PATCH 08/78] fix: escape backslashes in the title of a link or image

A title ending with a backslash escaped the closing quote, so that the link
was not recognized anymore. Inside the title a backslash got lost.
---
 internal/textutils/quote.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/textutils/quote.go b/internal/textutils/quote.go
index 0e8c7eb..3a38d18 100644
--- a/internal/textutils/quote.go
+++ b/internal/textutils/quote.go
@@ -17,6 +17,10 @@ func SurroundByQuotes(content []byte) []byte {
 		return nil
 	}
 
+	// A backslash would otherwise escape the character after it,
+	// for example the closing quote.
+	content = bytes.ReplaceAll(content, []byte(`\`), []byte(`\\`))
+
 	containsDoubleQuote := bytes.ContainsRune(content, DOUBLE_QUOTE)
 	containsSingleQuote := bytes.ContainsRune(content, SINGLE_QUOTE)
 
-- 
2.43.0


From 0e3c7baaad59ffdaef76a8cbb05e8fb79069862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:28 +0000
Subject: [PATCH 09/78] fix: escape backslashes, backticks and < in the alt
 text of an image

A backslash before a bracket counted as an escape, and code spans and html
tags bind tighter than brackets. So an alt like `\\]`, `` ` `` or `<a` could
end the image early or lose characters.
---
 plugin/commonmark/render_image.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 81f761e..9b1df3a 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -15,11 +15,9 @@ func escapeAlt(altString string) string {
 
 	var buf bytes.Buffer
 	for i := range alt {
-		if alt[i] == '[' || alt[i] == ']' {
-			prevIndex := i - 1
-			if prevIndex < 0 || alt[prevIndex] != '\\' {
-				buf.WriteRune('\\')
-			}
+		switch alt[i] {
+		case '[', ']', '\\', '`', '<':
+			buf.WriteRune('\\')
 		}
 		buf.WriteByte(alt[i])
 	}
-- 
2.43.0


From 997ee0591c19451dbfc8364855123f8a39f94e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 10/78] fix: keep newlines and backticks out of the info string
 of a code block

Classes can be separated by any whitespace, and a newline or a backtick in
the info string broke the opening fence.
---
 plugin/commonmark/render_code.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index e939384..6142d09 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -93,7 +93,7 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 func getCodeLanguage(n *html.Node) string {
 	class := dom.GetAttributeOr(n, "class", "")
 
-	parts := strings.Split(class, " ")
+	parts := strings.Fields(class)
 	for _, part := range parts {
 		if !strings.Contains(part, "language-") && !strings.Contains(part, "lang-") {
 			continue
@@ -102,7 +102,8 @@ func getCodeLanguage(n *html.Node) string {
 		part = strings.Replace(part, "language-", "", 1)
 		part = strings.Replace(part, "lang-", "", 1)
 
-		return part
+		// The info string may not contain a backtick, the fence would not be recognized.
+		return strings.ReplaceAll(part, "`", "")
 	}
 
 	return ""
-- 
2.43.0


From c91b661b8077bf4572bfe8c6b517509148480efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 11/78] fix: report an error when the output cannot be written
 to stdout

A failed write (for example a full disk behind a redirect) was ignored, so
the cli exited with 0 although the output was lost.
---
 cli/html2markdown/cmd/io_output.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index 3037a09..99afe2a 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -170,7 +170,9 @@ func (cli *CLI) writeOutput(outputType outputType, filename string, markdown []b
 		}
 	default:
 		{
-			fmt.Fprintln(cli.Stdout, string(markdown))
+			if _, err := fmt.Fprintln(cli.Stdout, string(markdown)); err != nil {
+				return fmt.Errorf("error while writing to stdout: %w", err)
+			}
 
 			return nil
 		}
-- 
2.43.0


From 22b7f87e026fad65329c741636b9b9a19e4e2a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 12/78] fix: keep the order of nested elements that match the
 include selector

An element inside another matching element was taken out of it and appended
to the end, so that the content was reordered.
---
 cli/html2markdown/cmd/cmd_convert.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index 699ea41..c9f0583 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -33,6 +33,15 @@ func overrideValidationError(e *commonmark.ValidateConfigError) error {
 	return e
 }
 
+func isInside(node, ancestor *html.Node) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if p == ancestor {
+			return true
+		}
+	}
+	return false
+}
+
 func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
 	if len(cli.config.includeSelector) == 0 {
 		return doc, nil
@@ -41,6 +50,10 @@ func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
 
 	root := &html.Node{}
 	for _, n := range nodes {
+		if isInside(n, root) {
+			// It is part of a node that was already included.
+			continue
+		}
 		dom.RemoveNode(n)
 		root.AppendChild(n)
 	}
-- 
2.43.0


From 93379f6378c21959a0ebebac272f5339d6b69d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 13/78] fix: reject delimiters and horizontal rules with other
 characters

The validation only counted the expected characters. So for example "a**b"
was accepted as the strong delimiter and "***abc" as a horizontal rule,
although neither is recognized as such by markdown.
---
 plugin/commonmark/validation.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index bf22ce9..6a09a53 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -39,14 +39,14 @@ func (e *ValidateConfigError) Error() string {
 }
 
 func validateConfig(cfg *config) error {
-	if strings.Count(cfg.EmDelimiter, "_") != 1 && strings.Count(cfg.EmDelimiter, "*") != 1 {
+	if cfg.EmDelimiter != "_" && cfg.EmDelimiter != "*" {
 		return &ValidateConfigError{
 			Key:                "EmDelimiter",
 			Value:              cfg.EmDelimiter,
 			patternDescription: `exactly 1 character of "*" or "_"`,
 		}
 	}
-	if strings.Count(cfg.StrongDelimiter, "_") != 2 && strings.Count(cfg.StrongDelimiter, "*") != 2 {
+	if cfg.StrongDelimiter != "__" && cfg.StrongDelimiter != "**" {
 		return &ValidateConfigError{
 			Key:                "StrongDelimiter",
 			Value:              cfg.StrongDelimiter,
@@ -54,9 +54,8 @@ func validateConfig(cfg *config) error {
 		}
 	}
 
-	if strings.Count(cfg.HorizontalRule, "*") < 3 &&
-		strings.Count(cfg.HorizontalRule, "_") < 3 &&
-		strings.Count(cfg.HorizontalRule, "-") < 3 {
+	rule := strings.ReplaceAll(cfg.HorizontalRule, " ", "")
+	if len(rule) < 3 || !strings.ContainsAny(rule[:1], "*_-") || strings.Trim(rule, rule[:1]) != "" {
 		return &ValidateConfigError{
 			Key:                "HorizontalRule",
 			Value:              cfg.HorizontalRule,
-- 
2.43.0


From 6a4c3d7262c673ef5c9d66df00065b2416493681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 14/78] fix: calculate the real column of cells next to colspan
 and rowspan cells

The position of the spanned cells was based on the index of the cell in its
own row. With two colspans in a row, or rowspans that start in different
rows, the spanned cells ended up in the wrong column and shifted the
content of the table.
---
 plugin/table/2_collect.go | 24 ++++++++++++++++++------
 plugin/table/utils.go     | 22 ++++++++++++++--------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index cfe615b..fdd9902 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -161,7 +161,7 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 
 	return alignments
 }
-func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node) ([][]byte, []modification) {
+func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node, occupied map[position]bool) ([][]byte, []modification) {
 	cellNodes := dom.FindAllNodes(rowNode, func(node *html.Node) bool {
 		name := dom.NodeName(node)
 		return name == "th" || name == "td"
@@ -170,7 +170,8 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 	cellContents := make([][]byte, 0, len(cellNodes))
 	modifications := make([]modification, 0)
 
-	for index, cellNode := range cellNodes {
+	colIndex := 0
+	for _, cellNode := range cellNodes {
 		var buf bytes.Buffer
 		ctx.RenderNodes(ctx, &buf, cellNode)
 
@@ -187,9 +188,19 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		rowSpan := getNumberAttributeOr(cellNode, "rowspan", 1)
 		colSpan := getNumberAttributeOr(cellNode, "colspan", 1)
 
-		mods := calculateModifications(rowIndex, index, rowSpan, colSpan, p.getContentForMergedCell(content))
+		// The columns that are covered by previous cells are not available anymore.
+		for occupied[position{rowIndex, colIndex}] {
+			colIndex++
+		}
+		occupied[position{rowIndex, colIndex}] = true
 
-		modifications = append(modifications, mods...)
+		mods := calculateModifications(rowIndex, colIndex, rowSpan, colSpan, p.getContentForMergedCell(content))
+		for _, mod := range mods {
+			if pos := (position{mod.y, mod.x}); !occupied[pos] {
+				occupied[pos] = true
+				modifications = append(modifications, mod)
+			}
+		}
 	}
 
 	return cellContents, modifications
@@ -197,10 +208,11 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Node, rowNodes []*html.Node) [][][]byte {
 	rowContents := make([][][]byte, 0, len(rowNodes)+1)
 	groupedModifications := make([][]modification, 0)
+	occupied := make(map[position]bool)
 
 	// - - 1. the header row - - //
 	if headerRowNode != nil {
-		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode)
+		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode, occupied)
 
 		rowContents = append(rowContents, cells)
 		groupedModifications = append(groupedModifications, mods)
@@ -212,7 +224,7 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 
 	// - - 2. the normal rows - - //
 	for index, rowNode := range rowNodes {
-		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode)
+		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode, occupied)
 
 		rowContents = append(rowContents, cells)
 		groupedModifications = append(groupedModifications, mods)
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index dc1eacb..94d3aa2 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -1,6 +1,7 @@
 package table
 
 import (
+	"cmp"
 	"slices"
 	"strconv"
 	"unicode/utf8"
@@ -60,6 +61,12 @@ func getNumberAttributeOr(node *html.Node, key string, fallback int) int {
 	return num
 }
 
+// position is the place of a cell in the grid of the table.
+type position struct {
+	y int
+	x int
+}
+
 type modification struct {
 	y    int
 	x    int
@@ -102,15 +109,14 @@ func calculateModifications(currentRowIndex, currentColIndex, rowSpan, colSpan i
 }
 
 func applyGroupedModifications(contents [][][]byte, groupedMods [][]modification) [][][]byte {
-	// By applying the modifications in reverse we correctly
-	// handle overlapping modifications.
-	slices.Reverse(groupedMods)
-
-	for _, mods := range groupedMods {
-		contents = applyModifications(contents, mods)
-	}
+	// The modifications have their final position in the grid. By applying
+	// them from left to right they don't move each other around.
+	mods := slices.Concat(groupedMods...)
+	slices.SortStableFunc(mods, func(a, b modification) int {
+		return cmp.Or(a.y-b.y, a.x-b.x)
+	})
 
-	return contents
+	return applyModifications(contents, mods)
 }
 
 func applyModifications(contents [][][]byte, mods []modification) [][][]byte {
-- 
2.43.0


From fda66354aed303fc929e147174446bea101f7fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 15/78] fix: limit the colspan and rowspan of a table cell

A short document like <td colspan="1000000000"> allocated a cell for every
spanned column until the process ran out of memory.
---
 plugin/table/2_collect.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index fdd9902..f517ef8 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -10,6 +10,13 @@ import (
 	"golang.org/x/net/html/atom"
 )
 
+// Without a limit, a single cell could ask for an arbitrarily large table.
+// For the colspan this is the limit of the HTML specification.
+const (
+	maxColSpan = 1000
+	maxRowSpan = 1000
+)
+
 type tableContent struct {
 	Alignments []string
 	Rows       [][][]byte
@@ -185,8 +192,8 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		cellContents = append(cellContents, content)
 
 		// - - col / row span - - //
-		rowSpan := getNumberAttributeOr(cellNode, "rowspan", 1)
-		colSpan := getNumberAttributeOr(cellNode, "colspan", 1)
+		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxRowSpan)
+		colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxColSpan)
 
 		// The columns that are covered by previous cells are not available anymore.
 		for occupied[position{rowIndex, colIndex}] {
-- 
2.43.0


From b704acd91f82ac273c1ffd1f3d83c4176439def7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 16/78] fix: use the alignment of a cell for all the columns it
 spans

The alignments were counted by cell instead of by column, so that every
column after a colspan got the alignment of another column.
---
 plugin/table/2_collect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index f517ef8..36ec161 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -163,7 +163,11 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 	for _, cellNode := range cellNodes {
 		align := dom.GetAttributeOr(cellNode, "align", "")
 
-		alignments = append(alignments, align)
+		// The alignment belongs to every column that is covered by the cell.
+		colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxColSpan)
+		for range colSpan {
+			alignments = append(alignments, align)
+		}
 	}
 
 	return alignments
-- 
2.43.0


From 0b3c9e152fa42a10f75bdc8e08ace0fdaa89aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 17/78] fix: escape a pipe inside inline code or an image in a
 table cell

Only the pipes in normal text were escaped. In GFM a pipe separates the cells
even inside of inline code, so the row was split at the wrong place.
---
 plugin/table/2_collect.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 36ec161..522b490 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -192,6 +192,8 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		// The character "|" inside the content would mistakenly be recognized as part of the table. So we have to escape it.
 		content = bytes.Replace(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte(`\|`), -1)
 		content = ctx.UnEscapeContent(content)
+		// The same applies to other content (e.g. inline code), that does not go through the escaping.
+		content = escapePipes(content)
 
 		cellContents = append(cellContents, content)
 
@@ -216,6 +218,28 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 
 	return cellContents, modifications
 }
+
+// escapePipes places a backslash before every "|" that is not already escaped.
+func escapePipes(content []byte) []byte {
+	escaped := make([]byte, 0, len(content))
+
+	backslashCount := 0
+	for _, char := range content {
+		if char == '|' && backslashCount%2 == 0 {
+			escaped = append(escaped, '\\')
+		}
+
+		if char == '\\' {
+			backslashCount++
+		} else {
+			backslashCount = 0
+		}
+		escaped = append(escaped, char)
+	}
+
+	return escaped
+}
+
 func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Node, rowNodes []*html.Node) [][][]byte {
 	rowContents := make([][][]byte, 0, len(rowNodes)+1)
 	groupedModifications := make([][]modification, 0)
-- 
2.43.0


From a7532487c0c7f9b9819656f62ee7137b04523964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 18/78] fix: escape an asterisk at the start of bold or italic
 content

For <b>* a</b> the first character of the content was not escaped since a
space follows. It then extended the delimiter to "*** a**", which is not
recognized as bold anymore.
---
 internal/escape/elem_italic_bold.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/escape/elem_italic_bold.go b/internal/escape/elem_italic_bold.go
index 84381af..a6c6bd3 100644
--- a/internal/escape/elem_italic_bold.go
+++ b/internal/escape/elem_italic_bold.go
@@ -12,10 +12,23 @@ func IsItalicOrBold(chars []byte, index int) int {
 	next := getNextAsRune(chars, index)
 
 	nextIsWhitespace := unicode.IsSpace(next) || next == 0
-	if nextIsWhitespace {
+	if nextIsWhitespace && !isAfterDelimiter(chars, index) {
 		// "not followed by Unicode whitespace"
 		return -1
 	}
 
 	return 1
 }
+
+// isAfterDelimiter checks if the character directly follows an actual delimiter,
+// for example the bold delimiter. It would be added to that delimiter run.
+func isAfterDelimiter(chars []byte, index int) bool {
+	// -1 placeholder
+	// -2 the delimiter
+	// -3 no placeholder
+	if index < 2 || chars[index-1] != placeholderByte || chars[index-2] != chars[index] {
+		return false
+	}
+
+	return index == 2 || chars[index-3] != placeholderByte
+}
-- 
2.43.0


From a5152bab4568fb0d3f1c8a89f948e870bef62b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:01 +0000
Subject: [PATCH 19/78] fix: escape an asterisk that could end bold or italic
 content

---
 internal/escape/elem_italic_bold.go | 31 ++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/internal/escape/elem_italic_bold.go b/internal/escape/elem_italic_bold.go
index a6c6bd3..4ce16dc 100644
--- a/internal/escape/elem_italic_bold.go
+++ b/internal/escape/elem_italic_bold.go
@@ -12,7 +12,7 @@ func IsItalicOrBold(chars []byte, index int) int {
 	next := getNextAsRune(chars, index)
 
 	nextIsWhitespace := unicode.IsSpace(next) || next == 0
-	if nextIsWhitespace && !isAfterDelimiter(chars, index) {
+	if nextIsWhitespace && !canCloseDelimiter(chars, index) {
 		// "not followed by Unicode whitespace"
 		return -1
 	}
@@ -20,15 +20,28 @@ func IsItalicOrBold(chars []byte, index int) int {
 	return 1
 }
 
-// isAfterDelimiter checks if the character directly follows an actual delimiter,
-// for example the bold delimiter. It would be added to that delimiter run.
-func isAfterDelimiter(chars []byte, index int) bool {
-	// -1 placeholder
-	// -2 the delimiter
-	// -3 no placeholder
-	if index < 2 || chars[index-1] != placeholderByte || chars[index-2] != chars[index] {
+// canCloseDelimiter checks if the character could be understood as the end
+// of an actual delimiter (for example the bold delimiter) that came before it.
+func canCloseDelimiter(chars []byte, index int) bool {
+	if index == 0 || chars[index-1] != placeholderByte {
 		return false
 	}
 
-	return index == 2 || chars[index-3] != placeholderByte
+	prev := getPrevAsRune(chars, index)
+	if unicode.IsSpace(prev) || prev == 0 {
+		// "not preceded by Unicode whitespace"
+		return false
+	}
+
+	for i := index - 1; i >= 0; i-- {
+		if chars[i] == '\n' && i > 0 && chars[i-1] == '\n' {
+			// Delimiters only have a meaning inside their own block.
+			return false
+		}
+		if chars[i] == chars[index] && (i == 0 || chars[i-1] != placeholderByte) {
+			return true
+		}
+	}
+
+	return false
 }
-- 
2.43.0


From 2b8d120c0614703019ff25361aaa198e10b2f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 20/78] fix: escape an opening bracket that is closed after a
 line break

---
 internal/escape/elem_image.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/escape/elem_image.go b/internal/escape/elem_image.go
index e1d9b5d..3d40256 100644
--- a/internal/escape/elem_image.go
+++ b/internal/escape/elem_image.go
@@ -23,7 +23,7 @@ func isImageOrLinkStartExclamation(chars []byte, index int) int {
 
 func isImageOrLinkStartBracket(chars []byte, index int) int {
 	for i := index + 1; i < len(chars); i++ {
-		if chars[i] == '\n' {
+		if chars[i] == '\n' && !isHardLineBreak(chars, i) {
 			return -1
 		}
 
@@ -34,3 +34,9 @@ func isImageOrLinkStartBracket(chars []byte, index int) int {
 
 	return -1
 }
+
+// isHardLineBreak checks if the newline is a hard line break. In contrast to
+// an empty line, the link could continue afterwards.
+func isHardLineBreak(chars []byte, index int) bool {
+	return index >= 2 && chars[index-1] == ' ' && chars[index-2] == ' '
+}
-- 
2.43.0


From 5d6d7c745c271e30a70054426c8c3c330a7ccf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 21/78] fix: keep list items that would be understood as a
 thematic break

---
 plugin/commonmark/render_list.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index d99109c..d3753dd 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode/utf8"
 
 	"github.com/JohannesKaufmann/dom"
@@ -65,6 +66,19 @@ func renderMultiLineListItem(w converter.Writer, content []byte, indentCount int
 	}
 }
 
+// isDividerWithPrefix checks if the first line would be understood as a
+// thematic break once it is placed after the bullet point, e.g. "- --"
+func (c commonmark) isDividerWithPrefix(prefix string, item []byte) bool {
+	marker := strings.TrimSpace(prefix)
+	if marker != c.BulletListMarker {
+		return false
+	}
+	firstLine, _, _ := bytes.Cut(item, []byte("\n"))
+
+	count := bytes.Count(firstLine, []byte(marker))
+	return count >= 2 && len(bytes.Trim(firstLine, marker+" ")) == 0
+}
+
 func (c commonmark) renderListContainer(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	children := dom.AllChildNodes(n)
 	items := make([][]byte, 0, len(children))
@@ -91,12 +105,19 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 
 	w.WriteString("\n\n")
 	for i, item := range items {
-		w.WriteString(getPrefix(i))
+		prefix := getPrefix(i)
 
 		item = textutils.TrimConsecutiveNewlines(item)
 		item = textutils.TrimUnnecessaryHardLineBreaks(item)
 		item = ctx.UnEscapeContent(item)
 
+		if c.isDividerWithPrefix(prefix, item) {
+			// By starting on the next line, it stays a list item.
+			item = append([]byte("\n"), item...)
+			prefix = strings.TrimRight(prefix, " ")
+		}
+		w.WriteString(prefix)
+
 		// An item might have different lines that each
 		// must be indented with the correct count of spaces.
 		renderMultiLineListItem(w, item, indentCount)
-- 
2.43.0


From 780b322f2753ba45d1f52b17d3e949662acdff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:44 +0000
Subject: [PATCH 22/78] fix: escape the content of bold text after an asterisk
 at the start of a line

---
 internal/escape/elem_divider.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/escape/elem_divider.go b/internal/escape/elem_divider.go
index 25ec9af..9072280 100644
--- a/internal/escape/elem_divider.go
+++ b/internal/escape/elem_divider.go
@@ -19,6 +19,8 @@ func IsDivider(chars []byte, index int) int {
 		return -1
 	}
 
+	hasPlaceholder := index > 0 && chars[index-1] == placeholderByte
+
 	count := 1
 	lastChar := len(chars)
 	for i := index + 1; i < len(chars); i++ {
@@ -30,10 +32,15 @@ func IsDivider(chars []byte, index int) int {
 		}
 		if chars[i] == chars[index] {
 			count++
+			if hasPlaceholder && chars[i-1] != placeholderByte {
+				// This is an actual delimiter (for example for bold), so
+				// the characters that follow need to be checked separately.
+				lastChar = min(lastChar, index+1)
+			}
 			continue
 		}
 		if chars[i] == '\n' {
-			lastChar = i
+			lastChar = min(lastChar, i)
 			break
 		}
 
-- 
2.43.0


From 2d3d2768d8f92c33807dc0d2882437b7ea3e2ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:14 +0000
Subject: [PATCH 23/78] fix: remove empty kbd, samp, tt and var elements like
 empty code

---
 internal/domutils/empty_code.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/empty_code.go b/internal/domutils/empty_code.go
index d6d81d1..396548c 100644
--- a/internal/domutils/empty_code.go
+++ b/internal/domutils/empty_code.go
@@ -25,10 +25,18 @@ func hasTextChildNodes(startNode *html.Node) bool {
 	return found
 }
 
+func isInlineCode(node *html.Node) bool {
+	switch dom.NodeName(node) {
+	case "code", "var", "samp", "kbd", "tt":
+		return true
+	}
+	return false
+}
+
 func RemoveEmptyCode(ctx context.Context, doc *html.Node) {
 	node := doc
 	for node != nil {
-		if dom.NodeName(node) == "code" && !hasTextChildNodes(node) {
+		if isInlineCode(node) && !hasTextChildNodes(node) {
 			next := dom.GetNextNeighborNodeExcludingOwnChild(node)
 
 			dom.RemoveNode(node)
-- 
2.43.0


From ff6c9a9ad74ff83260a9162b3265d70440db5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:46 +0000
Subject: [PATCH 24/78] fix: do not render delimiters for inline code without
 content

---
 plugin/commonmark/render_code.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index 6142d09..51be827 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -18,10 +18,10 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 
 	codeContent, _ := getCodeWithoutTags(n)
 
-	// TODO: debug flag?
 	if len(codeContent) == 0 {
-		// fmt.Println("expected an empty inline code to be already removed")
-		// panic("expected an empty inline code to be already removed")
+		// Most empty elements are already removed, but the content
+		// could also be removed while collapsing the whitespace.
+		return converter.RenderSuccess
 	}
 	// TODO: configurable function to decide if inline or block?
 	if bytes.Contains(codeContent, []byte("\n")) {
-- 
2.43.0


From 5055c63b7c7723f026f04cbaa0cf0de6505c75c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:42 +0000
Subject: [PATCH 25/78] fix: keep the whitespace after kbd, samp, tt and var
 elements

---
 collapse/is_node.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/collapse/is_node.go b/collapse/is_node.go
index f0d524d..3beb7c6 100644
--- a/collapse/is_node.go
+++ b/collapse/is_node.go
@@ -36,8 +36,11 @@ var defaultIsVoidNode = func(node *html.Node) bool {
 }
 var defaultIsPreformattedNode = func(node *html.Node) bool {
 	// Note: Originally in the javascript version, this just checked for "pre".
-	// I changed it, to also return true for "code"
-	name := dom.NodeName(node)
-
-	return name == "pre" || name == "code"
+	// I changed it, to also return true for "code" (and the other elements
+	// that are rendered as inline code)
+	switch dom.NodeName(node) {
+	case "pre", "code", "var", "samp", "kbd", "tt":
+		return true
+	}
+	return false
 }
-- 
2.43.0


From a4d83ecf8f0a6aec46bda5a42900bda816a9790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:16 +0000
Subject: [PATCH 26/78] fix: prefix the lines of code blocks inside blockquotes

---
 plugin/commonmark/render_blockquote.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index c4652e9..c679a7e 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/internal/textutils"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
@@ -23,6 +24,8 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	// The "> " prefix would hide the start of the line from the un-escapers.
 	content = ctx.UnEscapeContent(content)
 	content = textutils.PrefixLines(content, []byte{'>', ' '})
+	// The lines of a code block also need the prefix.
+	content = bytes.ReplaceAll(content, marker.BytesMarkerCodeBlockNewline, append(marker.BytesMarkerCodeBlockNewline, '>', ' '))
 
 	w.WriteRune('\n')
 	w.WriteRune('\n')
-- 
2.43.0


From 8b59a19591237aea4208726ddd541337d5776a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:39 +0000
Subject: [PATCH 27/78] fix: empty blocks keep the surrounding text separated

---
 plugin/commonmark/render_blockquote.go | 2 ++
 plugin/commonmark/render_heading.go    | 2 ++
 plugin/commonmark/render_list.go       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/plugin/commonmark/render_blockquote.go b/plugin/commonmark/render_blockquote.go
index c679a7e..334d022 100644
--- a/plugin/commonmark/render_blockquote.go
+++ b/plugin/commonmark/render_blockquote.go
@@ -16,6 +16,8 @@ func (c *commonmark) renderBlockquote(ctx converter.Context, w converter.Writer,
 	content := buf.Bytes()
 	content = bytes.TrimSpace(content)
 	if content == nil {
+		// It still separates the content before and after.
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index 34fbb21..dff5f4b 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -117,6 +117,8 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 	content := buf.Bytes()
 
 	if len(bytes.TrimSpace(content)) == 0 {
+		// It still separates the content before and after.
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index d3753dd..d6bea44 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -97,6 +97,8 @@ func (c commonmark) renderListContainer(ctx converter.Context, w converter.Write
 	}
 
 	if len(items) == 0 {
+		// It still separates the content before and after.
+		w.WriteString("\n\n")
 		return converter.RenderSuccess
 	}
 
-- 
2.43.0


From dde763e56a9aff07cae502136dd9267469ecfb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 28/78] fix: start lists at one when the number is not valid in
 markdown

---
 plugin/commonmark/render_list.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index d6bea44..5a57979 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -14,6 +14,9 @@ import (
 	"golang.org/x/net/html"
 )
 
+// The number of a list item cannot be negative or have more than nine digits.
+const maxListNumber = 999_999_999
+
 func getStartAt(node *html.Node) int {
 	startVal := dom.GetAttributeOr(node, "start", "1")
 	startAt, err := strconv.Atoi(startVal)
@@ -26,6 +29,10 @@ func getStartAt(node *html.Node) int {
 
 func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) string {
 	startAt := getStartAt(n)
+	if startAt < 0 || startAt+sliceLength-1 > maxListNumber {
+		// Would not be recognized as a list
+		startAt = 1
+	}
 
 	return func(sliceIndex int) string {
 		if n.Data == "ul" {
-- 
2.43.0


From 13a7b8b407c0411dd175a25aef119296b7f6f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:40 +0000
Subject: [PATCH 29/78] fix: do not merge adjacent elements across the end of
 their parent

---
 internal/domutils/adjacent.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/domutils/adjacent.go b/internal/domutils/adjacent.go
index 49faccb..8cec92d 100644
--- a/internal/domutils/adjacent.go
+++ b/internal/domutils/adjacent.go
@@ -5,18 +5,34 @@ import (
 	"golang.org/x/net/html"
 )
 
+// nextNodeOutsideSpan returns the next sibling. The "span" elements have no
+// special meaning, so we are allowed to leave them (but no other elements).
+func nextNodeOutsideSpan(node *html.Node) *html.Node {
+	for node.NextSibling == nil {
+		node = node.Parent
+		if node == nil || dom.NodeName(node) != "span" {
+			return nil
+		}
+	}
+	return node.NextSibling
+}
+
 func collectAdjacentNodes(node *html.Node, matchFn func(n *html.Node) bool) []*html.Node {
 	var collectedNodes []*html.Node
 
-	node = node.NextSibling
+	node = nextNodeOutsideSpan(node)
 	for node != nil {
 		name := dom.NodeName(node)
 		if name == "span" {
 			// A span has no special meaning. So we just skip it...
-			node = dom.GetNextNeighborNode(node)
+			if node.FirstChild != nil {
+				node = node.FirstChild
+			} else {
+				node = nextNodeOutsideSpan(node)
+			}
 		} else if matchFn(node) {
 			collectedNodes = append(collectedNodes, node)
-			node = dom.GetNextNeighborNodeExcludingOwnChild(node)
+			node = nextNodeOutsideSpan(node)
 		} else {
 			// Return the collected nodes
 			return collectedNodes
-- 
2.43.0


From 38aec5aeca5b2ba5b2f9d99f46041419cd5f080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 30/78] fix: move the content into the list items before
 merging adjacent elements

---
 plugin/commonmark/handle_pre_render.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plugin/commonmark/handle_pre_render.go b/plugin/commonmark/handle_pre_render.go
index b719e3e..7c125c7 100644
--- a/plugin/commonmark/handle_pre_render.go
+++ b/plugin/commonmark/handle_pre_render.go
@@ -68,6 +68,9 @@ func (c *commonmark) handlePreRender(ctx converter.Context, doc *html.Node) {
 	// domutils.SplitUp(ctx, doc, nameIsLink, nameIsHeading, atom.Div)
 	// domutils.SplitUp(ctx, doc, nameIsLink, nameIsBlockquote, atom.Div)
 
+	// - - - List - - - //
+	domutils.MoveListItems(ctx, doc)
+
 	// - - - Bold / Italic - - - //
 	domutils.RemoveRedundant(doc, nameIsBothBoldOrItalic)
 	domutils.MergeAdjacent(doc, nameIsBold)
@@ -89,7 +92,4 @@ func (c *commonmark) handlePreRender(ctx converter.Context, doc *html.Node) {
 	// - - - Heading - - - //
 	domutils.SwapTags(ctx, doc, nameIsLink, nameIsHeading)
 	domutils.LeafBlockAlternatives(ctx, doc)
-
-	// - - - List - - - //
-	domutils.MoveListItems(ctx, doc)
 }
-- 
2.43.0


From 3c87d5b0b9c54c46e7475979ad8b580d276a556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:32 +0000
Subject: [PATCH 31/78] fix: separate adjacent lists also when an item outside
 of a list comes between

---
 internal/domutils/list_end_comment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/domutils/list_end_comment.go b/internal/domutils/list_end_comment.go
index e401736..05c996c 100644
--- a/internal/domutils/list_end_comment.go
+++ b/internal/domutils/list_end_comment.go
@@ -41,7 +41,7 @@ func nextNameIsList(startNode *html.Node) bool {
 		if name == "ul" || name == "ol" {
 			return true
 		}
-		if name == "li" {
+		if name == "li" && nameIsList(node.Parent) {
 			return false
 		}
 		if name == "#comment" && node.Data == ListEndCommentData {
-- 
2.43.0


From 7750e0c23b2c240541958bc944d0b1dff494fe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 32/78] fix: only look for inline code inside of the bold or
 italic element

---
 internal/domutils/add_space.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/domutils/add_space.go b/internal/domutils/add_space.go
index f26c0d7..85aebd1 100644
--- a/internal/domutils/add_space.go
+++ b/internal/domutils/add_space.go
@@ -7,9 +7,18 @@ import (
 	"golang.org/x/net/html"
 )
 
+func isInside(node *html.Node, ancestor *html.Node) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if p == ancestor {
+			return true
+		}
+	}
+	return false
+}
+
 func getFirstChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *html.Node {
 	node := startNode.FirstChild
-	for node != nil {
+	for node != nil && isInside(node, startNode) {
 		name := dom.NodeName(node)
 		if name == "span" {
 			// A span has no special meaning. So we just skip it...
@@ -26,7 +35,7 @@ func getFirstChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *h
 
 func getLastChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *html.Node {
 	node := startNode.LastChild
-	for node != nil {
+	for node != nil && isInside(node, startNode) {
 		name := dom.NodeName(node)
 		if name == "span" {
 			// A span has no special meaning. So we just skip it...
-- 
2.43.0


From e1e1d26182f0ca7db934a2455ec5a047eda98fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 33/78] fix: do not add spaces inside of code

---
 internal/domutils/add_space.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/add_space.go b/internal/domutils/add_space.go
index 85aebd1..63d39a1 100644
--- a/internal/domutils/add_space.go
+++ b/internal/domutils/add_space.go
@@ -16,6 +16,16 @@ func isInside(node *html.Node, ancestor *html.Node) bool {
 	return false
 }
 
+// isInsideCode checks that the content is code, which has to be kept as it is.
+func isInsideCode(node *html.Node, isCode func(*html.Node) bool) bool {
+	for p := node.Parent; p != nil; p = p.Parent {
+		if isCode(p) || dom.NodeName(p) == "pre" {
+			return true
+		}
+	}
+	return false
+}
+
 func getFirstChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *html.Node {
 	node := startNode.FirstChild
 	for node != nil && isInside(node, startNode) {
@@ -52,7 +62,7 @@ func getLastChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *ht
 func AddSpace(ctx context.Context, doc *html.Node, isOuterNode, isInnerNode func(*html.Node) bool) {
 	node := doc
 	for node != nil {
-		if isOuterNode(node) {
+		if isOuterNode(node) && !isInsideCode(node, isInnerNode) {
 			firstChild := getFirstChildNode(node, isInnerNode)
 			if firstChild != nil {
 				prev := getPrevTextNode(node)
-- 
2.43.0


From 7e38f5e2f2cf6e21335e77bcb5e5bd8de480cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 34/78] fix: remove bold and italic elements without content
 before merging adjacent elements

---
 internal/domutils/redundant.go         | 23 +++++++++++++++++++++++
 plugin/commonmark/handle_pre_render.go |  1 +
 2 files changed, 24 insertions(+)

diff --git a/internal/domutils/redundant.go b/internal/domutils/redundant.go
index d4ebae2..a80a2d5 100644
--- a/internal/domutils/redundant.go
+++ b/internal/domutils/redundant.go
@@ -27,3 +27,26 @@ func hasSameTypeAncestor(n *html.Node, matchFn func(*html.Node, *html.Node) bool
 
 	return false
 }
+
+// RemoveEmptyElements removes the matching elements that have no content
+// at all, except for other matching elements and "span" elements.
+func RemoveEmptyElements(doc *html.Node, matchFn func(*html.Node) bool) {
+	var isEmpty func(*html.Node) bool
+	isEmpty = func(n *html.Node) bool {
+		if !matchFn(n) && dom.NodeName(n) != "span" {
+			return false
+		}
+		for child := n.FirstChild; child != nil; child = child.NextSibling {
+			if !isEmpty(child) {
+				return false
+			}
+		}
+		return true
+	}
+
+	for _, node := range dom.AllNodes(doc) {
+		if matchFn(node) && isEmpty(node) {
+			dom.RemoveNode(node)
+		}
+	}
+}
diff --git a/plugin/commonmark/handle_pre_render.go b/plugin/commonmark/handle_pre_render.go
index 7c125c7..008c0f4 100644
--- a/plugin/commonmark/handle_pre_render.go
+++ b/plugin/commonmark/handle_pre_render.go
@@ -73,6 +73,7 @@ func (c *commonmark) handlePreRender(ctx converter.Context, doc *html.Node) {
 
 	// - - - Bold / Italic - - - //
 	domutils.RemoveRedundant(doc, nameIsBothBoldOrItalic)
+	domutils.RemoveEmptyElements(doc, nameIsBoldOrItalic)
 	domutils.MergeAdjacent(doc, nameIsBold)
 	domutils.MergeAdjacent(doc, nameIsItalic)
 
-- 
2.43.0


From 3ecd72aab9d68497e5446c2a2e07a30c15ee952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 35/78] fix: look at the last (not the first) child of a span
 at the end of bold and italic

---
 internal/domutils/add_space.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/add_space.go b/internal/domutils/add_space.go
index 63d39a1..e651a2c 100644
--- a/internal/domutils/add_space.go
+++ b/internal/domutils/add_space.go
@@ -49,7 +49,11 @@ func getLastChildNode(startNode *html.Node, matchFn func(n *html.Node) bool) *ht
 		name := dom.NodeName(node)
 		if name == "span" {
 			// A span has no special meaning. So we just skip it...
-			node = dom.GetPrevNeighborNode(node)
+			if node.LastChild != nil {
+				node = node.LastChild
+			} else {
+				node = dom.GetPrevNeighborNodeExcludingOwnChild(node)
+			}
 		} else if matchFn(node) {
 			return node
 		} else {
-- 
2.43.0


From 4cfe6d513c610e3135bdbef1d8c8718c562fb7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 36/78] fix: escape every backtick of a longer fence

---
 internal/escape/elem_code.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/escape/elem_code.go b/internal/escape/elem_code.go
index 377bd1d..69ab117 100644
--- a/internal/escape/elem_code.go
+++ b/internal/escape/elem_code.go
@@ -33,6 +33,12 @@ func IsFencedCode(chars []byte, index int) int {
 		return -1
 	}
 
+	if chars[index] == '`' && count > 3 {
+		// What remains after the escaped character could still be
+		// the start of inline code, so the others are also escaped.
+		return 1
+	}
+
 	return i - index
 }
 
-- 
2.43.0


From 89aeddb59ba45cae17d28e4b5650a8a0d77dc480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 37/78] fix: look at the last (not the first) child of a span
 before bold and italic

---
 internal/domutils/domutils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/domutils.go b/internal/domutils/domutils.go
index e0766c7..f763e80 100644
--- a/internal/domutils/domutils.go
+++ b/internal/domutils/domutils.go
@@ -33,7 +33,11 @@ func getPrevTextNode(startNode *html.Node) *html.Node {
 
 		if dom.NodeName(node) == "span" {
 			// A span has no special meaning. So we just skip it...
-			node = dom.GetPrevNeighborNode(node)
+			if node.LastChild != nil {
+				node = node.LastChild
+			} else {
+				node = dom.GetPrevNeighborNodeExcludingOwnChild(node)
+			}
 			continue
 		}
 
-- 
2.43.0


From 2b9c5ea5fc54d1c6b655aef1156437b832f99d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 38/78] fix: no escaped line breaks for links inside of ATX
 headings

---
 plugin/commonmark/render_heading.go |  5 ++++-
 plugin/commonmark/render_link.go    | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index dff5f4b..2c3f255 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -22,6 +22,9 @@ func (r *commonmark) setextUnderline(level int, width int) []byte {
 
 	return bytes.Repeat([]byte(line), width)
 }
+func (r *commonmark) isSetextHeading(level int) bool {
+	return r.HeadingStyle == HeadingStyleSetext && level < 3
+}
 func (r *commonmark) atxPrefix(level int) []byte {
 	return bytes.Repeat([]byte("#"), level)
 }
@@ -122,7 +125,7 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 		return converter.RenderSuccess
 	}
 
-	if c.HeadingStyle == HeadingStyleSetext && level < 3 {
+	if c.isSetextHeading(level) {
 		// Note: We don't want to use `TrimUnnecessaryHardLineBreaks` here,
 		// since `EscapeMultiLine` also takes care of newlines.
 		content = textutils.TrimConsecutiveNewlines(content)
diff --git a/plugin/commonmark/render_link.go b/plugin/commonmark/render_link.go
index 9919b18..5c3cb68 100644
--- a/plugin/commonmark/render_link.go
+++ b/plugin/commonmark/render_link.go
@@ -44,6 +44,15 @@ func (c *commonmark) renderLinkInlined(w converter.Writer, l *link) converter.Re
 	return converter.RenderSuccess
 }
 
+func (c *commonmark) isInsideATXHeading(n *html.Node) bool {
+	for p := n.Parent; p != nil; p = p.Parent {
+		if nameIsHeading(p) {
+			return !c.isSetextHeading(getHeadingLevel(dom.NodeName(p)))
+		}
+	}
+	return false
+}
+
 func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	ctx = ctx.WithValue("is_inside_link", true)
 
@@ -88,7 +97,11 @@ func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *ht
 	// Note: We don't want to use `TrimUnnecessaryHardLineBreaks` here,
 	// since `EscapeMultiLine` also takes care of newlines.
 	trimmed = textutils.TrimConsecutiveNewlines(trimmed)
-	trimmed = textutils.EscapeMultiLine(trimmed)
+	if !c.isInsideATXHeading(n) {
+		// The ATX heading is only one line. There the newlines
+		// are going to be replaced, so no escaping is needed.
+		trimmed = textutils.EscapeMultiLine(trimmed)
+	}
 
 	l.before = leftExtra
 	l.content = trimmed
-- 
2.43.0


From caafc6372f3d01b27f0d2e6f568d72ce77f4950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 39/78] fix: remove empty inline code before merging bold and
 italic

---
 plugin/commonmark/handle_pre_render.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/handle_pre_render.go b/plugin/commonmark/handle_pre_render.go
index 008c0f4..7ede78d 100644
--- a/plugin/commonmark/handle_pre_render.go
+++ b/plugin/commonmark/handle_pre_render.go
@@ -71,6 +71,9 @@ func (c *commonmark) handlePreRender(ctx converter.Context, doc *html.Node) {
 	// - - - List - - - //
 	domutils.MoveListItems(ctx, doc)
 
+	// - - - Empty - - - //
+	domutils.RemoveEmptyCode(ctx, doc)
+
 	// - - - Bold / Italic - - - //
 	domutils.RemoveRedundant(doc, nameIsBothBoldOrItalic)
 	domutils.RemoveEmptyElements(doc, nameIsBoldOrItalic)
@@ -80,7 +83,6 @@ func (c *commonmark) handlePreRender(ctx converter.Context, doc *html.Node) {
 	// domutils.MovePunctuation(ctx, doc, nameIsBoldOrItalic)
 
 	// - - - Code - - - //
-	domutils.RemoveEmptyCode(ctx, doc)
 	domutils.SwapTags(ctx, doc, nameIsInlineCode, nameIsPre)
 	domutils.MergeAdjacent(doc, nameIsInlineCode)
 
-- 
2.43.0


From 2c2d3900591a09857c387b973df7e70efd14c452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 40/78] fix: replace carriage returns in titles and alt texts

---
 plugin/commonmark/render_image.go | 4 ++--
 plugin/commonmark/render_link.go  | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 9b1df3a..76cb65b 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -35,10 +35,10 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 	src = ctx.AssembleAbsoluteURL(ctx, "img", src)
 
 	title := dom.GetAttributeOr(n, "title", "")
-	title = strings.ReplaceAll(title, "\n", " ")
+	title = newlineReplacer.Replace(title)
 
 	alt := dom.GetAttributeOr(n, "alt", "")
-	alt = strings.ReplaceAll(alt, "\n", " ")
+	alt = newlineReplacer.Replace(alt)
 
 	// The alt description will be placed between two square brackets `[alt]`
 	// so make sure that those characters are escaped.
diff --git a/plugin/commonmark/render_link.go b/plugin/commonmark/render_link.go
index 5c3cb68..8bd83a2 100644
--- a/plugin/commonmark/render_link.go
+++ b/plugin/commonmark/render_link.go
@@ -10,6 +10,10 @@ import (
 	"golang.org/x/net/html"
 )
 
+// An attribute could also contain a carriage return (through "&#13;")
+// which is also a line ending in markdown.
+var newlineReplacer = strings.NewReplacer("\n", " ", "\r", " ")
+
 // link in commonmark contains
 // - the link text (the visible text)
 // - a link destination (the URI that is the link destination)
@@ -68,7 +72,7 @@ func (c *commonmark) renderLink(ctx converter.Context, w converter.Writer, n *ht
 	}
 
 	title := dom.GetAttributeOr(n, "title", "")
-	title = strings.ReplaceAll(title, "\n", " ")
+	title = newlineReplacer.Replace(title)
 
 	l := &link{
 		Node:  n,
-- 
2.43.0


From 4f52d4576dd73e7d4d455edfb8361d441b5fa97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 41/78] fix: no title for an image whose address is empty

---
 plugin/commonmark/render_image.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index 76cb65b..c37125b 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -33,6 +33,9 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 	}
 
 	src = ctx.AssembleAbsoluteURL(ctx, "img", src)
+	if src == "" {
+		return converter.RenderTryNext
+	}
 
 	title := dom.GetAttributeOr(n, "title", "")
 	title = newlineReplacer.Replace(title)
-- 
2.43.0


From f9344d3c8440b7d7982091ed66801bdd6899537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 42/78] fix: encode backslashes in addresses that are kept as
 they are

---
 converter/url.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/url.go b/converter/url.go
index 7de62f8..a53a9b4 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -13,6 +13,8 @@ var percentEncodingReplacer = strings.NewReplacer(
 	")", "%29",
 	"<", "%3C",
 	">", "%3E",
+	// A backslash would escape the next character
+	"\\", "%5C",
 )
 
 func parseBaseDomain(rawDomain string) *url.URL {
-- 
2.43.0


From 044d1ca7588cce7e738082f39e491f1f95f44e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 43/78] fix: keep lang- as part of the code language

---
 plugin/commonmark/render_code.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index 51be827..9a516fe 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -99,8 +99,15 @@ func getCodeLanguage(n *html.Node) string {
 			continue
 		}
 
-		part = strings.Replace(part, "language-", "", 1)
-		part = strings.Replace(part, "lang-", "", 1)
+		// Only remove the marker once, as it could
+		// also be part of the name (e.g. "clang-format").
+		if after, found := strings.CutPrefix(part, "lang-"); found {
+			part = after
+		} else if strings.Contains(part, "language-") {
+			part = strings.Replace(part, "language-", "", 1)
+		} else {
+			part = strings.Replace(part, "lang-", "", 1)
+		}
 
 		// The info string may not contain a backtick, the fence would not be recognized.
 		return strings.ReplaceAll(part, "`", "")
-- 
2.43.0


From 935e89d02c38f7b96f499ad9913f780a910ae9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:49 +0000
Subject: [PATCH 44/78] fix: escape backslashes in the code language

---
 plugin/commonmark/render_code.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index 9a516fe..d223703 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -110,7 +110,9 @@ func getCodeLanguage(n *html.Node) string {
 		}
 
 		// The info string may not contain a backtick, the fence would not be recognized.
-		return strings.ReplaceAll(part, "`", "")
+		part = strings.ReplaceAll(part, "`", "")
+		// The info string can contain backslash escapes.
+		return strings.ReplaceAll(part, `\`, `\\`)
 	}
 
 	return ""
-- 
2.43.0


From 9120b31e92cfec8a28337cbcbec6cd9d66ffa628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:00 +0000
Subject: [PATCH 45/78] fix: no empty lines in inline code that has only spaces

---
 plugin/commonmark/render_code.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index d223703..ea3f108 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -31,8 +31,9 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 
 	if bytes.TrimSpace(codeContent) == nil {
 		// No stripping occurs if the code span contains _only_ spaces:
+		// But an empty line would end the paragraph.
 		w.WriteRune(fenceChar)
-		w.Write(codeContent)
+		w.Write(bytes.ReplaceAll(codeContent, []byte("\n"), []byte(" ")))
 		w.WriteRune(fenceChar)
 		return converter.RenderSuccess
 	}
-- 
2.43.0


From 2b73f45d0b0c32931337e944b03e4d29d3d89e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:50 +0000
Subject: [PATCH 46/78] fix: escape what looks like an entity in addresses

---
 plugin/commonmark/render_image.go |  2 +-
 plugin/commonmark/render_link.go  | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/plugin/commonmark/render_image.go b/plugin/commonmark/render_image.go
index c37125b..244c0a9 100644
--- a/plugin/commonmark/render_image.go
+++ b/plugin/commonmark/render_image.go
@@ -52,7 +52,7 @@ func (c *commonmark) renderImage(ctx converter.Context, w converter.Writer, n *h
 	w.WriteString(alt)
 	w.WriteRune(']')
 	w.WriteRune('(')
-	w.WriteString(src)
+	w.WriteString(escapeEntitiesInURL(src))
 	if title != "" {
 		// The destination and title must be seperated by a space
 		w.WriteRune(' ')
diff --git a/plugin/commonmark/render_link.go b/plugin/commonmark/render_link.go
index 8bd83a2..33eae9c 100644
--- a/plugin/commonmark/render_link.go
+++ b/plugin/commonmark/render_link.go
@@ -2,6 +2,7 @@ package commonmark
 
 import (
 	"bytes"
+	"regexp"
 	"strings"
 
 	"github.com/JohannesKaufmann/dom"
@@ -14,6 +15,14 @@ import (
 // which is also a line ending in markdown.
 var newlineReplacer = strings.NewReplacer("\n", " ", "\r", " ")
 
+// A part of an url could look like an html entity (e.g. "/a&copy;"),
+// which would be decoded inside the markdown destination.
+var entityInURL = regexp.MustCompile(`&(#?[a-zA-Z0-9]+;)`)
+
+func escapeEntitiesInURL(url string) string {
+	return entityInURL.ReplaceAllString(url, "&amp;$1")
+}
+
 // link in commonmark contains
 // - the link text (the visible text)
 // - a link destination (the URI that is the link destination)
@@ -36,7 +45,7 @@ func (c *commonmark) renderLinkInlined(w converter.Writer, l *link) converter.Re
 	w.Write(l.content)
 	w.WriteRune(']')
 	w.WriteRune('(')
-	w.WriteString(l.href)
+	w.WriteString(escapeEntitiesInURL(l.href))
 	if l.title != "" {
 		// The destination and title must be separated by a space
 		w.WriteRune(' ')
-- 
2.43.0


From 77a8193c7b401911b276929a6d061a853a30573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:50 +0000
Subject: [PATCH 47/78] fix: encode control characters in addresses

---
 converter/url.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/converter/url.go b/converter/url.go
index a53a9b4..4bc24d9 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -1,6 +1,7 @@
 package converter
 
 import (
+	"fmt"
 	"net/url"
 	"strings"
 )
@@ -17,6 +18,20 @@ var percentEncodingReplacer = strings.NewReplacer(
 	"\\", "%5C",
 )
 
+// encodeControlCharacters percent-encodes the control characters (e.g. a newline),
+// which are neither allowed in an url nor in a markdown destination.
+func encodeControlCharacters(rawURL string) string {
+	var b strings.Builder
+	for i := 0; i < len(rawURL); i++ {
+		if c := rawURL[i]; c < 0x20 || c == 0x7f {
+			fmt.Fprintf(&b, "%%%02X", c)
+		} else {
+			b.WriteByte(c)
+		}
+	}
+	return b.String()
+}
+
 func parseBaseDomain(rawDomain string) *url.URL {
 	if rawDomain == "" {
 		return nil
@@ -46,8 +61,7 @@ func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) st
 	}
 
 	// Increase the chance that the url will be parsed
-	rawURL = strings.ReplaceAll(rawURL, "\n", "%0A")
-	rawURL = strings.ReplaceAll(rawURL, "\t", "%09")
+	rawURL = encodeControlCharacters(rawURL)
 
 	u, err := url.Parse(rawURL)
 	if err != nil {
-- 
2.43.0


From dcfbddf4e3811e1d3ffa4be51c1b3ddf53f4d872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 48/78] fix: keep escaped slashes in a path with other
 characters to encode

---
 converter/url.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/converter/url.go b/converter/url.go
index 4bc24d9..b83fd2a 100644
--- a/converter/url.go
+++ b/converter/url.go
@@ -32,6 +32,20 @@ func encodeControlCharacters(rawURL string) string {
 	return b.String()
 }
 
+// encodePathCharacters percent-encodes the characters that are
+// not allowed in a path. The existing escapes stay as they are.
+func encodePathCharacters(rawPath string) string {
+	var b strings.Builder
+	for i := 0; i < len(rawPath); i++ {
+		if c := rawPath[i]; c >= 0x80 || strings.IndexByte(" \"<>\\^`{|}", c) >= 0 {
+			fmt.Fprintf(&b, "%%%02X", c)
+		} else {
+			b.WriteByte(c)
+		}
+	}
+	return b.String()
+}
+
 func parseBaseDomain(rawDomain string) *url.URL {
 	if rawDomain == "" {
 		return nil
@@ -69,6 +83,10 @@ func defaultAssembleAbsoluteURL(tagName string, rawURL string, domain string) st
 		return percentEncodingReplacer.Replace(rawURL)
 	}
 
+	// Unless the path is validly encoded, its escapes would be
+	// decoded (e.g. "%2F" becomes a separator between segments).
+	u.RawPath = encodePathCharacters(u.RawPath)
+
 	if u.Scheme == "data" {
 		// This is a data uri (for example an inline base64 image)
 		return percentEncodingReplacer.Replace(rawURL)
-- 
2.43.0


From b5beb63fccdf461d817927729f75e55876ee6ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 49/78] fix: separate lists that have only whitespace or an
 empty image between them

---
 internal/domutils/list_end_comment.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/domutils/list_end_comment.go b/internal/domutils/list_end_comment.go
index 05c996c..4c13dc7 100644
--- a/internal/domutils/list_end_comment.go
+++ b/internal/domutils/list_end_comment.go
@@ -2,6 +2,7 @@ package domutils
 
 import (
 	"context"
+	"strings"
 
 	"github.com/JohannesKaufmann/dom"
 	"golang.org/x/net/html"
@@ -50,7 +51,11 @@ func nextNameIsList(startNode *html.Node) bool {
 
 		// If there is any text between two lists
 		// they are automatically not connected anymore.
-		if node.Type == html.TextNode {
+		if node.Type == html.TextNode && strings.Trim(node.Data, " \t\r\n") != "" {
+			return false
+		}
+		// The same is true for an image, unless it is not going to be rendered.
+		if name == "img" && strings.TrimSpace(dom.GetAttributeOr(node, "src", "")) != "" {
 			return false
 		}
 
-- 
2.43.0


From 5fa772179e0d7a5d6876ce23a041a708a6841e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:05 +0000
Subject: [PATCH 50/78] fix: no trailing space after an image that is followed
 by several whitespace nodes

---
 collapse/collapse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collapse/collapse.go b/collapse/collapse.go
index 6a2c015..67017f6 100644
--- a/collapse/collapse.go
+++ b/collapse/collapse.go
@@ -135,6 +135,8 @@ func Collapse(element *html.Node, domFuncs *DomFuncs) {
 			node.Data = text
 
 			prevText = node
+			// The protection is only for the text that directly follows.
+			keepLeadingWs = false
 		} else if node.Type == html.ElementNode { // Node.ELEMENT_NODE
 			if domFuncs.IsBlockNode(node) || dom.NodeName(node) == "br" {
 				if prevText != nil {
-- 
2.43.0


From 6de6f74c5e380b736d0adbd7da474c44544a7e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:03 +0000
Subject: [PATCH 51/78] fix: trim the content of setext headings

---
 plugin/commonmark/render_heading.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/commonmark/render_heading.go b/plugin/commonmark/render_heading.go
index 2c3f255..f9827e2 100644
--- a/plugin/commonmark/render_heading.go
+++ b/plugin/commonmark/render_heading.go
@@ -126,6 +126,7 @@ func (c *commonmark) renderHeading(ctx converter.Context, w converter.Writer, n
 	}
 
 	if c.isSetextHeading(level) {
+		content = bytes.TrimSpace(content)
 		// Note: We don't want to use `TrimUnnecessaryHardLineBreaks` here,
 		// since `EscapeMultiLine` also takes care of newlines.
 		content = textutils.TrimConsecutiveNewlines(content)
-- 
2.43.0


From 7b9f2212eae346ffddabbbb8e695f411d13babb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:27 +0000
Subject: [PATCH 52/78] fix: limit how far the closing bracket is searched

---
 internal/escape/elem_image.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/escape/elem_image.go b/internal/escape/elem_image.go
index 3d40256..40322e2 100644
--- a/internal/escape/elem_image.go
+++ b/internal/escape/elem_image.go
@@ -21,8 +21,18 @@ func isImageOrLinkStartExclamation(chars []byte, index int) int {
 	return -1
 }
 
+// How far to look for the closing bracket. Without a limit a long text
+// that consists of opening brackets would take quadratic time.
+const maxLookahead = 1000
+
 func isImageOrLinkStartBracket(chars []byte, index int) int {
 	for i := index + 1; i < len(chars); i++ {
+		if i-index > maxLookahead {
+			// We don't know if there is a closing bracket. An escaped
+			// bracket looks the same, so it is safe to escape it.
+			return 1
+		}
+
 		if chars[i] == '\n' && !isHardLineBreak(chars, i) {
 			return -1
 		}
-- 
2.43.0


From e9ad547908364fc8537eb0950b62f0826e4dc134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 53/78] fix: validate the behavior for empty links

---
 plugin/commonmark/validation.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index 6a09a53..c5278e2 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -96,5 +96,21 @@ func validateConfig(cfg *config) error {
 		}
 	}
 
+	possibleLinkBehaviors := []string{string(LinkBehaviorRender), string(LinkBehaviorSkip)}
+	if !contains(possibleLinkBehaviors, string(cfg.LinkEmptyHrefBehavior)) {
+		return &ValidateConfigError{
+			Key:                "LinkEmptyHrefBehavior",
+			Value:              string(cfg.LinkEmptyHrefBehavior),
+			patternDescription: `one of "render" or "skip"`,
+		}
+	}
+	if !contains(possibleLinkBehaviors, string(cfg.LinkEmptyContentBehavior)) {
+		return &ValidateConfigError{
+			Key:                "LinkEmptyContentBehavior",
+			Value:              string(cfg.LinkEmptyContentBehavior),
+			patternDescription: `one of "render" or "skip"`,
+		}
+	}
+
 	return nil
 }
-- 
2.43.0


From 8de010343a4de2b2efcc2a9e6ffcce3c9f14574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 54/78] fix: report an unknown escape mode

---
 converter/converter.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/converter/converter.go b/converter/converter.go
index 9cacf9e..f5b7142 100644
--- a/converter/converter.go
+++ b/converter/converter.go
@@ -1,6 +1,9 @@
 package converter
 
-import "sync"
+import (
+	"fmt"
+	"sync"
+)
 
 type Converter struct {
 	m sync.RWMutex
@@ -66,6 +69,15 @@ const (
 //	default: "smart"
 func WithEscapeMode(mode escapeMode) converterOption {
 	return func(c *Converter) error {
+		switch mode {
+		case "":
+			// Allow empty string to default to "smart"
+			mode = EscapeModeSmart
+		case EscapeModeDisabled, EscapeModeSmart:
+		default:
+			return fmt.Errorf("unknown value %q for escape mode", mode)
+		}
+
 		c.escapeMode = mode
 		return nil
 	}
-- 
2.43.0


From 838710b788da7f9f82a4149bf12b2642721f5bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:47 +0000
Subject: [PATCH 55/78] fix: reject a horizontal rule that would be indented
 code

---
 plugin/commonmark/validation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/commonmark/validation.go b/plugin/commonmark/validation.go
index c5278e2..8e80fed 100644
--- a/plugin/commonmark/validation.go
+++ b/plugin/commonmark/validation.go
@@ -55,7 +55,7 @@ func validateConfig(cfg *config) error {
 	}
 
 	rule := strings.ReplaceAll(cfg.HorizontalRule, " ", "")
-	if len(rule) < 3 || !strings.ContainsAny(rule[:1], "*_-") || strings.Trim(rule, rule[:1]) != "" {
+	if strings.HasPrefix(cfg.HorizontalRule, "    ") || len(rule) < 3 || !strings.ContainsAny(rule[:1], "*_-") || strings.Trim(rule, rule[:1]) != "" {
 		return &ValidateConfigError{
 			Key:                "HorizontalRule",
 			Value:              cfg.HorizontalRule,
-- 
2.43.0


From 32f22e0a930d4d02dd3c33ad09dd46e9b8bd60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:23 +0000
Subject: [PATCH 56/78] fix: keep carriage returns from ending the line of a
 container in code

---
 internal/textutils/collapse_code.go | 1 +
 plugin/commonmark/render_code.go    | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/textutils/collapse_code.go b/internal/textutils/collapse_code.go
index 47772e2..712e7d2 100644
--- a/internal/textutils/collapse_code.go
+++ b/internal/textutils/collapse_code.go
@@ -7,6 +7,7 @@ import (
 func CollapseInlineCodeContent(content []byte) []byte {
 	// TODO: what about other characters like the reset char? Maybe unicode.IsSpace?
 	content = bytes.ReplaceAll(content, []byte{'\n'}, []byte{' '})
+	content = bytes.ReplaceAll(content, []byte{'\r'}, []byte{' '})
 	content = bytes.ReplaceAll(content, []byte{'\t'}, []byte{' '})
 
 	content = bytes.TrimSpace(content)
diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index ea3f108..3fd9fa4 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -33,7 +33,7 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 		// No stripping occurs if the code span contains _only_ spaces:
 		// But an empty line would end the paragraph.
 		w.WriteRune(fenceChar)
-		w.Write(bytes.ReplaceAll(codeContent, []byte("\n"), []byte(" ")))
+		w.WriteString(newlineReplacer.Replace(string(codeContent)))
 		w.WriteRune(fenceChar)
 		return converter.RenderSuccess
 	}
@@ -68,6 +68,12 @@ func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n
 func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	code, infoString := getCodeWithoutTags(n)
 
+	// A carriage return (that was written as a character reference) also
+	// ends the line. But the following line would not get the prefix of the
+	// surrounding list item or blockquote.
+	code = bytes.ReplaceAll(code, []byte("\r\n"), []byte("\n"))
+	code = bytes.ReplaceAll(code, []byte("\r"), []byte("\n"))
+
 	if bytes.HasSuffix(code, []byte("\n")) {
 		code = code[:len(code)-1]
 	}
-- 
2.43.0


From 7f4b358e2cf58a52b9d6b195f105723c2e462a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:32 +0000
Subject: [PATCH 57/78] fix: escape every backtick of the text before inline
 code

---
 internal/escape/elem_code.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/escape/elem_code.go b/internal/escape/elem_code.go
index 69ab117..eabfb84 100644
--- a/internal/escape/elem_code.go
+++ b/internal/escape/elem_code.go
@@ -17,6 +17,7 @@ func IsFencedCode(chars []byte, index int) int {
 	}
 
 	count := 1
+	hasDelimiter := false
 	i := index + 1
 	for ; i < len(chars); i++ {
 		if chars[i] == placeholderByte {
@@ -24,6 +25,10 @@ func IsFencedCode(chars []byte, index int) int {
 		}
 		if chars[i] == chars[index] {
 			count++
+			if chars[i-1] != placeholderByte {
+				// Not from the text, but from actual inline code.
+				hasDelimiter = true
+			}
 			continue
 		}
 
@@ -33,7 +38,7 @@ func IsFencedCode(chars []byte, index int) int {
 		return -1
 	}
 
-	if chars[index] == '`' && count > 3 {
+	if chars[index] == '`' && (count > 3 || hasDelimiter) {
 		// What remains after the escaped character could still be
 		// the start of inline code, so the others are also escaped.
 		return 1
-- 
2.43.0


From 9b44c8ff1e3109be5bb61939ce04010ae6104604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:25 +0000
Subject: [PATCH 58/78] fix: escape every backtick of the text if inline code
 could close it

---
 internal/escape/elem_code.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/internal/escape/elem_code.go b/internal/escape/elem_code.go
index eabfb84..24bd4b9 100644
--- a/internal/escape/elem_code.go
+++ b/internal/escape/elem_code.go
@@ -38,7 +38,7 @@ func IsFencedCode(chars []byte, index int) int {
 		return -1
 	}
 
-	if chars[index] == '`' && (count > 3 || hasDelimiter) {
+	if chars[index] == '`' && (count > 3 || hasDelimiter || couldBeInlineCode(chars[i:])) {
 		// What remains after the escaped character could still be
 		// the start of inline code, so the others are also escaped.
 		return 1
@@ -47,6 +47,34 @@ func IsFencedCode(chars []byte, index int) int {
 	return i - index
 }
 
+// couldBeInlineCode looks for an actual delimiter with two backticks in the
+// paragraph, which would close the two backticks that are not escaped.
+func couldBeInlineCode(chars []byte) bool {
+	const maxLookahead = 1000
+
+	count := 0
+	for i := 0; i < len(chars); i++ {
+		if i > maxLookahead {
+			// It is always okay to escape...
+			return true
+		}
+
+		if chars[i] == '`' {
+			count++
+			continue
+		}
+		if count == 2 {
+			return true
+		}
+		count = 0
+
+		if chars[i] == '\n' && i+1 < len(chars) && chars[i+1] == '\n' {
+			break
+		}
+	}
+	return count == 2
+}
+
 func IsInlineCode(chars []byte, index int) int {
 	if chars[index] != '`' {
 		return -1
-- 
2.43.0


From a537e78ccdbb984448a524ce8eb30453b9980332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:22 +0000
Subject: [PATCH 59/78] fix: take a row with a th for the header only if it is
 the first one

---
 plugin/table/1_select.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/table/1_select.go b/plugin/table/1_select.go
index 944b61b..15a888c 100644
--- a/plugin/table/1_select.go
+++ b/plugin/table/1_select.go
@@ -22,7 +22,11 @@ func selectHeaderRowNode(node *html.Node) *html.Node {
 	firstTh := dom.FindFirstNode(node, func(n *html.Node) bool {
 		return dom.NodeName(n) == "th"
 	})
-	if firstTh != nil {
+	firstCell := dom.FindFirstNode(node, func(n *html.Node) bool {
+		return dom.NodeName(n) == "th" || dom.NodeName(n) == "td"
+	})
+	// A "th" in one of the later rows is the header of *that* row.
+	if firstTh != nil && firstTh.Parent == firstCell.Parent {
 		// YEAH we found the "th"
 		return firstTh.Parent
 	}
-- 
2.43.0


From 2b1dd477416001c10a5eb5e1ffa5826a2acb3d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:23 +0000
Subject: [PATCH 60/78] fix: keep the rows of the tfoot at the end of the table

---
 plugin/table/1_select.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/plugin/table/1_select.go b/plugin/table/1_select.go
index 15a888c..21bd695 100644
--- a/plugin/table/1_select.go
+++ b/plugin/table/1_select.go
@@ -1,6 +1,8 @@
 package table
 
 import (
+	"slices"
+
 	"github.com/JohannesKaufmann/dom"
 	"golang.org/x/net/html"
 )
@@ -50,5 +52,17 @@ func selectNormalRowNodes(tableNode *html.Node, selectedHeaderRowNode *html.Node
 	}
 	finder(tableNode)
 
+	// The "tfoot" is at the end of the table, even if it comes first in the html.
+	slices.SortStableFunc(collected, func(a, b *html.Node) int {
+		return footerOrder(a) - footerOrder(b)
+	})
+
 	return collected
 }
+
+func footerOrder(rowNode *html.Node) int {
+	if dom.NodeName(rowNode.Parent) == "tfoot" {
+		return 1
+	}
+	return 0
+}
-- 
2.43.0


From e8dd0a8a0c6442759a017a3bd0f759ed9808a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:24 +0000
Subject: [PATCH 61/78] fix: the align attribute is not case-sensitive

---
 plugin/table/2_collect.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index 522b490..e70fe0b 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -2,6 +2,7 @@ package table
 
 import (
 	"bytes"
+	"strings"
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
@@ -161,7 +162,7 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 
 	var alignments []string
 	for _, cellNode := range cellNodes {
-		align := dom.GetAttributeOr(cellNode, "align", "")
+		align := strings.ToLower(dom.GetAttributeOr(cellNode, "align", ""))
 
 		// The alignment belongs to every column that is covered by the cell.
 		colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxColSpan)
-- 
2.43.0


From 5b6ef68c9062e7ae9dc549a57d7f38cc90485c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:43 +0000
Subject: [PATCH 62/78] fix: parse the span of a cell by the rules of html

---
 plugin/table/utils.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index 94d3aa2..2eef5bb 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -4,6 +4,7 @@ import (
 	"cmp"
 	"slices"
 	"strconv"
+	"strings"
 	"unicode/utf8"
 
 	"github.com/JohannesKaufmann/dom"
@@ -50,17 +51,31 @@ func getNumberAttributeOr(node *html.Node, key string, fallback int) int {
 	if !ok {
 		return fallback
 	}
-	num, err := strconv.Atoi(val)
-	if err != nil {
-		return fallback
-	}
-	if num < 1 {
+	num, ok := parseNumber(val)
+	if !ok || num < 1 {
 		return fallback
 	}
 
 	return num
 }
 
+// parseNumber follows the rules of html for non-negative integers:
+// Whitespace around the number and anything after it is ignored.
+func parseNumber(val string) (int, bool) {
+	val = strings.TrimLeft(val, " \t\n\f\r")
+	val = strings.TrimPrefix(val, "+")
+
+	end := strings.IndexFunc(val, func(r rune) bool {
+		return r < '0' || r > '9'
+	})
+	if end == -1 {
+		end = len(val)
+	}
+
+	num, err := strconv.Atoi(val[:end])
+	return num, err == nil
+}
+
 // position is the place of a cell in the grid of the table.
 type position struct {
 	y int
-- 
2.43.0


From 3416abc81df6418790930b4877fbc9758324376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:16 +0000
Subject: [PATCH 63/78] fix: limit the rows that a cell spans to its group of
 rows

---
 plugin/table/2_collect.go |  9 +++++----
 plugin/table/utils.go     | 42 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index e70fe0b..ac9ff35 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -173,7 +173,7 @@ func collectAlignments(headerRowNode *html.Node, rowNodes []*html.Node) []string
 
 	return alignments
 }
-func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node, occupied map[position]bool) ([][]byte, []modification) {
+func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, rowNode *html.Node, group rowGroup, occupied map[position]bool) ([][]byte, []modification) {
 	cellNodes := dom.FindAllNodes(rowNode, func(node *html.Node) bool {
 		name := dom.NodeName(node)
 		return name == "th" || name == "td"
@@ -199,7 +199,7 @@ func (p *tablePlugin) collectCellsInRow(ctx converter.Context, rowIndex int, row
 		cellContents = append(cellContents, content)
 
 		// - - col / row span - - //
-		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxRowSpan)
+		rowSpan := group.limitRowSpan(getRowSpan(cellNode))
 		colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxColSpan)
 
 		// The columns that are covered by previous cells are not available anymore.
@@ -245,10 +245,11 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 	rowContents := make([][][]byte, 0, len(rowNodes)+1)
 	groupedModifications := make([][]modification, 0)
 	occupied := make(map[position]bool)
+	groups := collectRowGroups(headerRowNode, rowNodes)
 
 	// - - 1. the header row - - //
 	if headerRowNode != nil {
-		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode, occupied)
+		cells, mods := p.collectCellsInRow(ctx, 0, headerRowNode, groups[headerRowNode], occupied)
 
 		rowContents = append(rowContents, cells)
 		groupedModifications = append(groupedModifications, mods)
@@ -260,7 +261,7 @@ func (p *tablePlugin) collectRows(ctx converter.Context, headerRowNode *html.Nod
 
 	// - - 2. the normal rows - - //
 	for index, rowNode := range rowNodes {
-		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode, occupied)
+		cells, mods := p.collectCellsInRow(ctx, index+1, rowNode, groups[rowNode], occupied)
 
 		rowContents = append(rowContents, cells)
 		groupedModifications = append(groupedModifications, mods)
diff --git a/plugin/table/utils.go b/plugin/table/utils.go
index 2eef5bb..1343c6e 100644
--- a/plugin/table/utils.go
+++ b/plugin/table/utils.go
@@ -76,6 +76,48 @@ func parseNumber(val string) (int, bool) {
 	return num, err == nil
 }
 
+// rowGroup describes how a row stands in its group of rows (e.g. the "thead").
+type rowGroup struct {
+	remainingRows int // the row itself and those that follow in the group
+	isLast        bool
+}
+
+func collectRowGroups(headerRowNode *html.Node, rowNodes []*html.Node) map[*html.Node]rowGroup {
+	if headerRowNode != nil {
+		rowNodes = slices.Insert(slices.Clone(rowNodes), 0, headerRowNode)
+	}
+
+	groups := make(map[*html.Node]rowGroup, len(rowNodes))
+	for i, rowNode := range slices.Backward(rowNodes) {
+		group := rowGroup{remainingRows: 1, isLast: i == len(rowNodes)-1}
+		if !group.isLast && rowNodes[i+1].Parent == rowNode.Parent {
+			group = groups[rowNodes[i+1]]
+			group.remainingRows++
+		}
+		groups[rowNode] = group
+	}
+	return groups
+}
+
+// getRowSpan returns zero if the cell extends until the end of its group.
+func getRowSpan(cellNode *html.Node) int {
+	if num, ok := parseNumber(dom.GetAttributeOr(cellNode, "rowspan", "")); ok && num == 0 {
+		return 0
+	}
+	return min(getNumberAttributeOr(cellNode, "rowspan", 1), maxRowSpan)
+}
+
+// limitRowSpan makes sure that a cell does not reach into the next group.
+func (g rowGroup) limitRowSpan(rowSpan int) int {
+	if rowSpan == 0 {
+		return min(g.remainingRows, maxRowSpan)
+	}
+	if g.isLast {
+		return rowSpan
+	}
+	return min(rowSpan, g.remainingRows)
+}
+
 // position is the place of a cell in the grid of the table.
 type position struct {
 	y int
-- 
2.43.0


From ec4273d50d13c2f341efae165fda1852e4efafb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:12 +0000
Subject: [PATCH 64/78] fix: keep the content of neighbouring cells apart if
 the table cannot be rendered

---
 plugin/table/table.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/plugin/table/table.go b/plugin/table/table.go
index 9d79617..7003543 100644
--- a/plugin/table/table.go
+++ b/plugin/table/table.go
@@ -188,11 +188,30 @@ func (s *tablePlugin) Init(conv *converter.Converter) error {
 
 	conv.Register.EscapedChar('|')
 
+	conv.Register.PreRenderer(s.handlePreRender, converter.PriorityStandard)
 	conv.Register.Renderer(s.handleRender, converter.PriorityStandard)
 
 	return nil
 }
 
+// handlePreRender separates cells that directly follow each other. Otherwise their
+// content would run together if we are not able to render the table.
+func (s *tablePlugin) handlePreRender(ctx converter.Context, doc *html.Node) {
+	cellNodes := dom.FindAllNodes(doc, isCell)
+
+	for _, cellNode := range cellNodes {
+		if isCell(cellNode.PrevSibling) {
+			space := &html.Node{Type: html.TextNode, Data: " "}
+			cellNode.Parent.InsertBefore(space, cellNode)
+		}
+	}
+}
+
+func isCell(node *html.Node) bool {
+	name := dom.NodeName(node)
+	return name == "th" || name == "td"
+}
+
 func (s *tablePlugin) handleRender(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
 	name := dom.NodeName(n)
 	switch name {
-- 
2.43.0


From 74281cf2cf1e4fc8da2d20528467d9e1ed512468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:45 +0000
Subject: [PATCH 65/78] fix: do not put a code block into a table cell

---
 plugin/table/2_collect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/table/2_collect.go b/plugin/table/2_collect.go
index ac9ff35..d08c9ba 100644
--- a/plugin/table/2_collect.go
+++ b/plugin/table/2_collect.go
@@ -42,6 +42,9 @@ func hasProblematicChildNode(node *html.Node) bool {
 			return true
 		case "hr", "ul", "ol", "blockquote":
 			return true
+		case "pre":
+			// The lines of a code block cannot be preserved inside a cell.
+			return true
 		}
 
 		return false
-- 
2.43.0


From cb450455006bfd9d281968a190661296fab021b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:08 +0000
Subject: [PATCH 66/78] fix: give every input its own output file even if a
 file is named like a hashed duplicate

---
 cli/html2markdown/cmd/io_output.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cli/html2markdown/cmd/io_output.go b/cli/html2markdown/cmd/io_output.go
index 99afe2a..dc76867 100644
--- a/cli/html2markdown/cmd/io_output.go
+++ b/cli/html2markdown/cmd/io_output.go
@@ -85,16 +85,15 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 		filepath.ToSlash(filepath.Clean(inputFilepath)),
 	)
 
-	allBasenames := make(map[string]int)
+	allFilepaths := make(map[string]bool)
 	for _, input := range inputs {
 		basenameWithExt := filepath.Base(input.inputFullFilepath)
 		basename := fileNameWithoutExtension(basenameWithExt)
 
-		val := allBasenames[basename]
-		if val == 0 {
-			// -> The standard filename
-			input.outputFullFilepath = basename + ".md"
-		} else {
+		// -> The standard filename
+		input.outputFullFilepath = basename + ".md"
+
+		if allFilepaths[input.outputFullFilepath] {
 			relativePath, err := filepath.Rel(globBase, input.inputFullFilepath)
 			if err != nil {
 				return err
@@ -107,9 +106,15 @@ func calculateOutputPaths(inputFilepath string, inputs []*input) error {
 
 			// -> The filename for duplicates
 			input.outputFullFilepath = basename + "." + hash[:10] + ".md"
+
+			// Another file could already be called exactly like that, so use
+			// as much of the hash as is needed to have a unique filename.
+			for i := 11; allFilepaths[input.outputFullFilepath] && i <= len(hash); i++ {
+				input.outputFullFilepath = basename + "." + hash[:i] + ".md"
+			}
 		}
 
-		allBasenames[basename]++
+		allFilepaths[input.outputFullFilepath] = true
 	}
 
 	return nil
-- 
2.43.0


From 132dd66dd3eb25e85e986b9efb6d69675f449c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:09 +0000
Subject: [PATCH 67/78] fix: read all the inputs before an output file can
 replace one of them

---
 cli/html2markdown/cmd/exec.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/html2markdown/cmd/exec.go b/cli/html2markdown/cmd/exec.go
index 785207a..25485f9 100644
--- a/cli/html2markdown/cmd/exec.go
+++ b/cli/html2markdown/cmd/exec.go
@@ -169,6 +169,9 @@ func (cli *CLI) run() ([]error, error) {
 		return nil, err
 	}
 
+	// An output file can also be one of the inputs. So only
+	// start writing once all the inputs have been read.
+	markdowns := make([][]byte, 0, len(inputs))
 	for _, input := range inputs {
 		data, err := cli.readInput(input)
 		if err != nil {
@@ -180,7 +183,11 @@ func (cli *CLI) run() ([]error, error) {
 			return nil, err
 		}
 
-		err = cli.writeOutput(outputType, input.outputFullFilepath, markdown)
+		markdowns = append(markdowns, markdown)
+	}
+
+	for i, input := range inputs {
+		err = cli.writeOutput(outputType, input.outputFullFilepath, markdowns[i])
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 38112d65d9c59ac841a8b71dabe1e8d3ce597698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:57 +0000
Subject: [PATCH 68/78] fix: find all the excluded nodes before removing them

---
 cli/html2markdown/cmd/cmd_convert.go | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index c9f0583..bff8e3a 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -65,21 +65,11 @@ func (cli *CLI) excludeNodesFromDoc(doc *html.Node) error {
 		return nil
 	}
 
-	var finder func(node *html.Node)
-	finder = func(node *html.Node) {
-		if cli.config.excludeSelector.Match(node) {
-			dom.RemoveNode(node)
-			return
-		}
-
-		for child := node.FirstChild; child != nil; child = child.NextSibling {
-			// Because we are sometimes removing a node, this causes problems
-			// with the for loop. Using `defer` is a cool trick!
-			// https://gist.github.com/loopthrough/17da0f416054401fec355d338727c46e
-			defer finder(child)
-		}
+	// First find all the nodes and only then remove them. Otherwise removing one
+	// node changes what the selector (e.g. ":last-child") matches afterwards.
+	for _, n := range cascadia.QueryAll(doc, cli.config.excludeSelector) {
+		dom.RemoveNode(n)
 	}
-	finder(doc)
 
 	return nil
 }
-- 
2.43.0


From 452713ea1781d82e707003c971ec548f5f4e7bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 69/78] fix: escape text that would be the delimiter row of a
 table

---
 plugin/table/table.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/plugin/table/table.go b/plugin/table/table.go
index 7003543..8f5e7d7 100644
--- a/plugin/table/table.go
+++ b/plugin/table/table.go
@@ -1,11 +1,14 @@
 package table
 
 import (
+	"bytes"
 	"fmt"
+	"regexp"
 	"sync"
 
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
+	"github.com/JohannesKaufmann/html-to-markdown/v2/marker"
 	"golang.org/x/net/html"
 )
 
@@ -186,7 +189,8 @@ func (s *tablePlugin) Init(conv *converter.Converter) error {
 		return err
 	}
 
-	conv.Register.EscapedChar('|')
+	conv.Register.EscapedChar('|', ':')
+	conv.Register.UnEscaper(isDelimiterRow, converter.PriorityStandard)
 
 	conv.Register.PreRenderer(s.handlePreRender, converter.PriorityStandard)
 	conv.Register.Renderer(s.handleRender, converter.PriorityStandard)
@@ -207,6 +211,33 @@ func (s *tablePlugin) handlePreRender(ctx converter.Context, doc *html.Node) {
 	}
 }
 
+var delimiterRowRegex = regexp.MustCompile(`^\|?[ \t]*:?-+:?[ \t]*(\|[ \t]*:?-+:?[ \t]*)*\|?[ \t]*$`)
+
+// isDelimiterRow checks for text that would be recognized as the delimiter row
+// of a table. A row that starts with "-" is already escaped by commonmark.
+func isDelimiterRow(chars []byte, index int) int {
+	if chars[index] != '|' && chars[index] != ':' {
+		return -1
+	}
+
+	for i := index - 1; i >= 0 && chars[i] != '\n'; i-- {
+		if chars[i] != ' ' && chars[i] != marker.BytesMarkerEscaping[0] {
+			// It is not at the start of the line.
+			return -1
+		}
+	}
+
+	line := chars[index:]
+	if lineEnd := bytes.IndexByte(line, '\n'); lineEnd != -1 {
+		line = line[:lineEnd]
+	}
+	line = bytes.ReplaceAll(line, marker.BytesMarkerEscaping, nil)
+	if !delimiterRowRegex.Match(line) {
+		return -1
+	}
+	return 1
+}
+
 func isCell(node *html.Node) bool {
 	name := dom.NodeName(node)
 	return name == "th" || name == "td"
-- 
2.43.0


From 6cff9e4c5f5946232892f2d32e524b2b172c0ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 70/78] fix: keep the newlines and blanks of elements that are
 rendered as html

---
 plugin/base/renderers.go | 54 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/plugin/base/renderers.go b/plugin/base/renderers.go
index 74b77ce..d51ed09 100644
--- a/plugin/base/renderers.go
+++ b/plugin/base/renderers.go
@@ -1,6 +1,8 @@
 package base
 
 import (
+	"bytes"
+
 	"github.com/JohannesKaufmann/dom"
 	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
 	"golang.org/x/net/html"
@@ -19,7 +21,15 @@ func RenderAsHTML(ctx converter.Context, w converter.Writer, node *html.Node) co
 	if tagType == converter.TagTypeBlock {
 		w.WriteString("\n\n")
 	}
-	_ = html.Render(w, node) // TODO: what to do with error?
+
+	var buf bytes.Buffer
+	_ = html.Render(&buf, node) // TODO: what to do with error?
+	if containsRawText(node) {
+		w.Write(buf.Bytes())
+	} else {
+		w.Write(encodeWhitespace(buf.Bytes(), tagType == converter.TagTypeBlock))
+	}
+
 	if tagType == converter.TagTypeBlock {
 		w.WriteString("\n\n")
 	}
@@ -27,6 +37,48 @@ func RenderAsHTML(ctx converter.Context, w converter.Writer, node *html.Node) co
 	return converter.RenderSuccess
 }
 
+// containsRawText is true if the node has content where
+// html entities have no meaning.
+func containsRawText(node *html.Node) bool {
+	return dom.FindFirstNode(node, func(node *html.Node) bool {
+		switch dom.NodeName(node) {
+		case "iframe", "noembed", "noframes", "noscript", "plaintext", "script", "style", "xmp":
+			return true
+		}
+		return false
+	}) != nil
+}
+
+// encodeWhitespace uses html entities for the whitespace (e.g. inside of an
+// attribute or inside of "pre") that would not survive inside of markdown:
+//   - For a block an empty line (which is the end of the html).
+//   - For an inline node every newline and every further space.
+func encodeWhitespace(content []byte, isBlock bool) []byte {
+	var buf bytes.Buffer
+
+	isBlankLine := false
+	for i, char := range content {
+		afterSpace := i > 0 && content[i-1] == ' '
+
+		switch {
+		case char == '\n' && (isBlankLine || !isBlock):
+			buf.WriteString("&#10;")
+		case char == ' ' && afterSpace && !isBlock:
+			buf.WriteString("&#32;")
+		default:
+			buf.WriteByte(char)
+		}
+
+		if char == '\n' {
+			isBlankLine = true
+		} else if char != ' ' && char != '\t' {
+			isBlankLine = false
+		}
+	}
+
+	return buf.Bytes()
+}
+
 // RenderAsHTMLWrapper will render the node as HTML
 // and render the children as markdown.
 func RenderAsHTMLWrapper(ctx converter.Context, w converter.Writer, node *html.Node) converter.RenderStatus {
-- 
2.43.0


From cd04bac4031f591aec36dddcd0bc58ace8134a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:43 +0000
Subject: [PATCH 71/78] fix: separate the html tags around a block from the
 surrounding markdown

---
 plugin/base/renderers.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plugin/base/renderers.go b/plugin/base/renderers.go
index d51ed09..4d2a8d6 100644
--- a/plugin/base/renderers.go
+++ b/plugin/base/renderers.go
@@ -83,7 +83,11 @@ func encodeWhitespace(content []byte, isBlock bool) []byte {
 // and render the children as markdown.
 func RenderAsHTMLWrapper(ctx converter.Context, w converter.Writer, node *html.Node) converter.RenderStatus {
 	name := dom.NodeName(node)
+	tagType, _ := ctx.GetTagType(name)
 
+	if tagType == converter.TagTypeBlock {
+		w.WriteString("\n\n")
+	}
 	w.WriteString("<")
 	w.WriteString(name)
 	// TODO: also render the attributes?
@@ -94,6 +98,10 @@ func RenderAsHTMLWrapper(ctx converter.Context, w converter.Writer, node *html.N
 	w.WriteString("\n\n</")
 	w.WriteString(name)
 	w.WriteString(">")
+	if tagType == converter.TagTypeBlock {
+		w.WriteString("\n\n")
+	}
+
 	return converter.RenderSuccess
 }
 
-- 
2.43.0


From ddc63a603a3f4ea31d9f6722124ed4e5bd8d794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:13 +0000
Subject: [PATCH 72/78] fix: convert a node that is part of a larger tree on
 its own

---
 converter/convert.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/converter/convert.go b/converter/convert.go
index 09f05e6..4afd1dc 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -100,6 +100,14 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 
 	// - - - - - - - - - - - - - - - - - - - //
 
+	// The node could be part of a larger tree. What is around it
+	// does not belong to the content that should be converted.
+	parent, prevSibling, nextSibling := doc.Parent, doc.PrevSibling, doc.NextSibling
+	doc.Parent, doc.PrevSibling, doc.NextSibling = nil, nil, nil
+	defer func() {
+		doc.Parent, doc.PrevSibling, doc.NextSibling = parent, prevSibling, nextSibling
+	}()
+
 	// Pre-Render
 	for _, handler := range conv.getPreRenderHandlers() {
 		handler.Value(customCtx, doc)
-- 
2.43.0


From 00333032991acf4b111ae82dd3725c32ca1d771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:17 +0000
Subject: [PATCH 73/78] fix: find the excluded nodes before moving the included
 ones

---
 cli/html2markdown/cmd/cmd_convert.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/cli/html2markdown/cmd/cmd_convert.go b/cli/html2markdown/cmd/cmd_convert.go
index bff8e3a..2f09473 100644
--- a/cli/html2markdown/cmd/cmd_convert.go
+++ b/cli/html2markdown/cmd/cmd_convert.go
@@ -60,18 +60,11 @@ func (cli *CLI) includeNodesFromDoc(doc *html.Node) (*html.Node, error) {
 
 	return root, nil
 }
-func (cli *CLI) excludeNodesFromDoc(doc *html.Node) error {
+func (cli *CLI) findExcludedNodes(doc *html.Node) []*html.Node {
 	if len(cli.config.excludeSelector) == 0 {
 		return nil
 	}
-
-	// First find all the nodes and only then remove them. Otherwise removing one
-	// node changes what the selector (e.g. ":last-child") matches afterwards.
-	for _, n := range cascadia.QueryAll(doc, cli.config.excludeSelector) {
-		dom.RemoveNode(n)
-	}
-
-	return nil
+	return cascadia.QueryAll(doc, cli.config.excludeSelector)
 }
 func (cli *CLI) parseInputWithSelectors(input []byte) (*html.Node, error) {
 	r := bytes.NewReader(input)
@@ -81,14 +74,17 @@ func (cli *CLI) parseInputWithSelectors(input []byte) (*html.Node, error) {
 		return nil, fmt.Errorf("error while parsing html: %w", err)
 	}
 
+	// First find all the nodes and only then remove them. Otherwise moving or removing
+	// one node changes what the selector (e.g. ":last-child") matches afterwards.
+	excludedNodes := cli.findExcludedNodes(doc)
+
 	doc, err = cli.includeNodesFromDoc(doc)
 	if err != nil {
 		return nil, err
 	}
 
-	err = cli.excludeNodesFromDoc(doc)
-	if err != nil {
-		return nil, err
+	for _, n := range excludedNodes {
+		dom.RemoveNode(n)
 	}
 
 	return doc, nil
-- 
2.43.0


From e65de36e7ab2a444b38d2b5b126e669f990d4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:34 +0000
Subject: [PATCH 74/78] fix: read the start number of a list like a browser
 does

---
 plugin/commonmark/render_list.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/plugin/commonmark/render_list.go b/plugin/commonmark/render_list.go
index 5a57979..a3ef5a8 100644
--- a/plugin/commonmark/render_list.go
+++ b/plugin/commonmark/render_list.go
@@ -18,7 +18,7 @@ import (
 const maxListNumber = 999_999_999
 
 func getStartAt(node *html.Node) int {
-	startVal := dom.GetAttributeOr(node, "start", "1")
+	startVal := leadingInteger(dom.GetAttributeOr(node, "start", "1"))
 	startAt, err := strconv.Atoi(startVal)
 	if err != nil {
 		startAt = 1
@@ -27,6 +27,22 @@ func getStartAt(node *html.Node) int {
 	return startAt
 }
 
+// leadingInteger returns the part of an attribute that a browser reads
+// as the number: white space before it and anything after it is ignored.
+func leadingInteger(val string) string {
+	val = strings.TrimLeft(val, " \t\n\f\r")
+
+	end := 0
+	if strings.HasPrefix(val, "-") || strings.HasPrefix(val, "+") {
+		end = 1
+	}
+	for end < len(val) && val[end] >= '0' && val[end] <= '9' {
+		end++
+	}
+
+	return val[:end]
+}
+
 func (c commonmark) getPrefixFunc(n *html.Node, sliceLength int) func(int) string {
 	startAt := getStartAt(n)
 	if startAt < 0 || startAt+sliceLength-1 > maxListNumber {
-- 
2.43.0


From fd76c9d41e33ca2ea6806ec2eee14ca26bfb0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:31 +0000
Subject: [PATCH 75/78] fix: do not hold the lock of the converter while
 running the options

An option that panics (e.g. nil) would leave the converter locked, so that
every later conversion or registration blocks forever.
---
 converter/convert.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/converter/convert.go b/converter/convert.go
index 4afd1dc..104bc19 100644
--- a/converter/convert.go
+++ b/converter/convert.go
@@ -63,12 +63,10 @@ func (conv *Converter) ConvertNode(doc *html.Node, opts ...ConvertOptionFunc) ([
 		return nil, err
 	}
 
-	conv.m.Lock()
 	option := &convertOption{}
 	for _, fn := range opts {
 		fn(option)
 	}
-	conv.m.Unlock()
 
 	// If there are no render handlers registered this is
 	// usually a user error - since people want the Commonmark Plugin in 99% of cases.
-- 
2.43.0


From 8a2030fea27aac60b8cca9fed2aa62cfb8024b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:39 +0000
Subject: [PATCH 76/78] fix: merge many adjacent text nodes in linear time

---
 internal/domutils/adjacent.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/internal/domutils/adjacent.go b/internal/domutils/adjacent.go
index 8cec92d..90e79c3 100644
--- a/internal/domutils/adjacent.go
+++ b/internal/domutils/adjacent.go
@@ -1,6 +1,8 @@
 package domutils
 
 import (
+	"strings"
+
 	"github.com/JohannesKaufmann/dom"
 	"golang.org/x/net/html"
 )
@@ -75,17 +77,19 @@ func MergeAdjacentTextNodes(n *html.Node) {
 		return
 	}
 
-	var prev *html.Node
-	for c := n.FirstChild; c != nil; {
-		next := c.NextSibling
-		if c.Type == html.TextNode && prev != nil && prev.Type == html.TextNode {
-			// Combine adjacent text nodes
-			prev.Data += c.Data
-			n.RemoveChild(c)
-		} else {
+	for c := n.FirstChild; c != nil; c = c.NextSibling {
+		if c.Type != html.TextNode {
 			MergeAdjacentTextNodes(c)
-			prev = c
+			continue
+		}
+
+		// Combine adjacent text nodes
+		var data strings.Builder
+		data.WriteString(c.Data)
+		for next := c.NextSibling; next != nil && next.Type == html.TextNode; next = c.NextSibling {
+			data.WriteString(next.Data)
+			n.RemoveChild(next)
 		}
-		c = next
+		c.Data = data.String()
 	}
 }
-- 
2.43.0


From 9482b6de63db3768ab02002b08251cd6e397da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:30 +0000
Subject: [PATCH 77/78] fix: keep a language that starts with the fence
 character apart from the fence

---
 plugin/commonmark/render_code.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index 3fd9fa4..e58f3a5 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -87,6 +87,10 @@ func (c *commonmark) renderBlockCode(_ converter.Context, w converter.Writer, n
 
 	w.WriteString("\n\n")
 	w.WriteString(fence)
+	if strings.HasPrefix(infoString, string(fenceChar)) {
+		// Otherwise it would be part of the fence.
+		w.WriteRune(' ')
+	}
 	w.WriteString(infoString)
 	w.WriteRune('\n')
 	w.Write(code)
-- 
2.43.0


From 4468d462c48b066f0e4ccfe6657f1c349504460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:01 +0000
Subject: [PATCH 78/78] fix: escape what looks like a html entity in the
 language of a code block

---
 plugin/commonmark/render_code.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugin/commonmark/render_code.go b/plugin/commonmark/render_code.go
index e58f3a5..272a42f 100644
--- a/plugin/commonmark/render_code.go
+++ b/plugin/commonmark/render_code.go
@@ -122,8 +122,8 @@ func getCodeLanguage(n *html.Node) string {
 
 		// The info string may not contain a backtick, the fence would not be recognized.
 		part = strings.ReplaceAll(part, "`", "")
-		// The info string can contain backslash escapes.
-		return strings.ReplaceAll(part, `\`, `\\`)
+		// The info string can contain backslash escapes and html entities.
+		return escapeEntitiesInURL(strings.ReplaceAll(part, `\`, `\\`))
 	}
 
 	return ""
-- 
2.43.0


package props

import (
	"fmt"
	"regexp"
	"slices"
	"strings"

	"vmc/eng"

	"github.com/JohannesKaufmann/dom"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// keepConf registers a prebuilt renderer (h: as HTML, w: Markdown inside HTML
// tags, p: plain, r: remove) for elements of one type (i, b).
type keepConf struct {
	How, Type string
	Names     string
}

func (k keepConf) conv() *converter.Converter {
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin()))
	t := converter.TagTypeInline
	if k.Type == "b" {
		t = converter.TagTypeBlock
	}
	for _, n := range strings.Fields(k.Names) {
		switch k.How {
		case "h":
			c.Register.RendererFor(n, t, base.RenderAsHTML, converter.PriorityEarly)
		case "u":
			// Without saying what type it is.
			c.Register.Renderer(func(ctx converter.Context, w converter.Writer, e *html.Node) converter.RenderStatus {
				if e.Data == n {
					return base.RenderAsHTML(ctx, w, e)
				}
				return converter.RenderTryNext
			}, converter.PriorityEarly)
		case "w":
			c.Register.RendererFor(n, t, base.RenderAsHTMLWrapper, converter.PriorityEarly)
		case "p":
			c.Register.RendererFor(n, t, base.RenderAsPlaintextWrapper, converter.PriorityEarly)
		case "r":
			c.Register.TagType(n, converter.TagTypeRemove, converter.PriorityEarly)
		}
	}
	return c
}

// htmlTree describes a fragment: elements, attributes and text, with
// whitespace collapsed where it is not significant.
func htmlTree(s string) string {
	l, err := html.ParseFragment(strings.NewReader(s), &html.Node{Type: html.ElementNode, Data: "div", DataAtom: atom.Div})
	if err != nil {
		return "error: " + err.Error()
	}
	var b strings.Builder
	var rec func(n *html.Node, pre bool)
	rec = func(n *html.Node, pre bool) {
		switch n.Type {
		case html.TextNode:
			t := n.Data
			if pre {
				t = strings.NewReplacer(" ", "␠", "\n", "␊", "\t", "␉").Replace(t)
			}
			b.WriteString(t)
		case html.ElementNode:
			edge := ""
			if dom.NameIsBlockNode(n.Data) || n.Data == "x-b" {
				edge = "\x02"
			}
			b.WriteString(edge + "\x01" + n.Data)
			for _, a := range n.Attr {
				b.WriteString(fmt.Sprintf("[%s:%s=%q]", a.Namespace, a.Key, strings.ReplaceAll(a.Val, " ", "␠")))
			}
			b.WriteString("\x03" + edge)
			pre = pre || n.Data == "pre"
			for c := n.FirstChild; c != nil; c = c.NextSibling {
				rec(c, pre)
			}
			b.WriteString(edge + "\x01/\x03" + edge)
		}
	}
	for _, n := range l {
		rec(n, false)
	}
	t := spaceRun.ReplaceAllString(b.String(), " ")
	return strings.ReplaceAll(blockEdge.ReplaceAllString(t, "\x02"), "\x02", "")
}

var (
	blockEdge = regexp.MustCompile(" ?\x02 ?")
	spaceRun  = regexp.MustCompile("[ \t\n\r\f]+")
	container = regexp.MustCompile(`^(?:> ?|- |\d+\. | +)*`)
	escaped   = regexp.MustCompile("\\\\([!-/:-@\\[-`{-~])")
	wordOnly  = regexp.MustCompile(`^(<[^<>]*>)+[a-z]*(<[^<>]*>)+$`)
	notQuote  = regexp.MustCompile(`[^>]`)
)

var tagRe = regexp.MustCompile(`<[^>]*>`)

func noTags(s string) string { return tagRe.ReplaceAllString(s, "") }

// fill replaces every q of the document by the (perhaps multi-line) text,
// which gets the prefix of the containers it stands in.
func fill(doc, q, text string) string {
	lines := strings.Split(doc, "\n")
	for i, l := range lines {
		if !strings.Contains(l, q) {
			continue
		}
		pre := notQuote.ReplaceAllString(container.FindString(l), " ")
		lines[i] = strings.ReplaceAll(l, q, strings.ReplaceAll(text, "\n", "\n"+pre))
	}
	return strings.Join(lines, "\n")
}

// unescape removes the backslashes: which of them are needed depends on the
// neighbours, and is a property of its own (C01).
func unescape(s string) string { return escaped.ReplaceAllString(s, "$1") }

// noListEnd removes the comments between lists: whether one is needed next to
// a tag is a question of its own (C04), and in kept HTML they say nothing.
func noListEnd(s string) string {
	const comment = "<!--THE END-->"
	if !strings.Contains(s, comment) {
		return s
	}
	var out []string
	lines := strings.Split(s, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.TrimLeft(l, " >") == comment {
			// And the empty line before it, or the one after it.
			pre := strings.TrimRight(strings.ReplaceAll(l, comment, ""), " ")
			if n := len(out); n > 0 && strings.TrimRight(out[n-1], " ") == pre {
				out = out[:n-1]
			} else if i+1 < len(lines) && strings.TrimRight(lines[i+1], " ") == pre {
				i++
			}
			continue
		}
		out = append(out, strings.ReplaceAll(l, comment, ""))
	}
	return strings.TrimSpace(strings.Join(out, "\n"))
}

var manyLines = regexp.MustCompile(`\n{3,}`)

// nested: lists hold items only, paragraphs, headings and formatting no blocks,
// no element another one of its kind where that means nothing.
func nested(block bool) func([]string, string) bool {
	return func(stack []string, tok string) bool {
		if tok == "</>" {
			return true
		}
		if n := len(stack); n > 0 {
			switch stack[n-1] {
			case "ul", "ol", "table", "tr":
				return phrasing(stack, tok)
			}
		}
		for _, s := range stack {
			switch s {
			case "p", "h2", "b", "em", "a", "del", "u", "i":
				if !phrasing([]string{"b"}, tok) || tok == "<pre>b</pre>" || tok == "@" && block {
					return false
				}
				if strings.HasPrefix(tok, "<"+s+">") || strings.HasPrefix(tok, "<"+s+" ") {
					return false
				}
			}
		}
		return tok != "<li>" && tok != "<tr>" && tok != "<td>"
	}
}

// keepJudge: state = position with @ for the element, element. The position is
// converted with an ordinary word or paragraph in place of the element too.
func keepJudge(k keepConf) func() eng.Judge {
	return func() eng.Judge {
		c, plain := k.conv(), keepConf{}.conv()
		gm := gmFor(Conf{Strike: true})
		alone := map[string]string{}
		conv := func(c *converter.Converter, in string) string {
			md, err := convert(c, in)
			if err != nil {
				return "error: " + err.Error()
			}
			return md
		}
		return func(state string) *eng.Fail {
			pos, el, _ := strings.Cut(state, sep)
			if k.How == "p" || k.How == "r" {
				n := map[string]string{"i": "x-y", "b": "div"}[k.Type]
				in := strings.ReplaceAll(pos, "@", el)
				ref := strings.NewReplacer("<"+k.Names+">", "<"+n+">", "</"+k.Names+">", "</"+n+">").Replace(in)
				if slices.Contains(W("img br hr input wbr"), k.Names) {
					ref = strings.ReplaceAll(pos, "@", "<"+n+"></"+n+">")
				}
				if k.How == "r" {
					ref = strings.ReplaceAll(pos, "@", "")
				}
				exp, got := conv(plain, ref), conv(c, in)
				if exp != got {
					return &eng.Fail{What: "not as with a neutral element or without the removed one", Expected: exp, Got: got}
				}
				return nil
			}
			if k.How == "w" {
				got := conv(c, strings.ReplaceAll(pos, "@", "<"+k.Names+">"+el+"</"+k.Names+">"))
				var exp string
				if k.Type == "b" {
					exp = conv(plain, strings.ReplaceAll(pos, "@", "<p>Qx7</p>"+el+"<p>Qx8</p>"))
				} else {
					exp = conv(plain, strings.ReplaceAll(pos, "@", "Qx7</p><p>"+el+"</p><p>Qx8"))
				}
				exp = strings.NewReplacer("Qx7", "<"+k.Names+">", "Qx8", "</"+k.Names+">").Replace(exp)
				if exp, got = manyLines.ReplaceAllString(noListEnd(exp), "\n\n"), manyLines.ReplaceAllString(noListEnd(got), "\n\n"); exp != got {
					if k.Type == "i" && noTags(el) == "" && strings.ReplaceAll(exp, " ", "") == strings.ReplaceAll(got, " ", "") {
						return nil // Nothing that separates the blanks around it.
					}
					return &eng.Fail{What: "Markdown inside HTML tags", Expected: exp, Got: got}
				}
				return nil
			}
			kept, ok := alone[el]
			if !ok {
				kept = conv(c, el)
				if exp, got := htmlTree(el), htmlTree(kept); exp != got {
					return &eng.Fail{What: "the kept HTML is not the element", Expected: exp, Got: got, Output: kept}
				}
				if len(alone) > 10000 {
					clear(alone)
				}
				alone[el] = kept
			}
			in := strings.ReplaceAll(pos, "@", el)
			ref := strings.ReplaceAll(pos, "@", map[string]string{"i": "Qx7", "b": "<p>Qx7</p>"}[k.Type])
			exp, got := noListEnd(fill(conv(plain, ref), "Qx7", kept)), noListEnd(conv(c, in))
			if k.Type == "i" && strings.Contains(el, "></") {
				// An element without content takes no room, it does not
				// separate the blanks around it.
				exp, got = strings.ReplaceAll(exp, " ", ""), strings.ReplaceAll(got, " ", "")
			}
			if unescape(exp) != unescape(got) {
				return &eng.Fail{What: "the Markdown around the kept HTML", Expected: exp, Got: got}
			}
			if k.Type == "i" && wordOnly.MatchString(el) {
				// With nothing but a word in it, the element also survives
				// the way through a Markdown renderer.
				if exp, got := htmlTree(el), htmlTree(render(gm, conv(c, in))); !strings.Contains(got, exp) {
					return &eng.Fail{What: "the rendered Markdown lacks the kept HTML", Expected: exp, Got: got}
				}
			}
			return nil
		}
	}
}

// product of positions and elements.
func product(pos, els func(func(string) bool)) func(func(string) bool) {
	return func(emit func(string) bool) {
		pos(func(p string) bool {
			more := true
			if !strings.Contains(p, "@") {
				return true
			}
			els(func(e string) bool {
				// There are no links inside of links, and where the comment
				// for an empty list stands is left open.
				if c := p + e; strings.Contains(c, "<ul></ul>") || strings.Contains(c, "<ol></ol>") {
					return true
				}
				if !strings.Contains(p, "<a ") || !strings.Contains(e, "<a ") {
					more = emit(p + sep + e)
				}
				return more
			})
			return more
		})
	}
}

func init() {
	inlPos := W(`a ␠ * 1. @ <p> <b> <em> <a␠href="/u"> <del> <h2> <ul> <li> <blockquote> <br> </>`)
	blkPos := W(`a * @ <p> <div> <ul> <ol> <li> <h2> <blockquote> <hr> <pre>b</pre> <x-y> </>`)
	somePos := []string{"@", "x@y", "<p>x @ y</p>", "<ul><li>a</li><li>@</li></ul>", "<blockquote><p>a</p>@b</blockquote>", "<ol><li>a<blockquote>x@</blockquote></li></ol>", "<div>@@</div>"}
	inlPos2 := append([]string{"<p><b>@</b></p>", "<h2>a@</h2>", `<a href="/u">@</a>`, "<p>*@*</p>", "<p>a<br>@</p>"}, somePos...)
	for i := range somePos {
		somePos[i] = strings.NewReplacer("<p>x", "<div>x", "y</p>", "y</div>").Replace(somePos[i])
	}
	attrs := W(`a ' < > & * _ | \ [ ␠ &quot; &amp;lt; é`)
	lines := []string{"a", " ", "\\", "\n", "\t"}
	text := W("a * _ &lt; &gt; &amp; &amp;lt; ` [ ] \\ | # - + 1. ! ~ \" &nbsp; <br> <img␠src=\"/i\"> <mark> <a␠href=\"/u?a=b&amp;c\"> <u␠id=\"x\"> <!--c--> </>")
	blk := W(`a a␠b * <p> <div> <ul> <li> <h2> <hr> <blockquote> <table> <tr> <td> <mark> <br> <dl> <dt> </>`)
	pre := []string{"a", " ", "\n", "\t", "*", "&lt;", "<u>", "</>"}
	md := W("a * 1. <p> <b> <ul> <li> <ol> <h2> <hr> <blockquote> <br> <pre>b</pre> <a␠href=\"/u\"> <div> </>")
	eng.Register(&eng.Check{
		ID:   "C26",
		Rule: "a kept element is HTML that parses back to it; around it the Markdown is that of a word (inline) or a paragraph (block) in its place; Markdown inside HTML tags, plain and removed elements agree with the same document written without them",
		Spaces: func(t eng.Tier) []eng.Space {
			// pos and el enumerate the positions and the elements.
			var l []eng.Space
			add := func(k keepConf, name string, pos, el []string, np, ne int, wp, we []string) {
				bp, be := fmt.Sprintf("%q", wp), fmt.Sprintf("%q", we)
				if np > 0 {
					bp = boundTree(pos, np, wp)
				}
				if ne > 0 {
					be = boundTree(el, ne, we)
				}
				ep, ee := list(wp), list(we)
				if np > 0 {
					ep = Trees(pos, np, wp, nested(k.Type == "b"))
				}
				if ne > 0 {
					ee = Trees(el, ne, we, nested(false))
				}
				l = append(l, eng.Space{Name: k.How + k.Type + "-" + name, Bound: fmt.Sprintf("%+v: elements: %s; positions: %s", k, be, bp),
					Enum: product(ep, ee), NewJudge: keepJudge(k)})
			}
			hi, hb := keepConf{"h", "i", "x-i"}, keepConf{"h", "b", "x-b"}
			elsI := []string{"<x-i></x-i>", `<x-i a="*">b</x-i>`, "<x-i>*<u>c</u></x-i>"}
			elsB := []string{"<x-b></x-b>", `<x-b a="*">b</x-b>`, "<x-b><p>a</p><ul><li>*</li></ul></x-b>", "<x-b>\n<pre>a\nb</pre></x-b>"}
			at := []string{"@"}
			add(hi, "positions", inlPos, nil, t.N(4, 5), 0, at, elsI)
			add(keepConf{"u", "i", "x-i"}, "positions", inlPos, nil, t.N(3, 4), 0, at, elsI)
			add(keepConf{"u", "i", "x-i"}, "places", nil, nil, 0, 0, inlPos2, elsI)
			add(hb, "positions", blkPos, nil, t.N(4, 5), 0, at, elsB)
			add(hi, "attributes", nil, attrs, 0, t.N(3, 4), inlPos2, []string{`<x-i b="" a="@">c</x-i>`})
			add(hb, "attributes", nil, attrs, 0, t.N(3, 4), somePos, []string{`<x-b b="" a="@">c</x-b>`, `<x-b><i a="@">c</i></x-b>`})
			add(hi, "many", nil, nil, 0, 0, inlPos2[5:8], manyEls("x-i", t.N(70, 300)))
			add(hb, "many", nil, nil, 0, 0, somePos[:4], manyEls("x-b", t.N(70, 300)))
			add(hi, "attribute-lines", nil, lines, 0, t.N(5, 6), inlPos2, []string{`<x-i a="@">c</x-i>`})
			add(hb, "attribute-lines", nil, lines, 0, t.N(5, 6), somePos, []string{`<x-b a="@">c</x-b>`})
			add(hi, "content", nil, text, 0, t.N(3, 4), inlPos2, []string{"<x-i>c@d</x-i>"})
			add(hb, "content", nil, text, 0, t.N(3, 4), somePos, []string{"<x-b>@</x-b>"})
			add(hb, "blocks", nil, blk, 0, t.N(4, 5), somePos[:3], []string{"<x-b>@</x-b>"})
			add(hb, "pre", nil, pre, 0, t.N(5, 6), somePos, []string{"<x-b><pre>@</pre></x-b>"})
			add(keepConf{"h", "b", "pre"}, "kept-pre", nil, pre, 0, t.N(5, 6), somePos, []string{"<pre>@</pre>"})
			for _, n := range W("sub mark b em a img code kbd br del") {
				e := fmt.Sprintf("<%s title=\"t\">x</%s>", n, n)
				pos := somePos[:6]
				if n == "br" || n == "img" {
					e = "<" + n + " title=\"t\">"
				}
				if n == "br" {
					pos = W("@ x@y <p>x@</p>") // Blanks next to a break vanish.
				}
				add(keepConf{"h", "i", n}, "name-"+n, nil, nil, 0, 0, pos, []string{e})
			}
			for _, n := range W("section video iframe audio svg math details h2 blockquote hr ul ol table dl p figure form button select object") {
				e := map[string]string{"hr": `<hr title="t">`, "ul": `<ul title="t"><li>x</li></ul>`, "ol": `<ol start="3"><li>x</li></ol>`, "table": `<table title="t"><tbody><tr><td>x</td></tr></tbody></table>`, "select": `<select><option>a</option><option>b</option></select>`}[n]
				if e == "" {
					e = fmt.Sprintf("<%s title=\"t\">x</%s>", n, n)
				}
				add(keepConf{"h", "b", n}, "name-"+n, nil, nil, 0, 0, W("@ x@y <ins>x@y</ins> <div>@z</div>"), []string{e})
			}
			for _, n := range W("xmp noembed noframes") {
				add(hi, "raw-"+n, nil, []string{"a", " ", "\n", "&lt;", "*"}, 0, t.N(4, 5), []string{"@", "x@y"}, []string{"<x-i>*<" + n + ">c@d</" + n + "></x-i>"})
				add(hb, "raw-"+n, nil, []string{"a", " ", "\n", "&lt;", "*"}, 0, t.N(4, 5), W("@"), []string{"<x-b><" + n + ">c@d</" + n + "></x-b>"})
			}
			add(hb, "raw-plaintext", nil, []string{"a", " ", "\n", "&lt;", "*"}, 0, t.N(4, 5), W("@"), []string{"<x-b>b<plaintext>c@d"})
			add(hi, "raw-plaintext", nil, []string{"a", " ", "\n", "&lt;", "*"}, 0, t.N(4, 5), W("@"), []string{"<x-i>b<plaintext>c@d"})
			for _, n := range W("img br input wbr b em a code del sub x-y") {
				e := "<" + n + "></" + n + ">"
				if slices.Contains(W("img br hr input wbr"), n) {
					e = "<" + n + ">"
				}
				add(keepConf{"p", "i", n}, "empty-"+n, nil, nil, 0, 0, W("<p>x@y</p> <h2>x@y</h2> <p>x<b>y@z</b></p> <ul><li>x@y</li></ul>"), []string{e})
			}
			// The other renderers.
			add(keepConf{"w", "b", "article"}, "positions", blkPos, nil, t.N(4, 5), 0, at, []string{"", "a", "<p>a</p>", "<ul><li>b</li></ul>"})
			add(keepConf{"w", "b", "article"}, "content", nil, md, 0, t.N(4, 5), somePos, at)
			add(keepConf{"w", "i", "x-i"}, "content", nil, W("a * 1. b. <b> <mark> </>"), 0, t.N(4, 5), []string{"<p>@</p>", "<p>x@y</p>", "<p>a @ b</p>", "<blockquote><p>x@y</p></blockquote>", "<ul><li><p>x@y</p></li></ul>"}, at)
			add(keepConf{"w", "i", "x-i"}, "blocks", nil, md, 0, t.N(3, 4), []string{"@", "<div>x@y</div>", "<blockquote>x@</blockquote>", "<ul><li>@y</li></ul>"}, at)
			for _, h := range []string{"p", "r"} {
				add(keepConf{h, "b", "article"}, "positions", blkPos, nil, t.N(4, 5), 0, at, []string{"<article></article>", "<article>a</article>", "<article><p>a</p></article>"})
				add(keepConf{h, "i", "x-i"}, "positions", inlPos, nil, t.N(4, 5), 0, at, []string{"<x-i></x-i>", "<x-i>b</x-i>", "<x-i> b </x-i>"})
				add(keepConf{h, "b", "article"}, "content", nil, md, 0, t.N(4, 5), somePos, []string{"<article>@</article>"})
				add(keepConf{h, "i", "x-i"}, "content", nil, text, 0, t.N(3, 4), inlPos2, []string{"<x-i>@</x-i>"})
			}
			return l
		},
	})
}

// manyEls: elements with 1 to n attributes, children, levels and characters.
func manyEls(name string, n int) (l []string) {
	for i := 1; i <= n; i++ {
		var attrs strings.Builder
		for k := range i {
			fmt.Fprintf(&attrs, ` a%d="%d"`, k, k)
		}
		l = append(l, fmt.Sprintf("<%s%s>c</%s>", name, attrs.String(), name), fmt.Sprintf("<%s><u%s>c</u></%s>", name, attrs.String(), name),
			fmt.Sprintf("<%s>%s</%s>", name, strings.Repeat("<u>c</u>d", i), name), fmt.Sprintf("<%s>%sc%s</%s>", name, strings.Repeat("<u>", i), strings.Repeat("</u>", i), name),
			fmt.Sprintf("<%s>%s</%s>", name, strings.Repeat("word", i), name), fmt.Sprintf(`<%s a="%s">c</%s>`, name, strings.Repeat("word", i), name), fmt.Sprintf(`<%s %s="v">c</%s>`, name, strings.Repeat("w", i), name))
	}
	return l
}

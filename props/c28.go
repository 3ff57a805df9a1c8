package props

import (
	"fmt"
	"io"
	"strings"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

// cloneNode copies a node with everything in it, on its own.
func cloneNode(n *html.Node) *html.Node {
	c := &html.Node{Type: n.Type, DataAtom: n.DataAtom, Data: n.Data, Namespace: n.Namespace, Attr: append([]html.Attribute(nil), n.Attr...)}
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		c.AppendChild(cloneNode(k))
	}
	return c
}

// dumpNode writes the tree down, without what is in the excepted nodes.
func dumpNode(b *strings.Builder, n *html.Node, except map[*html.Node]bool) {
	if except[n] {
		fmt.Fprintf(b, "{the node}")
		return
	}
	fmt.Fprintf(b, "{%d %q %q", n.Type, n.Data, n.Attr)
	var prev *html.Node
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		if k.Parent != n || k.PrevSibling != prev {
			b.WriteString(" (broken links) ")
		}
		dumpNode(b, k, except)
		prev = k
	}
	if n.LastChild != prev {
		b.WriteString(" (broken links) ")
	}
	b.WriteString("}")
}

func dumpPage(n *html.Node, except ...*html.Node) string {
	m := map[*html.Node]bool{}
	for _, e := range except {
		m[e] = true
	}
	var b strings.Builder
	dumpNode(&b, n, m)
	return b.String()
}

func preorder(n *html.Node, f func(*html.Node)) {
	f(n)
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		preorder(k, f)
	}
}

// partJudge: a node of a page is converted as if it stood alone, and the rest
// of the page stays as it is.
func partJudge() eng.Judge { return partJudgeOf(html.Parse) }
func builtJudge() eng.Judge {
	return partJudgeOf(func(r io.Reader) (*html.Node, error) {
		b, err := io.ReadAll(r)
		return buildNodes(string(b)), err
	})
}

var apart = map[string]bool{"code": true, "kbd": true, "head": true, "script": true, "style": true, "noscript": true, "title": true, "base": true, "link": true, "meta": true}

func partJudgeOf(build func(io.Reader) (*html.Node, error)) eng.Judge {
	var convs []*converter.Converter
	for i := range 2 {
		ps := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()}
		if i == 1 {
			ps = []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext)), strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin()}
		}
		convs = append(convs, converter.NewConverter(converter.WithPlugins(ps...)))
	}
	parse := func(s string) (*html.Node, []*html.Node) {
		doc, err := build(strings.NewReader(s))
		if err != nil {
			return nil, nil
		}
		var nodes []*html.Node
		preorder(doc, func(n *html.Node) {
			if n.Type == html.ElementNode || n.Type == html.TextNode {
				nodes = append(nodes, n)
			}
		})
		return doc, nodes
	}
	return func(s string) *eng.Fail {
		_, all := parse(s)
		for ci, cv := range convs {
			alone := make([]string, len(all))
			for i := range all {
				doc, nodes := parse(s)
				n := nodes[i]
				exp, err := cv.ConvertNode(cloneNode(n))
				if err != nil {
					return &eng.Fail{What: "error: " + err.Error()}
				}
				alone[i] = string(exp)
				// Whether code without visible content is anything, and what
				// happens to an element that would be removed, is open.
				if n.Type == html.ElementNode && !apart[n.Data] {
					d := &html.Node{Type: html.DocumentNode}
					d.AppendChild(cloneNode(n))
					out, err := cv.ConvertNode(d)
					if err != nil {
						return &eng.Fail{What: "error: " + err.Error()}
					}
					if string(out) != string(exp) {
						return &eng.Fail{What: fmt.Sprintf("node %d (%s) on its own is not converted as the document with it (converter %d)", i, n.Data, ci), Expected: string(out), Got: string(exp)}
					}
				}
				parent, prev, next := n.Parent, n.PrevSibling, n.NextSibling
				before := dumpPage(doc, n)
				out, err := cv.ConvertNode(n)
				if err != nil {
					return &eng.Fail{What: "error: " + err.Error()}
				}
				if string(out) != string(exp) {
					return &eng.Fail{What: fmt.Sprintf("node %d (%s) of the page is not converted as on its own (converter %d)", i, n.Data, ci), Expected: string(exp), Got: string(out)}
				}
				if after := dumpPage(doc, n); before != after || n.Parent != parent || n.PrevSibling != prev || n.NextSibling != next {
					return &eng.Fail{What: fmt.Sprintf("converting node %d (%s) changed the page around it (converter %d)", i, n.Data, ci), Expected: before, Got: after}
				}
			}
			// The parts one after the other, in both directions.
			for _, back := range []bool{false, true} {
				doc, nodes := parse(s)
				var parts []int
				for i, n := range nodes {
					if n.Parent != nil && (n.Parent.Data == "body" || n.Parent == doc && n.Data != "html") {
						parts = append(parts, i)
					}
				}
				var except []*html.Node
				for _, i := range parts {
					except = append(except, nodes[i])
				}
				before := dumpPage(doc, except...)
				for k := range parts {
					i := parts[k]
					if back {
						i = parts[len(parts)-1-k]
					}
					out, err := cv.ConvertNode(nodes[i])
					if err != nil {
						return &eng.Fail{What: "error: " + err.Error()}
					}
					if string(out) != alone[i] {
						return &eng.Fail{What: fmt.Sprintf("the parts of a page, converted one after the other (backwards: %v, converter %d), influence each other: part %d", back, ci, k), Expected: alone[i], Got: string(out)}
					}
				}
				if after := dumpPage(doc, except...); before != after {
					return &eng.Fail{What: "converting the parts changed the page", Expected: before, Got: after}
				}
			}
		}
		return nil
	}
}

func init() {
	inline := W("a ␠ <b> <i> <em> <code> <a␠href=/u> <span> <del> <br> <img␠src=/i> </>")
	blocks := W("a <p> <div> <ul> <ol> <li> <blockquote> <h1> <pre> <hr> <b> <script> <!--c--> </>")
	tables := W("a <p> <table> <caption> <tr> <td> <th> <b> <thead> <tfoot> </>")
	mixed := W("a ␠ <p> <ul> <li> <h2> <pre> <code> <b> <strong> <a␠href=/u> <kbd> <noscript> </>")
	pages := []string{
		"<html lang=ar dir=rtl><head><base href=/b/><meta charset=utf-16><title>t</title><link rel=canonical href=http://h.io/c/></head><body class=x>@</body></html>",
		"<!DOCTYPE html><base href=http://h.io/b/><body>@<p>x</p>@", "<pre>@</pre>", "<a href=/o>@</a>", "<h2>@</h2>", "<ol start=5><li>x<li>@</ol>", "<table><tr><td>@<td>@</table>", "<b>@</b>@<noscript>@</noscript>", "<svg><title>@</title></svg>@", "<template>@</template>@<base href=x>",
	}
	eng.Register(&eng.Check{
		ID: "C28", NewJudge: partJudge,
		Rule: "every element and text of the page, converted where it stands, gives the bytes of the same node standing alone; the tree around it (values, attributes, links between the nodes) is the same afterwards; the same for all parts of the page one after the other, in both directions",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				TreeSpace("inline", inline, t.N(4, 5), []string{"@", "<p>@</p>"}, nil),
				TreeSpace("blocks", blocks, t.N(4, 5), []string{"@"}, nil),
				TreeSpace("mixed", mixed, t.N(4, 5), []string{"@"}, nil),
				TreeSpace("pages", W("a <p> <a␠href=u> <img␠src=i> <pre> <b> <h2> <ul> <li> </>"), t.N(3, 4), pages, nil),
				TreeSpace("nodes", append(W("[t:a] [t:*] [c:x] <b> <p> <_br> <a␠href=u> <h2> <ul> <li> <pre> <div> </>"), "[t: ]", "[t:]"), t.N(4, 5), []string{"@"}, builtJudge),
				TreeSpace("tables", tables, t.N(4, 5), []string{"@", "<table>@</table>"}, nil),
			}
		},
	})
}

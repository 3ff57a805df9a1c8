package props

import (
	"fmt"
	"slices"
	"strings"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

// A state is a document followed by the selector flags: "I" or "X" and the
// selector, all joined by sep. The texts of the document are numbered.

func elem(n *html.Node, name string) bool {
	return n != nil && n.Type == html.ElementNode && (name == "*" || n.Data == name)
}
func attrOf(n *html.Node, name string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == name {
			return a.Val, true
		}
	}
	return "", false
}

func hasClass(n *html.Node, c string) bool {
	v, ok := attrOf(n, "class")
	if !ok {
		return false
	}
	for _, f := range strings.Fields(v) {
		if f == c {
			return true
		}
	}
	return false
}
func prevElem(n *html.Node) *html.Node {
	for s := n.PrevSibling; s != nil; s = s.PrevSibling {
		if s.Type == html.ElementNode {
			return s
		}
	}
	return nil
}
func nextElem(n *html.Node) *html.Node {
	for s := n.NextSibling; s != nil; s = s.NextSibling {
		if s.Type == html.ElementNode {
			return s
		}
	}
	return nil
}
func under(n *html.Node, ok func(*html.Node) bool) bool {
	for p := n.Parent; p != nil; p = p.Parent {
		if p.Type == html.ElementNode && ok(p) {
			return true
		}
	}
	return false
}

// cssModel says which elements a selector means (written from the CSS
// specification).
var cssModel = map[string]func(n *html.Node) bool{
	"h6, h5, h4, p, b":    func(n *html.Node) bool { return n.Data == "p" || n.Data == "b" },
	"h6,h5,h4,h3,h2,.x":   func(n *html.Node) bool { return hasClass(n, "x") },
	"a, i, u, div":        func(n *html.Node) bool { return n.Data == "a" || n.Data == "i" || n.Data == "u" || n.Data == "div" },
	"p, q, s, u, i, b, p": func(n *html.Node) bool { return strings.Contains(" p q s u i b ", " "+n.Data+" ") },
	"p":                   func(n *html.Node) bool { return elem(n, "p") },
	"P":                   func(n *html.Node) bool { return elem(n, "p") },
	"b":                   func(n *html.Node) bool { return elem(n, "b") },
	"div":                 func(n *html.Node) bool { return elem(n, "div") },
	"body":                func(n *html.Node) bool { return elem(n, "body") },
	"html":                func(n *html.Node) bool { return elem(n, "html") },
	"*":                   func(n *html.Node) bool { return elem(n, "*") },
	"td":                  func(n *html.Node) bool { return elem(n, "td") },
	"li":                  func(n *html.Node) bool { return elem(n, "li") },
	"tr":                  func(n *html.Node) bool { return elem(n, "tr") },
	"img":                 func(n *html.Node) bool { return elem(n, "img") },
	"a":                   func(n *html.Node) bool { return elem(n, "a") },
	".x":                  func(n *html.Node) bool { return elem(n, "*") && hasClass(n, "x") },
	"p.x":                 func(n *html.Node) bool { return elem(n, "p") && hasClass(n, "x") },
	"#i":                  func(n *html.Node) bool { v, _ := attrOf(n, "id"); return elem(n, "*") && v == "i" },
	"[id]":                func(n *html.Node) bool { _, ok := attrOf(n, "id"); return elem(n, "*") && ok },
	"p, b":                func(n *html.Node) bool { return elem(n, "p") || elem(n, "b") },
	"b,.x":                func(n *html.Node) bool { return elem(n, "b") || elem(n, "*") && hasClass(n, "x") },
	"div p": func(n *html.Node) bool {
		return elem(n, "p") && under(n, func(a *html.Node) bool { return elem(a, "div") })
	},
	"div > p": func(n *html.Node) bool {
		return elem(n, "p") && elem(n.Parent, "div")
	},
	"p > b": func(n *html.Node) bool { return elem(n, "b") && elem(n.Parent, "p") },
	"div div": func(n *html.Node) bool {
		return elem(n, "div") && under(n, func(a *html.Node) bool { return elem(a, "div") })
	},
	"b b": func(n *html.Node) bool {
		return elem(n, "b") && under(n, func(a *html.Node) bool { return elem(a, "b") })
	},
	"p + p":         func(n *html.Node) bool { return elem(n, "p") && elem(prevElem(n), "p") },
	"p + *":         func(n *html.Node) bool { return elem(n, "*") && elem(prevElem(n), "p") },
	"p ~ div":       func(n *html.Node) bool { return elem(n, "div") && laterThan(n, "p") },
	"p:first-child": func(n *html.Node) bool { return elem(n, "p") && prevElem(n) == nil },
	"p:last-child":  func(n *html.Node) bool { return elem(n, "p") && nextElem(n) == nil },
	"b:last-child":  func(n *html.Node) bool { return elem(n, "b") && nextElem(n) == nil },
	"p:nth-child(2)": func(n *html.Node) bool {
		return elem(n, "p") && prevElem(n) != nil && prevElem(prevElem(n)) == nil
	},
	"b:only-child": func(n *html.Node) bool { return elem(n, "b") && prevElem(n) == nil && nextElem(n) == nil },
	"p:empty":      func(n *html.Node) bool { return elem(n, "p") && isEmptyElem(n) },
	"div:empty":    func(n *html.Node) bool { return elem(n, "div") && isEmptyElem(n) },
	"div :not(p)": func(n *html.Node) bool {
		return elem(n, "*") && n.Data != "p" && under(n, func(a *html.Node) bool { return elem(a, "div") })
	},
	"body > :not(.x)": func(n *html.Node) bool {
		return elem(n, "*") && !hasClass(n, "x") && elem(n.Parent, "body")
	},
	"p:first-of-type":  func(n *html.Node) bool { return elem(n, "p") && !laterThan(n, "p") },
	".Ad":              func(n *html.Node) bool { return elem(n, "*") && hasClass(n, "Ad") },
	".ad":              func(n *html.Node) bool { return elem(n, "*") && hasClass(n, "ad") },
	"#Ad":              func(n *html.Node) bool { return attrIs(n, "id", func(v string) bool { return v == "Ad" }) },
	"#ad":              func(n *html.Node) bool { return attrIs(n, "id", func(v string) bool { return v == "ad" }) },
	".a.b":             func(n *html.Node) bool { return elem(n, "*") && hasClass(n, "a") && hasClass(n, "b") },
	"DIV":              func(n *html.Node) bool { return elem(n, "div") },
	".é":               func(n *html.Node) bool { return elem(n, "*") && hasClass(n, "é") },
	`.a\:b`:            func(n *html.Node) bool { return elem(n, "*") && hasClass(n, "a:b") },
	`.\31 0`:           func(n *html.Node) bool { return elem(n, "*") && hasClass(n, "10") },
	`[data-k="V w"]`:   func(n *html.Node) bool { return attrIs(n, "data-k", func(v string) bool { return v == "V w" }) },
	`[data-k="V  w"]`:  func(n *html.Node) bool { return attrIs(n, "data-k", func(v string) bool { return v == "V  w" }) },
	"[data-k='V\tw']":  func(n *html.Node) bool { return attrIs(n, "data-k", func(v string) bool { return v == "V\tw" }) },
	`[data-k=" V "]`:   func(n *html.Node) bool { return attrIs(n, "data-k", func(v string) bool { return v == " V " }) },
	`[data-k=""]`:      func(n *html.Node) bool { return attrIs(n, "data-k", func(v string) bool { return v == "" }) },
	`[data-k="/*V*/"]`: func(n *html.Node) bool { return attrIs(n, "data-k", func(v string) bool { return v == "/*V*/" }) },
	`[data-k="p > b"]`: func(n *html.Node) bool { return attrIs(n, "data-k", func(v string) bool { return v == "p > b" }) },
	`[data-k='V']`:     func(n *html.Node) bool { return attrIs(n, "data-k", func(v string) bool { return v == "V" }) },
	`[data-k="a,b"]`:   func(n *html.Node) bool { return attrIs(n, "data-k", func(v string) bool { return v == "a,b" }) },
	`[DATA-K=V]`:       func(n *html.Node) bool { return attrIs(n, "data-k", func(v string) bool { return v == "V" }) },
	`[data-k~=w]`: func(n *html.Node) bool {
		return attrIs(n, "data-k", func(v string) bool { return slices.Contains(strings.Fields(v), "w") })
	},
	`[data-k^=V]`: func(n *html.Node) bool {
		return attrIs(n, "data-k", func(v string) bool { return strings.HasPrefix(v, "V") })
	},
	`[data-k$=w]`: func(n *html.Node) bool {
		return attrIs(n, "data-k", func(v string) bool { return strings.HasSuffix(v, "w") })
	},
	`[data-k*=","]`: func(n *html.Node) bool {
		return attrIs(n, "data-k", func(v string) bool { return strings.Contains(v, ",") })
	},
	`[lang|=en]`: func(n *html.Node) bool {
		return attrIs(n, "lang", func(v string) bool { return v == "en" || strings.HasPrefix(v, "en-") })
	},
	"p[class]": func(n *html.Node) bool { return elem(n, "p") && attrIs(n, "class", func(string) bool { return true }) },
	" p ":      func(n *html.Node) bool { return elem(n, "p") },
	"div:has(b)": func(n *html.Node) bool {
		return elem(n, "div") && find(n, "b") != nil
	},
}

func attrIs(n *html.Node, name string, ok func(v string) bool) bool {
	v, has := attrOf(n, name)
	return n.Type == html.ElementNode && has && ok(v)
}

func laterThan(n *html.Node, name string) bool {
	for s := prevElem(n); s != nil; s = prevElem(s) {
		if elem(s, name) {
			return true
		}
	}
	return false
}

func isEmptyElem(n *html.Node) bool {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		// Only whitespace counts as nothing (as in level 4 of the selectors).
		if c.Type == html.ElementNode || c.Type == html.TextNode && strings.TrimSpace(c.Data) != "" {
			return false
		}
	}
	return true
}

var badSelectors = []string{"", " ", "?", "p[", "p >", "> p", ",", "p,", "p:nope", "p:nth-child(x)", "p::before", ":not(", ".", "#", "p)", "p{}", "1", "[=x]", "p:has()", "!"}

// selectModel builds the document that has to be converted: what the selectors
// mean is decided on the whole page.
func selectModel(doc *html.Node, incl, excl []string) (root *html.Node) {
	any := func(l []string, n *html.Node) bool {
		for _, s := range l {
			if cssModel[s](n) {
				return true
			}
		}
		return false
	}
	ex := map[*html.Node]bool{}
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		if any(excl, n) {
			ex[n] = true
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
	}
	walk(doc)
	var clone func(n *html.Node) *html.Node
	clone = func(n *html.Node) *html.Node {
		if ex[n] {
			return nil
		}
		c := &html.Node{Type: n.Type, DataAtom: n.DataAtom, Data: n.Data, Attr: n.Attr}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			if kc := clone(k); kc != nil {
				c.AppendChild(kc)
			}
		}
		return c
	}
	if len(incl) == 0 {
		return clone(doc)
	}
	root = &html.Node{Type: html.DocumentNode}
	var pick func(n *html.Node)
	pick = func(n *html.Node) {
		if any(incl, n) {
			if c := clone(n); c != nil {
				root.AppendChild(c)
			}
			return
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			pick(c)
		}
	}
	pick(doc)
	return root
}

func numbered(doc string) string {
	var b strings.Builder
	n := 0
	for i := 0; i < len(doc); i++ {
		if doc[i] == '@' {
			n++
			fmt.Fprintf(&b, "t%d", n)
		} else {
			b.WriteByte(doc[i])
		}
	}
	return b.String()
}

func selectorJudge() eng.Judge {
	cv := newConv(Conf{Table: true})
	return func(state string) *eng.Fail {
		f := strings.Split(state, sep)
		src := numbered(f[0])
		var incl, excl, args []string
		bad := false
		for i, a := range f[1:] {
			s := a[1:]
			name, l := "--include-selector", &incl
			if a[0] == 'X' {
				name, l = "--exclude-selector", &excl
			}
			if i%2 == 0 {
				args = append(args, name+"="+s)
			} else {
				args = append(args, name, s)
			}
			if cssModel[s] == nil {
				bad = true
			}
			*l = append(*l, s)
		}
		r := newCLIRun(strings.NewReader(src))
		r.run(append(args, "--plugin-table")...)
		if c := eng.Current(); c != nil {
			c.Outcome(r.stdout())
		}
		if bad {
			if r.code != 1 || r.stdout() != "" || strings.TrimSpace(r.stderr()) == "" {
				return &eng.Fail{What: "an invalid selector is not rejected", Got: fmt.Sprintf("exit %d stdout %q stderr %q", r.code, r.stdout(), r.stderr())}
			}
			return nil
		}
		doc, err := html.Parse(strings.NewReader(src))
		if err != nil {
			return nil
		}
		want := selectModel(doc, incl, excl)
		md, err := cv.ConvertNode(want, converter.WithDomain(""))
		if err != nil {
			return &eng.Fail{What: "error: " + err.Error()}
		}
		if r.code != 0 || r.stderr() != "" {
			return &eng.Fail{What: fmt.Sprintf("exit status %d", r.code), Got: r.stderr()}
		}
		if r.stdout() != string(md)+"\n" {
			return &eng.Fail{What: "not exactly the selected parts were converted", Expected: string(md) + "\n", Got: r.stdout()}
		}
		return nil
	}
}

func init() {
	var css []string
	for k := range cssModel {
		css = append(css, k)
	}
	sortStrings(css)
	flags := func(kind string, l []string) []string {
		var o []string
		for _, s := range l {
			o = append(o, kind+s)
		}
		return o
	}
	// cross: every document with every list of flags
	cross := func(name, bound string, docs func(func(string) bool), lists [][]string) eng.Space {
		return eng.Space{Name: name, Bound: fmt.Sprintf("%s, %d lists of flags", bound, len(lists)), Enum: func(emit func(string) bool) {
			docs(func(d string) bool {
				for _, l := range lists {
					if !emit(d + sep + strings.Join(l, sep)) {
						return false
					}
				}
				return true
			})
		}}
	}
	pairs := func(a, b []string) [][]string {
		var o [][]string
		for _, x := range a {
			for _, y := range b {
				o = append(o, []string{x, y})
			}
		}
		return o
	}
	single := func(a []string) [][]string {
		var o [][]string
		for _, x := range a {
			o = append(o, []string{x})
		}
		return o
	}
	blocks := []string{"@", "<p>", "<div>", `<div class="x">`, "<b>", "</>"}
	marked := []string{"@", "<p>", `<p class="x" id="i">`, "<div>", `<b class="y x">`, "</>", " "}
	small := []string{"p", "b", "div", ".x", "div div", "p, b", "p + p", "div :not(p)", "p:last-child", "b:only-child", "p:empty"}
	fixed := func(docs ...string) func(func(string) bool) {
		return func(emit func(string) bool) {
			for _, d := range docs {
				if !emit(d) {
					return
				}
			}
		}
	}
	things := fixed(
		"<ul><li>@</li><li class=x>@<ul><li>@</li></ul></li></ul>",
		"<ol><li class=x>@</li><li>@</li><li>@</li></ol>",
		"<table><tr><td>@</td><td class=x>@</td></tr><tr><td>@</td><td>@</td></tr></table>",
		"<table class=x><tr><td>@<table><tr><td>@</td></tr></table></td></tr></table>@",
		"<p>@ <b>@</b> @ <b>@</b> @</p>",
		"<p>@<a href=/u>@<img src=i.png alt=z></a>@</p>",
		"<head><title>@</title></head><body id=i><p>@</p></body>",
		"<pre class=x>@\n @</pre><p>@",
		"<blockquote class=x><p>@</p><p>@</p></blockquote><div>@</div>",
		"<div><p>@</p>@<p>@</p></div><p>@</p>",
		"<!-- c --><p>@<!-- d --></p><p></p>",
		"<div class=x><div class=x><div class=x>@</div></div>@</div>",
		strings.Repeat("<p>@</p>", 12),
		strings.Repeat("<div>@", 12),
		"", "@", "<b></b>", "<svg><title>@</title></svg>@", "<template><p>@</p></template><p>@</p>",
	)
	eng.Register(&eng.Check{
		ID:       "C21",
		Rule:     "a model of the selectors (predicates written from the CSS specification, evaluated on the whole page before anything is removed) decides which parts have to be converted; the tool's output is compared with the library's conversion of exactly these parts",
		NewJudge: selectorJudge,
		Spaces: func(t eng.Tier) []eng.Space {
			n := t.N(0, 2)
			one := append(single(flags("I", css)), single(flags("X", css))...)
			var both [][]string
			both = append(both, pairs(flags("I", small), flags("X", small))...)
			both = append(both, pairs(flags("I", small), flags("I", small))...)
			both = append(both, pairs(flags("X", small), flags("X", small))...)
			both = append(both, pairs(flags("X", small), flags("I", small))...)
			var bad [][]string
			for _, s := range badSelectors {
				bad = append(bad, []string{"I" + s}, []string{"X" + s}, []string{"Ip", "I" + s}, []string{"X" + s, "Xp"}, []string{"Ip", "X" + s})
			}
			names := []string{"<p>@</p>", "<p class=Ad>@</p>", "<p class=ad>@</p>", "<div id=Ad>@</div>", "<b id=ad>@</b>", "<p class='a b'>@</p>", "<p class=a:b>@</p>", "<p class=10>@</p>", "<p class=é>@</p>", "<p data-k=V>@</p>", "<p data-k='V w'>@</p>", "<p data-k='a,b'>@</p>", "<p data-k='V  w'>@</p>", "<p data-k='V\tw'>@</p>", "<p data-k=' V '>@</p>", "<p data-k=''>@</p>", "<p data-k='/*V*/'>@</p>", "<p data-k='p > b'>@</p>", "<p data-k=v>@</p>", "<p lang=en>@</p>", "<p lang=en-us>@</p>", "<p lang=ende>@</p>"}
			return []eng.Space{
				cross("names", fmt.Sprintf("all strings of %d tokens up to %d", len(names), 2+n/2), Strings(names, 2+n/2, []string{"@"}), one),
				cross("invalid", "7 documents", fixed("", "@", "<p>@</p>", "<p class=x>@</p>@", "<div><p>@</p></div>", "<b>@</b>", "<html>"), bad),
				cross("things", "19 documents with lists, tables, links, code", things, append(one, both...)),
				cross("blocks", fmt.Sprintf("all trees of %d tokens up to %d", len(blocks), 5+n), Trees(blocks, 5+n, []string{"@"}, nil), one),
				cross("marked", fmt.Sprintf("all trees of %d tokens up to %d", len(marked), 4+n), Trees(marked, 4+n, []string{"@"}, nil), one),
				cross("paragraphs", fmt.Sprintf("all strings of 5 tokens up to %d", 5+n/2), Strings([]string{"<p>@</p>", "<p></p>", "<div>@</div>", "<p><b>@</b></p>", "@"}, 5+n/2, []string{"@"}), one),
				cross("pairs", fmt.Sprintf("all trees of %d tokens up to %d", len(blocks), 3+n), Trees(blocks, 3+n, []string{"<p>@</p>@", "<div><p>z</p>@</div>"}, nil), both),
			}
		},
	})
}

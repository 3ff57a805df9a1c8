package props

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"vmc/eng"

	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// totalJudge: the conversion comes to an end, with valid text for valid text.
func totalJudge(c Conf) func() eng.Judge {
	return func() eng.Judge {
		cv := newConv(c)
		return func(in string) *eng.Fail {
			md, err := convert(cv, in)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			if !utf8.ValidString(md) && utf8.ValidString(in) {
				return &eng.Fail{What: "invalid text from valid text", Output: md}
			}
			return nil
		}
	}
}

// buildNodes makes a node tree of a description: <name attr=val>, </name>,
// <_void> (with content), [t:text], [c:comment], [d:doctype], [raw:html], [err], [doc].
// Unlike the parser it accepts every arrangement.
func buildNodes(s string) *html.Node {
	root := &html.Node{Type: html.DocumentNode}
	stack := []*html.Node{root}
	element := func(desc string) *html.Node {
		f := strings.Fields(desc)
		n := &html.Node{Type: html.ElementNode, Data: f[0], DataAtom: atom.Lookup([]byte(f[0]))}
		for _, a := range f[1:] {
			k, v, _ := strings.Cut(a, "=")
			n.Attr = append(n.Attr, html.Attribute{Key: k, Val: v})
		}
		return n
	}
	for len(s) > 0 {
		top := stack[len(stack)-1]
		switch {
		case strings.HasPrefix(s, "</"):
			s = s[strings.IndexByte(s, '>')+1:]
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
		case s[0] == '<':
			e := strings.IndexByte(s, '>')
			d := s[1:e]
			s = s[e+1:]
			if strings.HasPrefix(d, "br") || strings.HasPrefix(d, "img") || strings.HasPrefix(d, "hr") {
				top.AppendChild(element(d))
				continue
			}
			// <_br> is a line break with content.
			n := element(strings.TrimPrefix(d, "_"))
			top.AppendChild(n)
			stack = append(stack, n)
		case s[0] == '[':
			e := strings.IndexByte(s, ']')
			k, v, _ := strings.Cut(s[1:e], ":")
			s = s[e+1:]
			n := &html.Node{Data: v}
			switch k {
			case "t":
				n.Type = html.TextNode
			case "c":
				n.Type = html.CommentNode
			case "d":
				n.Type = html.DoctypeNode
			case "raw":
				n.Type = html.RawNode
			case "err":
				n.Type = html.ErrorNode
			case "doc":
				n.Type = html.DocumentNode
			case "tc": // a text node with a child
				n.Type = html.TextNode
				n.AppendChild(&html.Node{Type: html.TextNode, Data: "x"})
			}
			top.AppendChild(n)
		default:
			panic("bad description " + s)
		}
	}
	return root
}

// checkTree: the links of a tree are consistent.
func checkTree(n *html.Node, depth int) string {
	if depth > 200 {
		return "a node is its own ancestor"
	}
	var prev *html.Node
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Parent != n || c.PrevSibling != prev {
			return "the links of the node tree are broken"
		}
		if s := checkTree(c, depth+1); s != "" {
			return s
		}
		prev = c
	}
	if n.LastChild != prev {
		return "the last child of a node is not its last child"
	}
	return ""
}

// nodesJudge converts the document, and each of its first nodes on its own.
func nodesJudge(c Conf) func() eng.Judge {
	return func() eng.Judge {
		cv := newConv(c)
		return func(desc string) *eng.Fail {
			variants := []func(*html.Node) *html.Node{
				func(d *html.Node) *html.Node { return d },
				// in place: still part of the document
				func(d *html.Node) *html.Node { return d.FirstChild },
				func(d *html.Node) *html.Node { return d.LastChild },
				// detached
				func(d *html.Node) *html.Node {
					f := d.FirstChild
					if f != nil {
						d.RemoveChild(f)
					}
					return f
				},
			}
			for i, v := range variants {
				d := buildNodes(desc)
				n := v(d)
				if n == nil {
					continue
				}
				ImplRuns.Add(1)
				out, err := cv.ConvertNode(n)
				if err != nil {
					return &eng.Fail{What: fmt.Sprintf("variant %d: error: %v", i, err)}
				}
				if !utf8.Valid(out) {
					return &eng.Fail{What: fmt.Sprintf("variant %d: invalid text", i), Output: string(out)}
				}
				if s := checkTree(d, 0); s != "" {
					return &eng.Fail{What: fmt.Sprintf("variant %d: %s", i, s)}
				}
			}
			return nil
		}
	}
}

// growthJudge: the cost of a conversion is in proportion to its input. The
// state is "<unit>\x1f<closing unit>\x1f<before>\x1f<after>"; "#" in the unit is
// the number of the repetition.
func growthJudge(c Conf, small, factor int) func() eng.Judge {
	return func() eng.Judge {
		cv := newConv(c)
		measure := func(state string, n int) (in int, out int, alloc uint64, took time.Duration, err error) {
			f := strings.Split(state, sep)
			var b strings.Builder
			b.WriteString(f[2])
			for i := range n {
				b.WriteString(strings.ReplaceAll(f[0], "#", strconv.Itoa(i)))
			}
			for range n {
				b.WriteString(f[1])
			}
			b.WriteString(f[3])
			doc, err := html.Parse(strings.NewReader(b.String()))
			if err != nil {
				return 0, 0, 0, 0, nil
			}
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			t := time.Now()
			ImplRuns.Add(1)
			md, err := cv.ConvertNode(doc)
			took = time.Since(t)
			runtime.ReadMemStats(&m1)
			return b.Len(), len(md), m1.TotalAlloc - m0.TotalAlloc, took, err
		}
		return func(state string) *eng.Fail {
			i1, o1, a1, t1, err := measure(state, small)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			i2, o2, a2, t2, err := measure(state, small*factor)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			// A nested document is as much larger as its indentation.
			f1, f2 := uint64(1), uint64(1)
			if strings.Split(state, sep)[1] != "" {
				f1, f2 = uint64(small), uint64(small*factor)
			}
			if growthTrace != nil {
				growthTrace(state, i1, i2, o1, o2, a1, a2, t1, t2)
			}
			if lim := (i2+o1*factor)*8*int(f2/f1) + 100_000; o2 > lim {
				return &eng.Fail{What: fmt.Sprintf("%d bytes of HTML become %d bytes", i2, o2)}
			}
			if lim := 2*a1*uint64(factor)*(f2/f1)*(f2/f1) + 4<<20; a2 > lim {
				return &eng.Fail{What: fmt.Sprintf("%d bytes of HTML need %d bytes of memory, %d bytes need %d", i1, a1, i2, a2)}
			}
			if t2 > 2*time.Second && t2 > 3*time.Duration(factor)*t1 {
				for range 2 {
					_, _, _, t, _ := measure(state, small*factor)
					t2 = min(t, t2)
				}
				if t2 > 2*time.Second && t2 > 3*time.Duration(factor)*t1 {
					return &eng.Fail{What: fmt.Sprintf("%d bytes of HTML take %v, %d bytes take %v", i1, t1, i2, t2)}
				}
			}
			return nil
		}
	}
}

var growthTrace func(state string, i1, i2, o1, o2 int, a1, a2 uint64, t1, t2 time.Duration)

// growthSpace: every unit of at most n tokens in every context.
func growthSpace(name string, toks []string, n int, ctx []string, c Conf, small, factor int) eng.Space {
	var wraps []string
	for _, x := range ctx {
		a, b, _ := strings.Cut(x, "%")
		wraps = append(wraps, "@"+sep+sep+a+sep+b)
	}
	enum := Strings(toks, n, wraps)
	return eng.Space{Name: name, Bound: fmt.Sprintf("%s; repeated %d and %d times", boundStr(toks, n, ctx), small, small*factor), Serial: true, NewJudge: growthJudge(c, small, factor),
		Enum: func(emit func(string) bool) {
			enum(func(st string) bool {
				f := strings.Split(st, sep)
				if f[0] == "" || strings.Contains(f[0], "'") && strings.HasSuffix(f[2], "'") {
					return true
				}
				return emit(st)
			})
		}}
}

// nestSpace: every cycle of at most n elements nested in each other.
func nestSpace(name string, elems []string, n int, inner []string, c Conf, small, factor int) eng.Space {
	return eng.Space{Name: name, Bound: fmt.Sprintf("every cycle of at most %d elements of %q around each of %q, nested %d and %d times", n, elems, inner, small, small*factor), Serial: true, NewJudge: growthJudge(c, small, factor),
		Enum: func(emit func(string) bool) {
			Strings(elems, n, []string{"@"})(func(st string) bool {
				if st == "" {
					return true
				}
				end := ""
				for _, e := range strings.Split(strings.Trim(st, "<>"), "><") {
					end = "</" + strings.Fields(e)[0] + ">" + end
				}
				for _, in := range inner {
					// inner: "text of every level|text of the innermost"
					a, b, _ := strings.Cut(in, "|")
					if !emit(st + a + sep + b + end + sep + sep) {
						return false
					}
				}
				return true
			})
		}}
}

func init() {
	soup := []string{"a", " ", "\n", "<", ">", "/", "=", "\"", "'", "&", "!", "-", "p", "li", "br", "<a", "</", "#", ";", "\x00", "\xff", "\xc3", "é", "\a", "\uF002", "\uFEFF", "<!--", "]]>", "\r"}
	md := []string{"a", " ", "\n", "*", "_", "`", "[", "]", "(", ")", "!", "#", "-", "+", "1.", "&gt;", "&lt;", "|", "~", "\\", "=", "é", "\uF002", "\a", "\x00", "\xff"}
	tags := []string{"a", " ", "<p>", "<div>", "<ul>", "<ol>", "<ol start=99999999999>", "<ol start=-1>", "<li>", "<h1>", "<h6>", "<blockquote>", "<hr>", "<br>", "<pre>", "<code>", "<b>", "<em>", "<a href>", "<a href=/u>", "<a href='%zz' title=' '>", "<img src>", "<img src=/u alt='a\nb'>", "<del>", "<table>", "<thead>", "<tr>", "<td>", "<th colspan=2>", "<td rowspan=3>", "<td colspan=-1>", "<td rowspan=0>", "<caption>", "<svg>", "<template>", "<select>", "<option>", "<button>", "<iframe>", "<math>", "<x-y>", "<font>", "<frameset>", "<textarea>", "<!--c-->", "<!--THE END-->", "<html>", "<body>", "<head>", "</p>", "</br>", "</>"}
	nodes := []string{"[t:a]", "[t: ]", "[t:]", "[t:*\n\n#]", "[c:x]", "[raw:<b>]", "[err]", "[doc]", "[tc:]", "[d:html]", "<_br>", "<br>", "<_hr>", "<_img>", "<_img src=/u>", "<p>", "<div>", "<ul>", "<ol>", "<ol start=x>", "<li>", "<h1>", "<blockquote>", "<pre>", "<code>", "<b>", "<em>", "<a href=/u>", "<a>", "<del>", "<span>", "<table>", "<tr>", "<td>", "<th rowspan=2>", "<td colspan=3>", "<caption>", "<thead>", "<script>", "<head>", "<body>", "<html>", "<noscript>", "<textarea>", "<X>", "</>"}
	few := []string{"[t:a]", "[t: ]", "[t:]", "[c:x]", "[doc]", "<_br>", "<_img src=/u>", "<p>", "<ul>", "<li>", "<h1>", "<blockquote>", "<pre>", "<code>", "<b>", "<a href=/u>", "<table>", "<tr>", "<td>", "<script>", "</>"}
	text := W("a ␠ * [ ] ` _ ~ | \\ ! &lt; > ( ) - + = # 1. / &amp; é ' \" :")
	text = append(text, "\n", "\t", "\r", "\x00", "\a", "\uF002", "&nbsp;", "&lt;!--", "&lt;?", "![", "](", "``", "\\\\", "- ", "# ", "&lt;a", "&#35")
	elems := []string{"a", " ", "\n", "<p>a</p>", "<p></p>", "<b>a</b>", "<b>", "<b></b>", "<em>b</em>", "<br>", "<code>`</code>", "<code></code>", "<pre>a</pre>", "<pre>```</pre>", "<a href=/u>a</a>", "<a href=/u></a>", "<img src=/u>", "<ul><li>a</li></ul>", "<ol><li>a</li></ol>", "<li>a</li>", "<li>", "<hr>", "<h1>a</h1>", "<blockquote>a</blockquote>", "<div>a</div>", "<span>a</span>", "<!--c-->", "<del>a</del>", "<script>s</script>", "<table><tr><td>a</td></tr></table>", "<dl><dt>a<dd>b</dl>", "<x-y>a</x-y>", "<font>", "<p b=#>", "<select>"}
	long := W("a␠ <b>a</b>␠ <b>a</b><b>b</b>␠x␠ <b>a</b><i>b</i>␠ <b>a</b>* <i>a</i><i>b</i>c <b>a␠</b>b <b>␠a</b>b <b></b>a <code>a</code>␠ <a␠href=/u>a</a>␠ <a␠href=/u>a</a> <a␠href=/u><b>a</b></a>␠ <img␠src=/u>␠ <br>a <span>a</span>␠ <span><b>a</b></span>␠ <b><span>a</span></b>b <!--c-->a ␠<!--c-->␠ <del>a</del>␠ <x-y>a</x-y>␠ <b>a</b>a<b>b</b>␠")
	cells := []string{"<td>a</td>", "<td colspan=9>a</td>", "<td></td>", "<th>a</th>", "<tr>", "<td rowspan=9>a</td>", "<tr><td>a|b</td></tr>", "<td>a<br>b</td>", "<td><p>a</p></td>", "<thead>", "<caption>c</caption>", "<td><table><tr><td>a</td></tr></table></td>"}
	nest := []string{"<b>", "<em>", "<a href=/u>", "<code>", "<pre>", "<ul>", "<ol>", "<li>", "<blockquote>", "<div>", "<span>", "<h1>", "<p>", "<del>", "<table>", "<td>", "<x-y>", "<dl>", "<font>", "<button>", "<svg>", "<template>"}
	all := Conf{Strike: true, Table: true}
	eng.Register(&eng.Check{
		ID: "C10", NewJudge: totalJudge(all),
		Rule: "a result without panic, hang (30 s per state) or excessive memory (16 GB in all); valid UTF-8 for valid UTF-8; the links of a node tree stay consistent; output and memory at most in proportion to the input, time not more than three times the proportion beyond 2 s",
		Spaces: func(t eng.Tier) []eng.Space {
			l := []eng.Space{
				StrSpace("soup", soup, t.N(4, 5), []string{"@"}, nil),
				StrSpace("soup-in-tag", soup, t.N(3, 4), []string{"<a href=@>b", "<p @>b", "<pre>@", "<table>@<td>"}, nil),
				StrSpace("text", md, t.N(3, 4), []string{"<p>@", "<code>@", "<pre>@", "<a href=/u title='@'>@", "<img src='@' alt='@'>", "<table><tr><td>@<td>b"}, nil),
			}
			for _, c := range variousConfs() {
				l = append(l, TreeSpace("tags-"+c.Name, tags, 3, []string{"@"}, totalJudge(c)))
			}
			rows := W("a <br> <tr> <td> <th> <caption> </>")
			rows = append(rows, "<td colspan=2>", "<td rowspan=2>", "<table role=presentation>", "<p>")
			l = append(l, eng.Space{Name: "table-options", Bound: "each of the 96 combinations of the table options with " + boundTree(rows, t.N(4, 5), []string{"<table>@</table>"}), Enum: perConf(96, Trees(rows, t.N(4, 5), []string{"<table>@</table>"}, nil)),
				NewJudge: confJudge(tableConfs(), func(o tableOpts) func() eng.Judge { return totalJudge(o.conf()) })})
			l = append(l,
				TreeSpace("nodes", nodes, 3, []string{"@"}, nodesJudge(all)),
				TreeSpace("nodes-noescape", nodes, t.N(2, 3), []string{"@"}, nodesJudge(Conf{Strike: true, Table: true, NoEsc: true})),
				TreeSpace("nodes-few", few, t.N(4, 5), []string{"@"}, nodesJudge(all)),
				growthSpace("growth-text", text, 1, []string{"<p>%</p>", "<pre>%", "<code>%", "<h2>%", "<a title='%' href=/u>a</a>", "<a href='/%'>a</a>", "<img src=/u alt='%'>", "<table><tr><td>%"}, all, 4000, 8),
				growthSpace("growth-text-2", text, 2, []string{"<p>%</p>"}, all, t.N(500, 2000), 8),
				growthSpace("growth-elements", elems, 2, []string{"%", "<ul><li>%</li></ul>"}, all, t.N(60, 200), 8),
				growthSpace("growth-long", long, 1, []string{"<p>%</p>"}, all, t.N(2500, 4000), 8),
				growthSpace("growth-long-elements", elems, 1, []string{"%", "<ul><li>%</li></ul>", "<a href=/u>%</a>", "<pre>%</pre>", "<blockquote>%</blockquote>", "<table><tr><td>%</table>", "<b>%</b>", "<h2>%</h2>"}, all, t.N(600, 2000), 8),
				growthSpace("growth-cells", cells, 2, []string{"<table><tr>%</table>"}, all, t.N(15, 30), 4),
				nestSpace("nested", nest, 2, []string{"a|", "|a", "a<br>|"}, all, 30, 4),
			)
			if t.Thorough {
				l = append(l,
					TreeSpace("tags-4", tags, 4, []string{"@"}, nil),
					growthSpace("growth-text-2ctx", text, 2, []string{"<pre>%", "<code>%", "<h2>%", "<a title='%' href=/u>a</a>", "<a href='/%'>a</a>", "<table><tr><td>%"}, all, 500, 8),
					growthSpace("growth-elements-2ctx", elems, 2, []string{"<h2>%</h2>", "<a href=/u>%</a>", "<pre>%</pre>", "<blockquote>%</blockquote>", "<table><tr><td>%</table>"}, all, 60, 8),
					nestSpace("nested-3", nest, 3, []string{"a|b"}, all, 20, 4),
				)
			}
			return l
		},
	})
}

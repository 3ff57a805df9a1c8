package props

import (
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"

	"vmc/eng"

	"golang.org/x/net/html"
)

// cellEnds: an escaped backslash before a separator, which goldmark takes for an
// escaped separator (other than GitHub).
var cellEnds = regexp.MustCompile(`(^|[^\\])((?:\\\\)+)\|`)

// delimiters: the row under the header.
var delimiters = regexp.MustCompile(`(?m)\|(:?-+:?\|)+$`)

// grid is a table after all spans are applied.
type grid struct {
	rows    [][]string // the first one is the header
	align   []string
	caption string
	plain   bool // has to come out as plain content
	open    bool // a promoted header that was there, but empty
}

func find(n *html.Node, names ...string) (l []*html.Node) {
	if n.Type == html.ElementNode && slices.Contains(names, n.Data) {
		l = append(l, n)
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		l = append(l, find(c, names...)...)
	}
	return
}
func getAttr(n *html.Node, k string) string {
	for _, a := range n.Attr {
		if a.Key == k {
			return a.Val
		}
	}
	return ""
}

// number follows the HTML rules for parsing non-negative integers.
func number(s string) (int, bool) {
	s = strings.TrimLeft(s, " \t\n\f\r")
	s = strings.TrimPrefix(s, "+")
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	k, err := strconv.Atoi(s[:i])
	return k, err == nil
}

// separate elements stand on their own lines, or at least apart from each other.
var separate = []string{"pre", "caption", "td", "th", "tr", "table", "h1", "h3", "ul", "ol", "hr", "blockquote", "center"}

// lines is the text of an element, with its line breaks.
func lines(n *html.Node) string {
	var sb strings.Builder
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		block := n.Type == html.ElementNode && (n.Data == "p" || n.Data == "div" || n.Data == "li" || slices.Contains(separate, n.Data))
		switch {
		case n.Type == html.TextNode:
			sb.WriteString(strings.ReplaceAll(n.Data, "\n", " "))
		case n.Type == html.ElementNode && n.Data == "br" || block:
			sb.WriteString("\n")
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c)
		}
		if block {
			sb.WriteString("\n")
		}
	}
	walk(n)
	var l []string
	for _, s := range strings.Split(sb.String(), "\n") {
		if s = strings.Join(strings.Fields(s), " "); s != "" {
			l = append(l, s)
		}
	}
	return strings.Join(l, "\n")
}

// gridOf forms the table as HTML says.
func gridOf(t *html.Node, o tableOpts) (g grid) {
	if getAttr(t, "role") == "presentation" && !o.Presentation {
		return grid{plain: true}
	}
	if len(find(t, "table")) > 1 || len(find(t, "h1", "h3", "hr", "ul", "ol", "blockquote", "pre")) > 0 {
		return grid{plain: true}
	}
	for p := t.Parent; p != nil; p = p.Parent {
		if slices.Contains([]string{"a", "b", "strong", "em", "i", "del", "s", "strike"}, p.Data) {
			return grid{plain: true}
		}
	}
	// the header first, the rows of the footer last
	var header *html.Node
	trs := find(t, "tr")
	if h := find(t, "thead"); len(h) > 0 && len(find(h[0], "tr")) > 0 {
		header = find(h[0], "tr")[0]
	} else if c := find(t, "td", "th"); len(c) > 0 && len(find(c[0].Parent, "th")) > 0 {
		header = c[0].Parent
	}
	var rows, foot []*html.Node
	hasHeader := header != nil
	if hasHeader {
		rows = append(rows, header)
	}
	for _, r := range trs {
		if r != header && r.Parent.Data == "tfoot" {
			foot = append(foot, r)
		} else if r != header {
			rows = append(rows, r)
		}
	}
	rows = append(rows, foot...)
	cells := map[[2]int]string{}
	taken := map[[2]int]bool{}
	width, height := 0, len(rows)
	for y, r := range rows {
		x := 0
		inGroup := 1
		for y+inGroup < len(rows) && rows[y+inGroup].Parent == r.Parent {
			inGroup++
		}
		for _, c := range find(r, "td", "th") {
			for taken[[2]int{x, y}] {
				x++
			}
			cs, ok := number(getAttr(c, "colspan"))
			if !ok || cs == 0 {
				cs = 1
			}
			rs, ok := number(getAttr(c, "rowspan"))
			if !ok {
				rs = 1
			}
			if rs == 0 || rs > inGroup && y+inGroup < len(rows) {
				rs = inGroup
			}
			// (a span over the end of the table makes more rows)
			content := lines(c)
			if strings.Contains(content, "\n") && o.Newline == "skip" {
				return grid{plain: true}
			}
			for dy := range rs {
				for dx := range cs {
					at := [2]int{x + dx, y + dy}
					if !taken[at] && (dx+dy == 0 || o.Span == "mirror") {
						cells[at] = content
					}
					taken[at] = true
				}
			}
			width, height = max(width, x+cs), max(height, y+rs)
		}
	}
	var all [][]string
	for y := range height {
		var r []string
		for x := range width {
			r = append(r, cells[[2]int{x, y}])
		}
		all = append(all, r)
	}
	if len(rows) > 0 {
		for _, c := range find(rows[0], "td", "th") {
			cs, ok := number(getAttr(c, "colspan"))
			if !ok || cs == 0 {
				cs = 1
			}
			al := strings.ToLower(getAttr(c, "align"))
			if !slices.Contains([]string{"left", "right", "center"}, al) {
				al = ""
			}
			for range cs {
				g.align = append(g.align, al)
			}
		}
	}
	for len(g.align) < width {
		g.align = append(g.align, "")
	}
	empty := func(r []string) bool { return strings.Join(r, "") == "" }
	if !hasHeader {
		all = slices.Insert(all, 0, make([]string, width))
	}
	if o.Skip {
		all = append(all[:1:1], slices.DeleteFunc(slices.Clone(all[1:]), empty)...)
		if len(all) == 1 && empty(all[0]) {
			return grid{plain: true}
		}
	}
	if o.Promote && empty(all[0]) {
		if hasHeader {
			g.open = true
		}
		if len(all) > 1 || !hasHeader {
			all = all[1:]
		}
	}
	g.rows = all
	if c := find(t, "caption"); len(c) > 0 {
		g.caption = lines(c[0])
	}
	return g
}

// cellsOf splits a line of a table.
func cellsOf(line string) []string {
	var l []string
	cur, n := "", 0
	for _, r := range strings.TrimPrefix(line, "|") {
		if r == '|' && n%2 == 0 {
			l, cur = append(l, cur), ""
			continue
		}
		if r == '\\' {
			n++
		} else {
			n = 0
		}
		cur += string(r)
	}
	if cur != "" {
		return nil
	}
	return l
}

// padded checks the padding of the cells of a table.
func padded(ls []string, o tableOpts) string {
	var cols [][]string
	for y, l := range ls {
		if !strings.HasPrefix(l, "|") || !strings.HasSuffix(l, "|") {
			return "a row without its separators"
		}
		cs := cellsOf(l)
		if cs == nil || len(cs) != len(cellsOf(ls[0])) {
			return "rows with different numbers of cells"
		}
		for x, c := range cs {
			if x >= len(cols) {
				cols = append(cols, nil)
			}
			if y == 1 {
				if o.Padding != "aligned" && len(c) != 3 {
					return "the delimiter row is padded"
				}
			} else if o.Padding == "none" {
				if c != strings.TrimSpace(c) {
					return "a cell is padded"
				}
			} else if !strings.HasPrefix(c, " ") || !strings.HasSuffix(c, " ") {
				return "a cell is not padded"
			} else if k := strings.TrimSpace(c); o.Padding == "minimal" && c != " "+k+" " || o.Padding == "aligned" && !strings.HasPrefix(c, " "+k) {
				return "a cell is padded more than it has to"
			}
			cols[x] = append(cols[x], c)
		}
	}
	if o.Padding == "aligned" {
		for _, col := range cols {
			w := 1
			for y, c := range col {
				if y != 1 {
					w = max(w, utf8.RuneCountInString(strings.TrimSpace(c)))
				}
			}
			for _, c := range col {
				if utf8.RuneCountInString(c) != w+2 {
					return "a column is not as wide as its widest cell"
				}
			}
		}
	}
	return ""
}

func gridJudge(o tableOpts) func() eng.Judge {
	return func() eng.Judge {
		c := o.conf()
		cv := newConv(c)
		gm := gmFor(Conf{Table: true, Strike: true})
		return func(in string) *eng.Fail {
			doc, err := html.Parse(strings.NewReader(in))
			if err != nil {
				panic(err)
			}
			t := find(doc, "table")[0]
			want := gridOf(t, o)
			md, err := convert(cv, in)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			back, _ := html.Parse(strings.NewReader(render(gm, cellEnds.ReplaceAllString(cellEnds.ReplaceAllString(md, "$1$2 |"), "$1$2 |"))))
			tables := find(back, "table")
			if want.plain || len(want.rows) == 0 || len(want.rows[0]) == 0 {
				if len(tables) != len(find(t, "table"))-1 { // nested ones
					return &eng.Fail{What: "a table that cannot be represented comes out as a table, or one in it does not", Output: md}
				}
				return sameWords(doc, back, md)
			}
			if want.open && len(tables) == 0 && strings.Join(slices.Concat(want.rows...), "") == "" {
				return sameWords(doc, back, md) // an empty table
			}
			if len(tables) != 1 {
				return &eng.Fail{What: "the table is not a table in Markdown", Expected: fmt.Sprint(want.rows), Output: md}
			}
			var got [][]string
			var align []string
			for _, r := range find(tables[0], "tr") {
				var row []string
				for _, c := range find(r, "td", "th") {
					row = append(row, lines(c))
				}
				got = append(got, row)
			}
			for _, c := range strings.Split(strings.Trim(delimiters.FindString(md), "|"), "|") {
				align = append(align, map[string]string{"--": "", ":-": "left", "-:": "right", "::": "center"}[c[:1]+c[len(c)-1:]])
			}
			if want.open || o.Skip {
				// empty columns of omitted rows may be gone with them
				for w := len(got[0]); w < len(want.rows[0]) && !slices.ContainsFunc(want.rows, func(r []string) bool { return r[len(r)-1] != "" }); {
					for y := range want.rows {
						want.rows[y] = want.rows[y][:len(want.rows[y])-1]
					}
					want.align = want.align[:len(want.rows[0])]
				}
			}
			g, e := fmt.Sprintf("%q", got), fmt.Sprintf("%q", want.rows)
			if g != e && !(want.open && g == fmt.Sprintf("%q", append([][]string{make([]string, len(got[0]))}, want.rows...))) {
				return &eng.Fail{What: "the cells are not in their places", Expected: e, Got: g, Output: md}
			}
			if a, b := fmt.Sprintf("%q", align), fmt.Sprintf("%q", want.align); a != b {
				return &eng.Fail{What: "the alignment of the columns differs", Expected: b, Got: a, Output: md}
			}
			// nothing but the caption and what stands around the table
			if t.Parent.Data == "body" {
				var ls []string
				rest := ""
				inTable := false
				for _, l := range strings.Split(md, "\n") {
					if strings.HasPrefix(l, "|") && (len(ls) == 0 || inTable) {
						ls, inTable = append(ls, l), true
					} else {
						inTable = false
						rest += l + "\n"
					}
				}
				if s := padded(ls, o); s != "" {
					return &eng.Fail{What: s, Output: md}
				}
				tables[0].Parent.RemoveChild(tables[0])
				out := lines(back)
				p := &html.Node{Type: html.ElementNode, Data: "p"}
				p.AppendChild(&html.Node{Type: html.TextNode, Data: want.caption})
				t.Parent.InsertBefore(p, t)
				t.Parent.RemoveChild(t)
				exp := lines(doc)
				if out != exp {
					return &eng.Fail{What: "something else than the table differs", Expected: exp, Got: out, Output: md}
				}
			}
			return nil
		}
	}
}

// sameWords: the same words in the same order.
func sameWords(a, b *html.Node, md string) *eng.Fail {
	x, y := strings.Join(strings.Fields(lines(a)), " "), strings.Join(strings.Fields(lines(b)), " ")
	if x != y {
		return &eng.Fail{What: "the content is not complete or not in order", Expected: x, Got: y, Output: md}
	}
	return nil
}

// tablesOf enumerates all tables with exactly n rows of up to k cells.
func tablesOf(n, k int, spans []string, header []string) func(func(string) bool) {
	var row []string
	Strings(spans, k, []string{"@"})(func(s string) bool { row = append(row, s); return true })
	return func(emit func(string) bool) {
		stopped := false
		var rec func(p string, left int)
		rec = func(p string, left int) {
			if stopped {
				return
			}
			if left == 0 {
				// different letters in all cells
				var sb strings.Builder
				letter := 'a'
				for _, r := range p {
					if r == '@' {
						sb.WriteRune(letter)
						letter++
					} else {
						sb.WriteRune(r)
					}
				}
				for _, h := range header {
					s := sb.String()
					switch h {
					case "th":
						s = strings.Replace(s, "<td", "<th", 1)
					case "thead":
						s = "<thead>" + strings.Replace(s[4:], "<tr>", "</thead><tr>", 1)
						s = strings.Replace(s, "<thead>", "<thead><tr>", 1)
					}
					if !emit("<table>" + s + "</table>") {
						stopped = true
						return
					}
				}
				return
			}
			for _, r := range row {
				rec(p+"<tr>"+r, left-1)
			}
		}
		rec("", n)
	}
}

func init() {
	spans4 := []string{"<td>@", "<td colspan=2>@", "<td rowspan=2>@", "<td colspan=2 rowspan=2>@"}
	spans9 := append(slices.Clone(spans4), "<td colspan=3>@", "<td rowspan=3>@", "<td colspan=3 rowspan=2>@", "<td colspan=2 rowspan=3>@", "<td rowspan=0>@")
	heads := []string{"", "th", "thead"}
	two := func(f func(*tableOpts)) []tableOpts {
		a := tableOpts{Span: "mirror", Newline: "skip", Padding: "aligned"}
		b := tableOpts{Span: "empty", Newline: "skip", Padding: "none"}
		if f != nil {
			f(&a)
			f(&b)
		}
		return []tableOpts{a, b}
	}
	space := func(name, bound string, confs []tableOpts, enum func(func(string) bool)) eng.Space {
		return eng.Space{Name: name, Bound: fmt.Sprintf("%s, in %d configurations", bound, len(confs)), Enum: perConf(len(confs), enum), NewJudge: confJudge(confs, gridJudge)}
	}
	contents := []string{"", " ", "a", "b c", "a|b", "<b>d</b>", "<code>|</code>", "世é", "e<br>f", "<p>g</p><p>h</p>", "<p>i</p>", `\`, "<br>", "x|", "<a href=/u>l|m</a>", "<div>n</div>", "long text in a cell", "*_`"}
	eng.Register(&eng.Check{
		ID: "C19",
		Spaces: func(t eng.Tier) []eng.Space {
			l := []eng.Space{
				space("spans-2", "all tables of 2 rows of at most 3 cells with spans", two(nil), tablesOf(2, t.N(2, 3), spans9, heads)),
				space("spans-3", "all tables of 3 rows of at most 2 cells with spans", two(nil), tablesOf(3, 2, t2(t, spans4, spans9), heads)),
				space("spans-33", "all tables of 3 rows of at most 3 cells with spans", two(nil), tablesOf(3, 3, spans4[:t.N(3, 4)], []string{"th"})),
				space("spans-23", "all tables of 2 rows of at most 3 cells with few spans", two(func(o *tableOpts) { o.Skip, o.Promote = true, true }), tablesOf(2, t.N(3, 4), spans4, heads)),
				space("inside", "tables in containers", tableConfs(), func(emit func(string) bool) {
					for _, w := range []string{"<ul><li>@</ul>", "<ul><li>x@y</ul>", "<blockquote>@</blockquote>", "<ol start=9><li>x<li>@</ol>", "<blockquote><ul><li><blockquote>@</blockquote></ul>x</blockquote>", "<dl><dt>x<dd>@</dl>", "x@y", "<p>x</p>@<p>y</p>", "<div>@</div><div>x</div>", "<section>@</section>"} {
						ok := true
						Strings([]string{"<tr>", "<td>a", "<th>b|", "<td>**", "<td colspan=2>\\", "<td>c<br>d"}, t.N(3, 4), []string{"<table>@</table>", "<table><caption>k</caption><tr>@</table>"})(func(s string) bool {
							ok = emit(strings.ReplaceAll(w, "@", s))
							return ok
						})
						if !ok {
							return
						}
					}
				}),
				space("spans-5", "all tables of 5 rows of at most 2 cells with spans", two(nil), tablesOf(5, 2, []string{"<td>@", "<td rowspan=2>@", "<td rowspan=3>@"}[:t.N(2, 3)], []string{"th"})),
				space("sizes", "large tables", two(nil), Sizes(sizeTables, sizes(t.N(34, 67)))),
				space("sizes-large", "larger tables", tableConfs()[:1], Sizes(sizeTables, sizes(t.N(130, 260)))),
				space("contents", "3 of the contents in a table of 2 rows and 2 columns", tableConfs(), func(emit func(string) bool) {
					for _, a := range contents {
						for _, b := range contents {
							for _, c := range contents {
								if !emit("<table><tr><th>"+a+"<th>h<tr><td>"+b+"<td>"+c+"</table>") || !emit("<table><tr><td>"+a+"<td>"+b+"<tr><td colspan=2>"+c+"</table>") {
									return
								}
							}
						}
					}
				}),
				space("structure", "all sequences of table parts", tableConfs()[:t.N(24, 96)], Strings([]string{"<thead>", "<tbody>", "<tfoot>", "<tr>", "<td>a", "<th>b", "<td>"}, t.N(5, 6), []string{"<table>@</table>", "<p>x</p><table><caption>c</caption>@</table>z"})),
				space("columns", "all rows of cells with an alignment and a span", two(nil), Strings([]string{"<th>a", "<th align=left>b", "<th align=RIGHT>c", "<th align=center colspan=2>d", "<th align=justify>e", "<td align=Center>f", "<th colspan=3>g"}, t.N(4, 5), []string{"<table><tr>@<tr><td>k<td align=right>l</table>", "<table><tr>@</table>", "<table><thead><tr>@</thead><tr><th>y</table>"})),
				space("numbers", "all strings as a number of columns or rows", two(nil), Strings(W("0 1 2 + - . ␠ x &#9; ٣ %"), t.N(3, 4), []string{`<table><tr><th colspan="@">a<th>b<tr><td>c<td>d</table>`, `<table><tr><th rowspan="@">a<th>b<tr><td>c<td>d<tr><td>e<tr><td>f<tfoot><tr><td>g</table>`})),
				space("plain", "what cannot be in a table, or a table in it", tableConfs(), func(emit func(string) bool) {
					in := []string{"<ul><li>l</ul>", "<ol><li>l</ol>", "<hr>", "<h1>h</h1>", "<h3>h</h3>", "<blockquote>q</blockquote>", "<table><tr><td>t</table>", "p<br>q", "<pre>p\nq</pre>", "<p>p</p><p>q</p>", "ok"}
					wraps := []string{"@", "<div>@</div>", "<ul><li>@</ul>", "<blockquote>@</blockquote>", "<center>@</center>"}
					inline := []string{"<a href=/u>@</a>", "<b>@</b>", "<i>@</i>", "<s>@</s>", "<em><span>@</span></em>", "<del>@</del>", "<strong>@</strong>", "<strike>@</strike>"}
					for _, a := range in {
						for _, b := range in {
							for _, w := range append(slices.Clone(wraps), inline...) {
								if slices.Contains(inline, w) && (a != "ok" && a != "p<br>q" || b != "ok" && b != "p<br>q") {
									continue // no lists in formatting
								}
								for _, role := range []string{"", " role=presentation", " role=grid"} {
									for _, tb := range []string{"<tr><th>v<th>①<tr><td>②<td>w", "<tr><td>①<tr><td>②", "<caption>c</caption><tr><td>①<td>②"} {
										tb = strings.NewReplacer("①", a, "②", b).Replace(tb)
										if !emit(strings.ReplaceAll(w, "@", "<table"+role+">"+tb+"</table>")) {
											return
										}
									}
								}
							}
						}
					}
				}),
				space("chains", "a table in formatting or a link, with one or two other elements between", two(nil), func(emit func(string) bool) {
					mid := strings.Fields("div section article main header footer nav aside figure figcaption address center form fieldset dl details span u x-y")
					for _, in := range strings.Fields("a b strong em i del s strike") {
						open := in
						if in == "a" {
							open = "a href=/u"
						}
						for _, m := range mid {
							for _, k := range append([]string{""}, mid...) {
								l := func(s string) string {
									for _, x := range []string{k, m} {
										if x != "" {
											s = "<" + x + ">" + s + "</" + x + ">"
										}
									}
									return s
								}
								if !emit("<" + open + ">" + l("<table><tr><td>v<td>w<tr><td>x<td>y</table>") + "</" + in + ">") {
									return
								}
							}
						}
					}
				}),
				space("captions", "a caption in every place of a table", tableConfs(), func(emit func(string) bool) {
					parts := []string{"<colgroup><col><col></colgroup>", "<!--c-->", "<thead><tr><th>g<th>h</thead>", "<tbody><tr><td>i<td>j</tbody>", "<tfoot><tr><td>k<td>l</tfoot>", " ", "<script></script>"}
					for _, c := range []string{"<caption>m</caption>", "<caption>m <b>n</b></caption>", "<caption></caption>"} {
						ok := true
						Strings(append([]string{c}, parts...), t.N(3, 4), []string{"<table>@</table>", "<table>@<tr><td>o<td>p</table>", "<p>x</p><table>@<tr><td>o<td>p</table>"})(func(s string) bool {
							if strings.Count(s, "<caption>") == 1 && strings.Contains(s, "<td") {
								ok = emit(s)
							}
							return ok
						})
						if !ok {
							return
						}
					}
				}),
				space("features", fmt.Sprintf("all tables of at most %d rows and %d columns with one special cell anywhere, every kind of header, with and without footer and caption", t.N(5, 8), t.N(4, 6)), append(two(nil), two(func(o *tableOpts) { o.Skip, o.Promote, o.Newline, o.Padding = true, true, "preserve", "minimal" })[0]), func(emit func(string) bool) {
					specials := []string{"<td>" + strings.Repeat("long ", 20), "<td>" + strings.Repeat("w", 120), "<td>" + strings.Repeat("世", 50), "<td>", "<td colspan=2>@", "<td colspan=4>@", "<td rowspan=2>@", "<td rowspan=4>@", "<td colspan=2 rowspan=4>@", "<td colspan=3 rowspan=3>@", "<td align=center>@", "<th>@", "<td>a|b", "<td>x<br>y"}
					for _, head := range []string{"", "<td>", "<td align=left>", "<th>", "<th align=right>", "thead"} {
						for rows := range t.N(5, 8) {
							for cols := 1; cols <= t.N(4, 6); cols++ {
								for at := range (rows + 1) * cols {
									for _, sp := range specials {
										for form := range 4 {
											s := "<table>"
											if form&1 > 0 {
												s += "<caption>k</caption>"
											}
											for y := range rows + 1 {
												if y == 0 && head == "" {
													continue
												}
												switch {
												case y == 0 && head == "thead":
													s += "<thead>"
												case y == rows && form&2 > 0:
													s += "<tfoot>"
												case y == 1:
													s += "<tbody>"
												}
												s += "<tr>"
												for x := range cols {
													c := "<td>@"
													if y == 0 && head != "thead" {
														c = head + "@"
													}
													if y*cols+x == at {
														c = sp
													}
													s += strings.ReplaceAll(c, "@", fmt.Sprintf("%c%d", 'a'+x, y))
												}
											}
											if !emit(s + "</table>") {
												return
											}
										}
									}
								}
							}
						}
					}
				}),
				space("large", "tables of many rows and columns", tableConfs(), func(emit func(string) bool) {
					for _, rows := range []int{1, 9, 10, 11, 100} {
						for _, cols := range []int{1, 9, 10, 11, 100} {
							s := "<table>"
							for y := range rows {
								s += "<tr>"
								for x := range cols {
									if (x+y)%7 != 3 {
										s += fmt.Sprintf("<td>%d", x*y)
									} else {
										s += "<td>"
									}
								}
							}
							if !emit(s + "</table>") {
								return
							}
						}
					}
				}),
			}
			return l
		},
	})
}

func t2(t eng.Tier, a, b []string) []string {
	if t.N(0, 1) == 1 {
		return b
	}
	return a
}

package props

import (
	"fmt"
	"slices"
	"strconv"
	"strings"

	"vmc/eng"

	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

const gap = "·"

// blockish: the elements whose edges are block boundaries (CSS display of the
// HTML standard, for the elements used here).
var blockish = map[string]bool{"html": true, "body": true, "p": true, "div": true, "ul": true, "ol": true, "li": true, "h1": true, "h2": true, "h3": true, "h5": true, "blockquote": true, "hr": true, "pre": true, "section": true, "table": true, "dl": true, "dt": true, "dd": true, "br": true, "figure": true, "footer": true, "article": true, "form": true}

// blankCode: there is a code span of nothing but whitespace.
func blankCode(s string) bool {
	if !strings.Contains(s, "<code>") {
		return false
	}
	doc, _ := html.Parse(strings.NewReader(s))
	var f func(*html.Node) bool
	f = func(n *html.Node) bool {
		if n.Type == html.ElementNode && n.Data == "code" && strings.TrimSpace(textOf(n)) == "" {
			return true
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			if f(c) {
				return true
			}
		}
		return false
	}
	return f(doc)
}

func textOf(n *html.Node) string {
	if n.Type == html.TextNode {
		return n.Data
	}
	if removedByDefault[n.Data] {
		return ""
	}
	s := ""
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		s += textOf(c)
	}
	return s
}

// gapsJudge: what fills a gap and how much of it does not matter.
func gapsJudge(c Conf) func() eng.Judge {
	return func() eng.Judge {
		cv := newConv(c)
		fills := []string{"\n", "\t", "  ", " \n ", "\n\n", "\r\n", " \t\n\n   ", "&#13;", "&#10;", "&#9;", "&#32;"}
		return func(state string) *eng.Fail {
			n := strings.Count(state, gap)
			if blankCode(strings.ReplaceAll(state, gap, " ")) {
				return nil // a code span of nothing but whitespace
			}
			ref, err := convert(cv, strings.ReplaceAll(state, gap, " "))
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			try := func(in string) *eng.Fail {
				got, err := convert(cv, in)
				if err != nil {
					return &eng.Fail{What: "error: " + err.Error()}
				}
				if got != ref {
					return &eng.Fail{What: fmt.Sprintf("another kind or amount of whitespace changes the output, input %q", in), Expected: ref, Got: got}
				}
				return nil
			}
			for _, f := range fills {
				if n > 0 {
					if x := try(strings.ReplaceAll(state, gap, f)); x != nil {
						return x
					}
				}
			}
			if n > 1 {
				for i := 0; i < n; i++ {
					parts := strings.Split(state, gap)
					for _, f := range fills[3:5] {
						in := ""
						for k, p := range parts {
							in += p
							if k == i {
								in += f
							} else if k < n {
								in += " "
							}
						}
						if x := try(in); x != nil {
							return x
						}
					}
				}
			}
			return nil
		}
	}
}

// runsJudge: a long run of whitespace is one space. The state is the length
// of the run and the document.
func runsJudge() eng.Judge {
	cv := newConv(Conf{Table: true, Strike: true})
	return func(state string) *eng.Fail {
		num, doc, _ := strings.Cut(state, sep)
		n, _ := strconv.Atoi(num)
		ref, err := convert(cv, strings.ReplaceAll(doc, gap, " "))
		if err != nil {
			return &eng.Fail{What: "error: " + err.Error()}
		}
		for _, f := range []string{" ", "\n", "\t", "\r\n", " \n", "&#32;", "&#10;"} {
			got, err := convert(cv, strings.ReplaceAll(doc, gap, strings.Repeat(f, n)))
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			if got != ref {
				return &eng.Fail{What: fmt.Sprintf("%d times %q is not what one space is", n, f), Expected: cut(ref), Got: cut(got)}
			}
		}
		return nil
	}
}

func cut(s string) string {
	if len(s) > 1000 {
		return s[:1000] + "…"
	}
	return s
}

// bordersJudge: whitespace next to a block boundary does not matter.
func bordersJudge(c Conf) func() eng.Judge {
	return func() eng.Judge {
		cv := newConv(c)
		fills := []string{" ", "\n", "\n\t  \n"}
		return func(state string) *eng.Fail {
			ref, err := convert(cv, state)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			pos := borders(state)
			put := func(f string, only int) string {
				var b strings.Builder
				last := 0
				for i, p := range pos {
					b.WriteString(state[last:p])
					if only < 0 || only == i {
						b.WriteString(f)
					}
					last = p
				}
				b.WriteString(state[last:])
				return b.String()
			}
			for _, f := range fills {
				for only := -1; only < len(pos); only++ {
					in := put(f, only)
					got, err := convert(cv, in)
					if err != nil {
						return &eng.Fail{What: "error: " + err.Error()}
					}
					if got != ref {
						return &eng.Fail{What: fmt.Sprintf("whitespace next to a block boundary changes the output, input %q", in), Expected: ref, Got: got}
					}
				}
			}
			return nil
		}
	}
}

// borders: the offsets before and after every tag of a block (not inside pre)
// and both ends of the document.
func borders(s string) []int {
	var pos []int
	add := func(p int) {
		if len(pos) == 0 || pos[len(pos)-1] != p {
			pos = append(pos, p)
		}
	}
	add(0)
	z := html.NewTokenizer(strings.NewReader(s))
	off, pre := 0, 0
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			break
		}
		raw := len(z.Raw())
		name, _ := z.TagName()
		switch tt {
		case html.StartTagToken, html.SelfClosingTagToken:
			if blockish[string(name)] && pre == 0 {
				add(off)
				if string(name) != "pre" {
					add(off + raw)
				}
			}
			if atom.Lookup(name) == atom.Pre {
				pre++
			}
		case html.EndTagToken:
			if atom.Lookup(name) == atom.Pre {
				pre--
				add(off + raw)
			} else if blockish[string(name)] && pre == 0 {
				add(off)
				add(off + raw)
			}
		}
		off += raw
	}
	add(len(s))
	return pos
}

// apartJudge: two words are apart in the output exactly if they are in the
// document.
func apartJudge(c Conf) func() eng.Judge {
	return func() eng.Judge {
		cv := newConv(c)
		return func(state string) *eng.Fail {
			in := numberWords(state)
			doc, err := html.Parse(strings.NewReader(in))
			if err != nil {
				return nil
			}
			type rel struct{ apart, near bool }
			var rels []rel
			var words []string
			apart, code, emph, skip := true, false, false, false
			var f func(*html.Node)
			f = func(n *html.Node) {
				switch {
				case n.Type == html.TextNode:
					for i := 0; i < len(n.Data); i++ {
						if n.Data[i] == 'w' {
							k := i + 1
							for k < len(n.Data) && n.Data[k] >= '0' && n.Data[k] <= '9' {
								k++
							}
							words = append(words, n.Data[i:k])
							rels = append(rels, rel{apart, nearCode(n)})
							apart = false
							i = k - 1
						} else {
							apart = true
						}
					}
				case n.Type == html.ElementNode && removedByDefault[n.Data]:
				case n.Type == html.ElementNode:
					code = code || n.Data == "code"
					emph = emph || emphases[n.Data]
					bl := blockish[n.Data]
					if bl {
						apart = true
					}
					if t := textOf(n); n.Data == "code" && strings.TrimSpace(t) != t {
						skip = true // whitespace at the edges of code
					}
					for c := n.FirstChild; c != nil; c = c.NextSibling {
						f(c)
					}
					if bl {
						apart = true
					}
				default:
					for c := n.FirstChild; c != nil; c = c.NextSibling {
						f(c)
					}
				}
			}
			if f(doc); skip {
				return nil
			}
			md, err := convert(cv, in)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			end := 0
			for i, w := range words {
				p := strings.Index(md[end:], w)
				if p < 0 {
					return &eng.Fail{What: "a word is missing: " + w, Output: md}
				}
				between := md[end : end+p]
				if i > 0 {
					ws := strings.ContainsAny(between, " \n\t")
					if ws && strings.Contains(between, "![](/u)") {
						ws = strings.ContainsAny(strings.ReplaceAll(between, "![](/u)", ""), " \n\t")
					}
					if rels[i].apart && !ws {
						return &eng.Fail{What: fmt.Sprintf("%s and %s came together", words[i-1], w), Output: md}
					}
					// Emphasis next to code is moved apart on purpose.
					if !rels[i].apart && ws && !(code && emph && (rels[i].near || rels[i-1].near)) {
						return &eng.Fail{What: fmt.Sprintf("%s and %s came apart", words[i-1], w), Output: md}
					}
				}
				end += p + len(w)
			}
			return nil
		}
	}
}

var emphases = map[string]bool{"b": true, "em": true, "i": true, "strong": true}

// nearCode: the text stands in code, or in emphasis with code in it.
func nearCode(n *html.Node) bool {
	for p := n.Parent; p != nil; p = p.Parent {
		if p.Data == "code" || emphases[p.Data] && hasElement(p, "code") {
			return true
		}
	}
	return false
}

// phrasing: formatting, links, code and headings hold no blocks.
func phrasing(stack []string, tok string) bool {
	if len(stack) > 0 && tok != "</>" {
		// Lists hold items only, tables hold rows and cells.
		switch stack[len(stack)-1] {
		case "ul", "ol":
			return tok == "<li>" || tok == gap || tok == " " || tok == "\n"
		case "table", "tbody":
			return tok == "<tr>" || tok == "<caption>" || tok == "<tbody>" || tok == gap || tok == " "
		case "tr":
			return tok == "<td>" || tok == "<th>" || tok == gap || tok == " "
		}
		if tok == "<li>" || tok == "<tr>" || tok == "<td>" || tok == "<th>" || tok == "<tbody>" || tok == "<caption>" {
			return false
		}
	}
	if !strings.HasPrefix(tok, "<") || tok[1] == '/' || tok[1] == '!' || tok == "<br>" {
		return tok != "<br>" || !slices.Contains(stack, "code")
	}
	if !blockish[strings.FieldsFunc(tok, func(r rune) bool { return r == '<' || r == '>' || r == ' ' })[0]] {
		return true
	}
	for _, s := range stack {
		switch s {
		case "b", "em", "a", "code", "del", "h2":
			return false
		}
	}
	return true
}

func init() {
	inl := []string{"a", gap, "<b>", "<em>", `<a href="/u">`, "<code>", "<span>", "<br>", `<img src="/u">`, "</>"}
	blk := []string{"a", gap, "<p>", "<div>", "<ul>", "<li>", "<ol>", "<h2>", "<blockquote>", "<hr>", "<b>", "<span>", "</>"}
	mixed := []string{"a", gap, "<p>", "<div>", "<b>", `<a href="/u">`, "<code>", "<br>", "<ul>", "<li>", "<h2>", "<blockquote>", "<span>", "<em>", `<img src="/u">`, "<x-y>", "<del>", "<hr>", "<pre>b \n c</pre>", "<!--c-->", "<script>s</script>", "</>"}
	noGap := without(mixed, gap)
	tbl := []string{"a", gap, "<table>", "<tr>", "<td>", "<th>", "<caption>", "<tbody>", "<b>", "<p>", "<br>", "</>"}
	words := []string{"W", gap[:0] + " ", "\n", "<p>", "<div>", "<b>", `<a href="/u">`, "<code>", "<br>", "<ul>", "<li>", "<h2>", "<blockquote>", "<span>", "<em>", `<img src="/u">`, "<x-y>", "<del>", "<!--c-->", "<script>s</script>", "<table>", "<tr>", "</>"}
	two := []string{"<p>W@W</p>", "<p>W<b>W@W</b>W</p>", "<ul><li>W@W</li></ul>", "<blockquote>W@W</blockquote>", "<h3>W@W</h3>", `<p><a href="/u">W@W</a></p>`}
	g, gt := gapsJudge(Conf{}), gapsJudge(Conf{Table: true, Strike: true})
	b, bt := bordersJudge(Conf{}), bordersJudge(Conf{Table: true, Strike: true})
	a := apartJudge(Conf{})
	eng.Register(&eng.Check{
		ID: "C08", NewJudge: g,
		Rule: "equal output for every filling of the gaps, for whitespace added at block boundaries; words apart in the output iff apart in the document",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				TreeSpaceF("gaps-inline", inl, t.N(5, 6), []string{"<p>@</p>"}, phrasing, nil),
				TreeSpaceF("gaps-blocks", blk, t.N(5, 6), []string{"@"}, phrasing, nil),
				TreeSpaceF("gaps-mixed", mixed, t.N(4, 5), []string{"a·@·a"}, phrasing, nil),
				TreeSpaceF("gaps-twice", without(mixed, "<!--c-->", "<script>s</script>", "<x-y>"), t.N(3, 4), []string{"<div>a@</div><div>@a</div>", "<ul><li>@</li><li>@</li></ul>", "@<p>a</p>@"}, phrasing, nil),
				SizeSpace("gaps-sizes", sizeGaps, t.N(34, 105), nil),
				{Name: "runs", Bound: "whitespace of 7 kinds, one to 65538 times, in 7 documents", NewJudge: runsJudge, Enum: func(emit func(string) bool) {
					for _, n := range sizes(t.N(16386, 65538)) {
						for _, d := range []string{"<p>a·b</p>", "<p>a·<b>b</b>·</p>·<p>·c</p>", "<ul>·<li>·a·b</li>·</ul>", "<h2>a·b</h2>", `<p><a href="/u">a·b</a></p>`, "<table>·<tr>·<td>a·b</td>·</tr>·</table>", "<p>a·<!--c-->·b</p>"} {
							if n > 0 && !emit(strconv.Itoa(n)+sep+d) {
								return
							}
						}
					}
				}},
				SizeSpace("borders-sizes", sizeBlocks, t.N(14, 67), b),
				TreeSpaceF("gaps-table", tbl, t.N(5, 6), []string{"@"}, phrasing, gt),
				TreeSpaceF("borders", noGap, t.N(4, 5), []string{"@"}, phrasing, b),
				TreeSpaceF("borders-text", noGap, t.N(3, 4), []string{"a@a", "<div>a@a</div>"}, phrasing, b),
				TreeSpaceF("borders-table", without(tbl, gap), t.N(5, 6), []string{"a@"}, phrasing, bt),
				TreeSpaceF("apart", words, t.N(3, 4), []string{"W@W", "<blockquote>W@W</blockquote>"}, func(stack []string, tok string) bool {
					// A span with blocks in it counts as a block.
					return phrasing(stack, tok) && (!slices.Contains(stack, "span") || phrasing([]string{"b"}, tok))
				}, a),
				TreeSpaceF("apart-code", []string{"W", "W<em>W</em>W", "<b><code>W</code></b>", "<b>", "<span>", "<i>", "<code>", `<a href="/u">`, "</>"}, t.N(5, 6), two[:1], phrasing, a),
				TreeSpaceF("apart-inline", []string{"W", " ", "\n", "<b>", `<a href="/u">`, "<code>", "<br>", "<span>", "<em>", `<img src="/u">`, "<x-y>", "<del>", "<!--c-->", "<script>s</script>", "</>"}, t.N(4, 5), two, phrasing, a),
			}
		},
	})
}

package props

import (
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

var wordRe = regexp.MustCompile(`w\d+|h\d+`)

// numberWords gives every W a number of its own.
func numberWords(s string) string {
	var b strings.Builder
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == 'W' {
			n++
			b.WriteString("w" + strconv.Itoa(n))
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// removedByDefault is the documented set of elements that are not for readers.
var removedByDefault = map[string]bool{"#comment": true, "head": true, "script": true, "style": true, "link": true, "meta": true, "iframe": true, "noscript": true, "input": true, "textarea": true}

// visibleWords: the words of the text a reader sees, in document order.
func visibleWords(n *html.Node, removed map[string]bool, out *[]string) {
	name := n.Data
	switch n.Type {
	case html.CommentNode:
		name = "#comment"
	case html.TextNode:
		if removed["#text"] {
			return
		}
		*out = append(*out, wordRe.FindAllString(n.Data, -1)...)
		return
	case html.DocumentNode, html.DoctypeNode:
		name = "#other"
	}
	if removed[name] {
		return
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		visibleWords(c, removed, out)
	}
}

// wordsJudge: exactly the visible words come out, each once and in order.
func wordsJudge(mk func() *converter.Converter, removed map[string]bool) func() eng.Judge {
	return func() eng.Judge {
		cv := mk()
		return func(state string) *eng.Fail {
			in := numberWords(state)
			doc, err := html.Parse(strings.NewReader(in))
			if err != nil {
				return nil
			}
			var exp []string
			visibleWords(doc, removed, &exp)
			md, err := convert(cv, in)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			got := wordRe.FindAllString(md, -1)
			if fmt.Sprint(got) != fmt.Sprint(exp) {
				return &eng.Fail{What: "not exactly the words a reader sees", Expected: fmt.Sprint(exp), Got: fmt.Sprint(got), Output: md}
			}
			return nil
		}
	}
}

func with(m map[string]bool, add []string, del []string) map[string]bool {
	o := map[string]bool{}
	for k := range m {
		o[k] = true
	}
	for _, a := range add {
		o[a] = true
	}
	for _, d := range del {
		delete(o, d)
	}
	return o
}

func without(l []string, del ...string) []string {
	return slices.DeleteFunc(slices.Clone(l), func(s string) bool { return slices.Contains(del, s) })
}

func init() {
	std := wordsJudge(func() *converter.Converter { return newConv(Conf{}) }, removedByDefault)
	full := wordsJudge(func() *converter.Converter { return newConv(Conf{Strike: true, Table: true}) }, removedByDefault)
	noesc := wordsJudge(func() *converter.Converter { return newConv(Conf{NoEsc: true}) }, removedByDefault)
	remove := wordsJudge(func() *converter.Converter {
		c := newConv(Conf{})
		c.Register.TagType("b", converter.TagTypeRemove, converter.PriorityStandard)
		c.Register.TagType("x-y", converter.TagTypeRemove, converter.PriorityLate)
		c.Register.TagType("div", converter.TagTypeRemove, converter.PriorityEarly)
		c.Register.TagType("li", converter.TagTypeRemove, converter.PriorityEarly)
		c.Register.TagType("code", converter.TagTypeBlock, converter.PriorityStandard)
		c.Register.TagType("code", converter.TagTypeRemove, converter.PriorityStandard-1)
		return c
	}, with(removedByDefault, W("b x-y div li code"), nil))
	noText := wordsJudge(func() *converter.Converter {
		c := newConv(Conf{})
		c.Register.TagType("#text", converter.TagTypeRemove, converter.PriorityStandard)
		return c
	}, with(removedByDefault, W("#text"), nil))
	noContainer := wordsJudge(func() *converter.Converter {
		c := newConv(Conf{Strike: true, Table: true})
		for _, n := range W("td tbody a") {
			c.Register.TagType(n, converter.TagTypeRemove, converter.PriorityStandard)
		}
		return c
	}, with(removedByDefault, W("td tbody a"), nil))
	keep := wordsJudge(func() *converter.Converter {
		c := newConv(Conf{})
		c.Register.TagType("textarea", converter.TagTypeInline, converter.PriorityEarly)
		c.Register.TagType("noscript", converter.TagTypeBlock, converter.PriorityStandard-1)
		c.Register.TagType("style", converter.TagTypeInline, converter.PriorityStandard) // comes too late
		c.Register.TagType("iframe", converter.TagTypeBlock, converter.PriorityLate)     // comes too late
		c.Register.TagType("p", converter.TagTypeInline, converter.PriorityEarly)
		c.Register.TagType("span", converter.TagTypeBlock, converter.PriorityEarly)
		return c
	}, with(removedByDefault, nil, W("textarea noscript")))
	hidden := []string{"<script>W</script>", "<style>W</style>", "<textarea>W</textarea>", "<noscript>W<b>W</b></noscript>", "<iframe>W</iframe>", "<!--W-->", `<input value="W">`, `<link title="W">`, `<meta content="W">`}
	kept := []string{"W", " ", "<p>", "<div>", "<b>", "<span>", "<x-y>", "<ul>", "<li>", "<code>", "</>"}
	wide := append(append([]string{}, hidden...), "W", " ", "<p>", "<div>", "<b>", "<em>", "<span>", "<x-y>", "<ul>", "<ol>", "<li>", "<code>", "<pre>", `<a href="/u">`, "<a>", "<h1>", "<h4>", "<blockquote>", "<table>", "<tr>", "<td>", "<section>", "<button>", "<select>", "<option>", "<label>", "<dl>", "<dt>", "<dd>", "<del>", "<br>", "<hr>", "<svg>", "<title>", "<form>", "<template>", "<video>", "<object>", "<q>", "<!DOCTYPE html>", "<?W?>", "</>")
	seq := append(append([]string{}, hidden...), "W", "<p>W</p>", "<b>W</b>", "<ul><li>W</li></ul>")
	short := []string{"<script>W</script>", "<!--W-->", "<textarea>W</textarea>", "W", " ", "<div>", "<b>", "<ul>", "<li>", "</>"}
	pages := []string{"<html><head>@</head><body>W</body></html>", "<html><head><title>W</title>@</head><body>W@</body></html>@W", "<!--W--><html><!--W--><head></head><!--W-->@<body>@W</body></html><!--W-->"}
	inside := []string{"<table><tr>@<td>W@W</td>@</tr>@</table>", "<ul>@<li>W@</li>@</ul>", "<pre>W@W</pre>", "<p>W<code>W@W</code>W</p>", `<p>W<a href="/u">@W@</a>W</p>`, "<h2>@W@</h2>", "<blockquote>@<p>W@</p></blockquote>", "<p>W<b>@W</b>@<b>W@</b>W</p>", "<dl><dt>W@</dt>@<dd>@W</dd></dl>", "<select>@<option>W</option></select>", "<svg>@</svg>"}
	all := func(ws []string, alpha []string, n int) func(func(string) bool) {
		return func(emit func(string) bool) {
			Strings(alpha, n, []string{"@"})(func(s string) bool {
				for _, w := range ws {
					if !emit(strings.ReplaceAll(w, "@", s)) {
						return false
					}
				}
				return true
			})
		}
	}
	eng.Register(&eng.Check{
		ID: "C07", NewJudge: std,
		Rule: "the words of the output are the words outside removed elements, each once and in order",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				TreeSpace("wide", wide, t.N(3, 4), []string{"@"}, nil),
				TreeSpace("wide-table", without(wide, "<svg>", "<template>"), t.N(3, 4), []string{"<table><tr><td>W</td><td>@</td></tr></table>"}, full),
				SizeSpace("sizes", sizeRemoved, t.N(4100, 16386), nil),
				SizeSpace("sizes-table", sizeRemoved, t.N(1100, 2050), full),
				TreeSpace("deep", short, t.N(6, 7), []string{"@"}, nil),
				StrSpace("siblings", seq, t.N(4, 5), []string{"@", "<p>@</p>"}, nil),
				{Name: "places", Bound: boundStr(seq, t.N(3, 4), append(append([]string{}, pages...), inside...)) + " (every @)", Enum: all(append(append([]string{}, pages...), inside...), seq, t.N(3, 4))},
				{Name: "places-table", Bound: boundStr(seq, t.N(2, 3), inside) + " (every @)", Enum: all(inside, seq, t.N(2, 3)), NewJudge: full},
				{Name: "places-noescape", Bound: boundStr(seq, t.N(2, 3), inside) + " (every @)", Enum: all(inside, seq, t.N(2, 3)), NewJudge: noesc},
				TreeSpace("user-remove", append(append([]string{}, kept...), hidden[:4]...), t.N(4, 5), []string{"@"}, remove),
				TreeSpace("user-remove-text", append(append([]string{}, kept...), hidden[:4]...), t.N(3, 4), []string{"@"}, noText),
				TreeSpace("user-remove-containers", W(`W ␠ <p> <ul> <li> <a> <b> <table> <tr> <td> <th> <tbody> <thead> <!--W--> </>`), t.N(3, 4), []string{"@", "<table><tr>@<td>W</td></tr></table>"}, noContainer),
				// code never shows these three
				TreeSpaceF("user-keep", append(append([]string{}, kept...), hidden[:6]...), t.N(4, 5), []string{"@"}, func(stack []string, tok string) bool {
					return !(strings.HasPrefix(tok, "<textarea") || strings.HasPrefix(tok, "<noscript")) || !slices.Contains(stack, "code")
				}, keep),
			}
		},
	})
}

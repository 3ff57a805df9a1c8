package props

import (
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

// words stand for texts in the documents of C18: nothing in them is special.
// "①" is the place of the first text, "②" of the second.
type slots struct {
	doc   string
	cells string // which texts stand in table cells
}

var c18docs = []slots{
	{"<p>①</p>", ""}, {"①", ""}, {"<p>① ②</p>", ""}, {"<p>①<br>②</p>", ""}, {"<p>①</p><p>②</p>", ""},
	{"<h1>①</h1>", ""}, {"<h2>①</h2>②", ""}, {"<h3>① <em>②</em></h3>", ""}, {"<h6>①</h6><h5>②</h5>", ""}, {"<h1>①<br>②</h1>", ""},
	{"<p>a <em>①</em> b</p>", ""}, {"<p>a <b>①</b> ②</p>", ""}, {"<p>① <em>a <b>②</b> c</em></p>", ""}, {"<p>a <s>①</s> ②</p>", ""}, {"<p><i>①<br>②</i></p>", ""},
	{"<p>a<span>①</span>b<span>②</span>c</p>", ""}, {"<p><!--x-->①<!--y--></p>", ""},
	{"<a href=/u>①</a>", ""}, {"<p>① <a href=/u title=t>②</a> x</p>", ""}, {"<a href=/u>①<br>②</a>", ""}, {"<a>①</a>②", ""}, {"<a href=/u><p>①</p><p>②</p></a>", ""},
	{"<p>① <img src=/i alt=a> ②</p>", ""}, {"<p>① <code>c</code> ②</p>", ""}, {"<p>①</p><hr><p>②</p>", ""}, {"①<pre>c</pre>②", ""},
	{"<ul><li>①</li><li>②</li></ul>", ""}, {"<ol start=9><li>①</li><li>②</li></ol>", ""}, {"<ul><li>①<ul><li>②</ul></ul>", ""}, {"<ul><li><p>①</p><p>②</p></ul>", ""}, {"<ul><li>①</ul><ul><li>②</ul>", ""}, {"<ol><li><pre>c</pre>①</ol>②", ""},
	{"<blockquote>①</blockquote>②", ""}, {"<blockquote><p>①</p><blockquote>②</blockquote></blockquote>", ""}, {"<blockquote><ul><li>①</ul>②</blockquote>", ""}, {"<ul><li><blockquote>①<br>②</blockquote></ul>", ""}, {"<blockquote><h2>①</h2><h3>②</h3></blockquote>", ""},
	{"<div>①<div>②</div></div>", ""}, {"<dl><dt>①<dd>②</dl>", ""}, {"<center>①</center>②", ""},
	{"<table><tr><th>①<th>a<tr><td>b<td>②</table>", "①②"}, {"<table><tr><th>a<tr><td>①<br>②</table>", "preserve"}, {"<table><caption>①</caption><tr><th>a<tr><td>②</table>", "②"}, {"<table><tr><th><em>①</em><tr><td><a href=/u>②</a></table>", "①②"}, {"<table><tr><th>a<tr><td rowspan=2>①<tr><td>②</table>", "①②"}, {"<ul><li>①<table><tr><th>b<tr><td>②</table></ul>", "②"}, {"<table><tr><td><p>①<table><tr><td>②</table></table>", "②"},
}

// asText is what a text looks like without escaping.
func asText(s string) string {
	s = strings.ReplaceAll(strings.ReplaceAll(s, "<", "&lt;"), ">", "&gt;")
	return s
}
func htmlText(s string) string { return html.EscapeString(s) }

// asWord is a word with nothing special in it, as wide as the text.
func asWord(s string, r rune) string {
	return strings.Repeat(string(r), max(1, utf8.RuneCountInString(s)))
}

var c18confs = []Conf{
	{Name: "default", NoEsc: true},
	{Name: "plugins", NoEsc: true, Strike: true, Table: true},
	{Name: "setext", NoEsc: true, Strike: true, Table: true, Cm: []commonmark.OptionFunc{commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext), commonmark.WithBulletListMarker("*"), commonmark.WithEmDelimiter("_"), commonmark.WithStrongDelimiter("__"), commonmark.WithCodeBlockFence("~~~")}},
	{Name: "tables", NoEsc: true, Extra: func() []converter.Plugin {
		return []converter.Plugin{strikethrough.NewStrikethroughPlugin(strikethrough.WithDelimiter("~")), table.NewTablePlugin(table.WithNewlineBehavior(table.NewlineBehaviorPreserve), table.WithPresentationTables(true), table.WithHeaderPromotion(true), table.WithCellPaddingBehavior(table.CellPaddingBehaviorNone), table.WithSpanCellBehavior(table.SpanBehaviorMirror))}
	}},
}

var widths = regexp.MustCompile(`( |-|=)[-= ]*`)

var nextLine = regexp.MustCompile(`(?m)^([> ]*(?:\*|-))\n[> ]*([-*][-* ]*)$`)

// noescText: state = conf, doc, text 0, text 1.
func noescText() eng.Judge {
	cvs := make([]*converter.Converter, len(c18confs))
	for i, c := range c18confs {
		cvs[i] = newConv(c)
	}
	base := map[string]string{}
	return func(state string) *eng.Fail {
		p := strings.Split(state, sep)
		ci, _ := strconv.Atoi(p[0])
		di, _ := strconv.Atoi(p[1])
		d, c := c18docs[di], c18confs[ci]
		t := p[2:]
		cells := d.cells
		if cells == "preserve" && c.Extra != nil {
			cells = "①②"
		} else if !c.Table && c.Extra == nil {
			cells = ""
		}
		fill := func(a, b string) string {
			return strings.NewReplacer("①", a, "②", b).Replace(d.doc)
		}
		want := make([]string, 2)
		for i := range want {
			want[i] = asText(t[i])
			if strings.Contains(cells, string("①②"[3*i:3*i+3])) {
				want[i] = escPipes(want[i])
			}
		}
		w0, w1 := asWord(want[0], 'ж'), asWord(want[1], 'щ')
		key := p[0] + sep + p[1] + sep + w0 + sep + w1
		plain, ok := base[key]
		if !ok {
			var err error
			plain, err = convert(cvs[ci], fill(w0, w1))
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			base[key] = plain
		}
		exp := strings.NewReplacer(w0, want[0], w1, want[1]).Replace(plain)
		in := fill(htmlText(t[0]), htmlText(t[1]))
		got, err := convert(cvs[ci], in)
		if err != nil {
			return &eng.Fail{What: "error: " + err.Error()}
		}
		if strings.Contains(state, "\a") {
			// it has no width, at least not everywhere
			got, exp = widths.ReplaceAllString(got, "$1"), widths.ReplaceAllString(exp, "$1")
		}
		// an item that looks like a rule starts on the next line
		got, exp = nextLine.ReplaceAllString(got, "$1 $2"), nextLine.ReplaceAllString(exp, "$1 $2")
		if got != exp {
			return &eng.Fail{What: "the text is not written as it is (" + c.Name + ": " + in + ")", Expected: exp, Output: got}
		}
		return nil
	}
}

// escPipes: a "|" would end the cell, so that one needs a backslash.
func escPipes(s string) string {
	out, n := "", 0
	for i := range len(s) {
		r := s[i]
		if r == '|' && n%2 == 0 {
			out += `\`
		}
		if r == '\\' {
			n++
		} else {
			n = 0
		}
		out += s[i : i+1]
	}
	return out
}

// noescMarkup: a document without anything to escape comes out the same with
// and without escaping.
func noescMarkup(c Conf) func() eng.Judge {
	return func() eng.Judge {
		on, off := c, c
		on.NoEsc, off.NoEsc = false, true
		a, b := newConv(on), newConv(off)
		return func(in string) *eng.Fail {
			x, err := convert(a, in)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			y, err := convert(b, in)
			if err != nil {
				return &eng.Fail{What: "error without escaping: " + err.Error()}
			}
			if x != y {
				return &eng.Fail{What: "there is nothing to escape, but it comes out differently without escaping", Expected: x, Output: y}
			}
			return nil
		}
	}
}

func c18texts(alpha []string, n int) []string {
	var l []string
	Strings(alpha, n, []string{"@"})(func(s string) bool {
		if s != "" && strings.TrimSpace(s) == s && !strings.Contains(s, "  ") {
			l = append(l, s)
		}
		return true
	})
	return l
}

func c18enum(texts, seconds []string) func(func(string) bool) {
	return func(emit func(string) bool) {
		for _, a := range texts {
			for _, b := range seconds {
				for di, d := range c18docs {
					if !strings.Contains(d.doc, "②") && b != seconds[0] {
						continue
					}
					for ci := range c18confs {
						if !emit(strconv.Itoa(ci) + sep + strconv.Itoa(di) + sep + a + sep + b) {
							return
						}
					}
				}
			}
		}
	}
}

func init() {
	one := append(strings.Split("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", ""), "é", "世", "a", "7", " ", "\u00a0", "\u200b")
	few := W("* _ ` # - + > < [ ] ( ! \\ | ~ & = 7. a ␠")
	eng.Register(&eng.Check{
		ID: "C18",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				{Name: "one", Bound: "all texts of at most 2 characters over ASCII punctuation and some others", NewJudge: noescText,
					Enum: c18enum(c18texts(one, t.N(2, 2)), []string{"z", "*", "#"})},
				{Name: "reserved", Bound: "the characters that the converter uses itself, in a paragraph and a heading", NewJudge: noescText, Enum: func(emit func(string) bool) {
					for _, text := range []string{"\a", "a\ab", "\a#", "\uf002", "a\uf002b"} {
						for _, doc := range []string{"0", "5"} {
							if !emit("0" + sep + doc + sep + text + sep + "z") {
								return
							}
						}
					}
				}},
				{Name: "bytes", Bound: "all texts of at most 3 of some characters and bytes that are no character", NewJudge: noescText, Enum: c18enum(c18texts([]string{"a", "*", "#", "\xff", "\xc3", "\xa9", "\xe4\xb8", "\xef\xbb\xbf", "\x7f", "\x01"}, t.N(3, 4)), []string{"z"})},
				{Name: "few", NewJudge: noescText, Enum: c18enum(c18texts(few, t.N(3, 4)), []string{"z"})},
				{Name: "two", NewJudge: noescText, Enum: c18enum(c18texts(few, t.N(1, 2)), c18texts(few, t.N(2, 2)))},
				SizeSpace("sizes", append(append(append([]string{}, sizeInlines...), sizeBlocks...), without(sizeCode, "<p>«`»<code>a</code></p>")...), t.N(130, 1100), noescMarkup(Conf{Table: true, Strike: true})),
				TreeSpace("markup", W("<p> <h1> <em> <b> <code> <a␠href=/u> <ul> <ol> <li> <blockquote> <pre> </> <br> <hr> a"), t.N(4, 5), []string{"@", "<p>b</p>@c"}, noescMarkup(Conf{Table: true, Strike: true})),
				StrSpace("code", W("` ~ * _ < \\ | # - & ␠ a"), t.N(4, 5), []string{"<p>a <code>@</code> b", "<pre>@</pre>", "<ul><li><code>@</code></ul>", "<table><tr><th><code>@</code></table>", "<blockquote><pre><code>@</code></pre>", "<a href=/u><code>@</code></a>"}, noescMarkup(Conf{Table: true, Strike: true})),
			}
		},
	})
}

package props

import (
	"fmt"
	"regexp"
	"strings"

	"vmc/canon"
	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
)

// roundJudge converts, renders and converts again. Strict: the Markdown has to
// be the same. Otherwise it may come to rest after a few rounds, without the
// content changing.
func roundJudge(c Conf, opt canon.Options, strict bool) func() eng.Judge {
	return func() eng.Judge {
		cv, gm := newConv(c), gmFor(c)
		return func(in string) *eng.Fail {
			md, err := convert(cv, in)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			if _, ok := canon.Observe(in, opt); !ok {
				return nil
			}
			back := render(gm, md)
			md2, err := convert(cv, back)
			if err != nil {
				return &eng.Fail{What: "error the second time: " + err.Error()}
			}
			if md == md2 {
				return nil
			}
			if strict {
				return &eng.Fail{What: "not the same the second time", Expected: md, Got: md2, Output: back}
			}
			seen := canon.OfString(back, opt).String()
			for i, last := 0, md2; ; i++ {
				back := render(gm, last)
				if now := canon.OfString(back, opt).String(); now != seen {
					return &eng.Fail{What: "the content changes", Expected: seen, Got: now, Output: md + "\n----\n" + last}
				}
				next, err := convert(cv, back)
				if err != nil {
					return &eng.Fail{What: "error in a later round: " + err.Error()}
				}
				if next == last {
					return nil
				}
				if i == 2 {
					return &eng.Fail{What: "it does not come to rest", Expected: last, Got: next, Output: back}
				}
				last = next
			}
		}
	}
}

// cmConf is a combination of the commonmark options.
type cmConf struct {
	Bullet, Rule, Fence, Heading, Em, Strong string
	NoComment                                bool
}

func cmConfs() []cmConf {
	var l []cmConf
	for _, b := range []string{"-", "+", "*"} {
		for _, r := range []string{"***", "---", "_ _ _"} {
			for _, f := range []string{"```", "~~~"} {
				for _, h := range []string{"atx", "setext"} {
					for _, e := range []string{"*", "_"} {
						for _, s := range []string{"**", "__"} {
							l = append(l, cmConf{b, r, f, h, e, s, false})
						}
					}
				}
			}
		}
	}
	return append(l, cmConf{"-", "***", "```", "atx", "*", "**", true}, cmConf{"*", "---", "~~~", "setext", "_", "__", true})
}

func (o cmConf) conf() Conf {
	return Conf{Table: true, Strike: true, Cm: []commonmark.OptionFunc{
		commonmark.WithBulletListMarker(o.Bullet), commonmark.WithHorizontalRule(o.Rule), commonmark.WithCodeBlockFence(o.Fence),
		headingOf(o.Heading), commonmark.WithEmDelimiter(o.Em), commonmark.WithStrongDelimiter(o.Strong),
		commonmark.WithListEndComment(!o.NoComment),
	}}
}

func (o cmConf) opt() canon.Options {
	return canon.Options{HeadingBreakIsSpace: true, Tables: true, EmUnderscore: o.Em == "_", StrongUnderscore: o.Strong == "__"}
}

func init() {
	confs := cmConfs()
	def := confs[0]
	round := func(strict bool) func() eng.Judge { return roundJudge(def.conf(), def.opt(), strict) }
	all := func(name string, n string, strict bool, enum func(func(string) bool)) eng.Space {
		return eng.Space{Name: name, Bound: fmt.Sprintf("%s, in all %d configurations", n, len(confs)), Enum: perConf(len(confs), enum),
			NewJudge: confJudge(confs, func(o cmConf) func() eng.Judge { return roundJudge(o.conf(), o.opt(), strict && !o.NoComment) })}
	}
	blockMacros := []string{
		"<p>a</p>", "<p>a<br>b</p>", "<h1>a</h1>", "<h2>b</h2>", "<h6>c</h6>", "<hr>", "<pre><code>a\n\n b\n</code></pre>", "<pre><code class=\"language-go\">```</code></pre>", "<pre><code class=\"language-x\">~~~\n````</code></pre>",
		"<ul><li>a</li></ul>", "<ul><li>a</li><li>b</li></ul>", "<ul><li><p>a</p></li><li><p>b</p><p>c</p></li></ul>", "<ol><li>a</li><li>b</li></ol>", "<ol start=\"9\"><li>a</li><li>b</li></ol>", "<ul><li>a<ul><li>b<ol><li>c</li></ol></li></ul></li></ul>", "<ul><li>a<pre><code>b</code></pre></li></ul>", "<ol><li>a<blockquote><p>b</p></blockquote></li></ol>",
		"<blockquote><p>a</p></blockquote>", "<blockquote><p>a</p><ul><li>b</li></ul></blockquote>", "<blockquote><blockquote><p>a</p></blockquote><p>b</p></blockquote>", "<table><tr><th>a</th><th>b</th></tr><tr><td>c</td><td>d|e</td></tr></table>", "<p><img src=\"/i.png\" alt=\"a\"></p>",
	}
	inlineMacros := []string{"a", " ", "<b>b</b>", "<i>c</i>", "<b>b<i>d</i></b>", "<del>e</del>", "<code>f</code>", "<code>`</code>", `<a href="/u">g</a>`, `<a href="/u?a=1&amp;b" title="t">g</a>`, `<img src="/i" alt="h">`, "<br>", "&amp;", "&lt;i>", "1.", "#"}
	inline := []string{"a", " ", "*", "<b>", "<i>", "<code>", `<a href="/u">`, "<br>", "</>"}
	blankCode := regexp.MustCompile(`<code>(<[^c/][^>]*>|</[^c][^>]*>| )*</code>`)
	special := split(`a * _ [ ] ( ) # + - . 1 > < &amp; | ~ \ ! : = "`)
	special = append(special, "`", " ", "<br>", "&#10;", "http://x.y", "&amp;lt;", "x@y.z")
	eng.Register(&eng.Check{
		ID:       "C24",
		Rule:     "the Markdown of a document, rendered by an independent CommonMark renderer and converted again, has to be the same (well formed documents) or to come to rest within three rounds without the content changing (all documents)",
		NewJudge: round(false),
		Spaces: func(t eng.Tier) []eng.Space {
			n := t.N(0, 1)
			noBlocks := func(stack []string, tok string) bool {
				for _, s := range stack {
					if s == "h2" && tok[0] == '<' && tok != "</>" && tok != "<b>" || s == "pre" && tok[0] == '<' && tok != "</>" {
						return false
					}
				}
				return true
			}
			return []eng.Space{
				StrSpace("text", special, 3+n, W("<p>@</p> <ul><li>@</li></ul> <h2>@</h2> <p><b>x@</b></p> <blockquote>@</blockquote>"), round(true)),
				StrSpace("text-places", special, 2+n, W(`<p>a<br>@</p> <ol><li>a</li><li>@</li></ol> <h1>@</h1><p>@</p> <p><a␠href="/u">@</a></p> <table><tr><th>a</th><th>@</th></tr><tr><td>@</td><td>@</td></tr></table> <p><code>@</code></p> <p><img␠src="/i"␠alt="@"></p> <ul><li>a<p>@</p>@</li></ul>`), round(false)),
				StrSpace("attributes", W("a ␠ &quot; ' & &amp;amp; &amp;lt; \\ ( ) [ ] < * ` | # ! é"), 3+n, W(`<p><a␠href="/u"␠title="@">x</a></p> <p><img␠src="/u"␠title="@"␠alt="y"></p> <p><img␠src="/u"␠alt="@"></p> <ul><li><a␠href="/u"␠title="a&#10;@">x</a></li></ul>`), round(false)),
				StrSpace("attributes-links", W("a &quot; ' & &amp;amp; &amp;lt; \\ ( ) [ < * ` %20 # ? = é /"), 3+n, W(`<p><a␠href="/u@">x</a></p> <p><img␠src="@"></p>`), round(false)),
				SizeSpace("sizes", append(append(append([]string{}, sizeTexts...), sizeBlocks...), sizeCode...), t.N(130, 1100), round(false)),
				SizeSpace("sizes-inline", append(append([]string{}, sizeInlines...), sizeAttrs...), t.N(130, 1100), round(false)),
				StrSpace("code", []string{"a", "`", "``", "\n", " ", "~~~", "*", "\\", "&amp;lt;", "    b"}, 4+n, []string{"<pre><code>a@</code></pre>"}, round(true)),
				StrSpace("code-inside", []string{"a", "`", "``", "\n", " ", "~~~", "*", "\\", "&amp;lt;", "    b"}, 4+n, []string{"<ul><li><pre><code class=\"language-x\">@a</code></pre></li></ul>"}, round(false)),
				StrSpace("block-macros", blockMacros, 3+n, []string{"@"}, round(true)),
				StrSpace("block-macros-inside", blockMacros, 2+n, []string{"<ul><li>@</li><li>@</li></ul>", "<ol start=\"98\"><li>@</li><li>z</li><li>@</li></ol>", "<blockquote>@</blockquote>", "<blockquote><ol><li>@</li></ol></blockquote>", "<ul><li><ul><li>@</li></ul></li></ul>"}, round(false)),
				StrSpace("inline-macros", inlineMacros, 4+n, []string{"<p>@</p>"}, round(false)),
				all("configurations", "all sequences of up to 2 blocks", true, Strings(blockMacros, 2, []string{"@"})),
				all("configured-trees", "all trees of up to 4 tokens", false, Trees([]string{"a", "<p>", "<ul>", "<li>", "<blockquote>", "<h2>", "<hr>", "<b>", "<i>", "</>"}, 4+n, []string{"@"}, noBlocks)),
				all("configured-text", "all texts of up to 2 tokens", false, Strings(special, 2, []string{"<p>@</p>", "<p>a<br>@</p>", "<ul><li>@</li></ul>"})),
				{Name: "inline", Bound: boundTree(inline, 6+n, []string{"<p>@</p>"}) + ", without blank code in formatting", NewJudge: round(false), Enum: func(emit func(string) bool) {
					Trees(inline, 6+n, []string{"<p>@</p>"}, nil)(func(s string) bool {
						return blankCode.MatchString(s) && (strings.Contains(s, "<b>") || strings.Contains(s, "<i>")) || emit(s)
					})
				}},
				TreeSpaceF("blocks", []string{"a", "<p>", "<ul>", "<ol>", "<li>", "<blockquote>", "<pre>", "<h2>", "<hr>", "</>"}, 6+n, []string{"@"}, noBlocks, round(false)),
				TreeSpace("lists", []string{"a", "<p>", "<ul>", "<ol start=\"9\">", "<li>", "</>"}, 7+n+n, []string{"@"}, round(false)),
				TreeSpaceF("tables", []string{"a", "<table>", "<tr>", "<td>", "<th>", "<b>", "<p>", "</>"}, 6+n+n, []string{"@"}, nil, round(false)),
			}
		},
	})
}

func headingOf(s string) commonmark.OptionFunc {
	if s == "setext" {
		return commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext)
	}
	return commonmark.WithHeadingStyle(commonmark.HeadingStyleATX)
}

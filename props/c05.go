package props

import (
	"strings"

	"vmc/canon"
	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"golang.org/x/net/html"
)

func init() {
	opt := canon.Options{HeadingBreakIsSpace: true}
	j := fidelity(Conf{}, opt)
	jt := fidelity(Conf{Cm: []commonmark.OptionFunc{commonmark.WithCodeBlockFence("~~~")}}, opt)
	chars := W("a ␠ ` ~ \\ * # - &gt; &lt; &amp; | [ _")
	chars = append(chars, "\n", "\t", "  ")
	macro := []string{"a", "\n", "\n\n", "\n\n\n\n", "    a", "\t", "```", "~~~", "````", "~~~~", "`````", "``", "`", "~", "\n```\n", "\n~~~\n", "&lt;/pre&gt;", "&amp;amp;", "\n- a", "\n# a", "\n&gt; a", " \n ", "<b>a</b>", "<span>a</span>", "<b><code>a</code></b>", "<a href=\"/u\">a</a>", "<br>", "é", "1. ", "* * *", "**a**", "[a](b)", "\\*", "THE END", "  \n", "&#13;", "&#13;&#10;"}
	ctx := []string{"<pre>@</pre>", "<pre><code>@</code></pre>", "x<pre>@</pre>y"}
	ctx2 := []string{"<ul><li><pre>@</pre></li></ul>", "<blockquote><pre>@</pre></blockquote>", "<ol><li>a</li><li>b<pre>@</pre>c</li></ol>", "<ul><li><blockquote><pre>@</pre></blockquote></li></ul>", "<blockquote><ul><li><pre>@</pre></li></ul></blockquote>", "<blockquote><blockquote><pre>@</pre></blockquote></blockquote>", "<ul><li>a<ul><li><pre>@</pre></li></ul></li></ul>", "<div><pre class=\"language-go\">@</pre></div><div><pre>@</pre></div>", "<pre><div>@</div></pre>", "<pre><tt>@</tt></pre>"}
	in := W("a ␠ ` `` ``` ~ \\ * _ [ ] &lt; &gt; # | ! &amp;")
	in = append(in, "\n", "&#13;")
	ictx := []string{"<p><code>@</code></p>", "<p>x<code>@</code>y</p>"}
	ictx2 := []string{"<p>x <kbd>@</kbd> y <tt>@</tt></p>", "<h2><code>@</code></h2>", "<ul><li><code>@</code></li></ul>", "<p><a href=\"/u\"><code>@</code></a></p>", "<p><b>x <code>@</code> y</b></p>", "<blockquote><samp>@</samp></blockquote>", "<p>x<br><var>@</var></p>", "<p>`<code>@</code></p>", "<p><code>@a</code><code>b</code></p>", "<p>[<code>@</code>](/u)</p>"}
	names := W("a abbr audio b bdi bdo big button canvas cite data del dfn em font i ins kbd label mark math meter output picture progress q rp rt ruby s samp small span strike strong sub sup time tt u var x-y svg title desc text foreignObject g")
	var inner []string
	for _, n := range names {
		inner = append(inner, "<"+n+">foo</"+n+">", "<svg><"+n+">foo</"+n+"></svg>", "<span><"+n+">foo</"+n+"></span>")
	}
	eng.Register(&eng.Check{
		ID: "C05", NewJudge: j,
		Rule: "canon(html) == canon(goldmark(output)); block code is compared character by character",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				StrSpace("names", inner, 1, []string{"<pre>a @ b</pre>", "<pre><code>a @ b</code></pre>", "<p>x <code>a @ b</code> y</p>"}, nil),
				StrSpace("detached", append(W("a ␠ ` ~ * _ &lt; &amp; \\"), "\n"), t.N(3, 4), []string{"<pre>@</pre>", "<pre class=\"language-go\">@</pre>", "<pre><code class=\"lang-go\">x@</code></pre>", "<pre class=\"lang-c\"><code>@x</code></pre>", "<code>x@x</code>", "<blockquote><pre class=\"language-go\">x@</pre></blockquote>", "<ul><li><pre class=\"lang-go\">x@</pre></li></ul>"}, detachedJudge(opt)),
				StrSpace("block", chars, t.N(4, 5), []string{"<pre>x@</pre>"}, nil),
				StrSpace("block-ctx", chars, t.N(2, 3), append(append([]string{}, ctx...), ctx2...), nil),
				StrSpace("block-macros", macro, t.N(2, 3), append(append([]string{}, ctx...), ctx2...), nil),
				StrSpace("block-tilde", macro, t.N(2, 3), append(append([]string{}, ctx...), ctx2...), jt),
				StrSpace("block-runs", runs("`"), t.N(5, 6), []string{"<pre>@</pre>", "<ul><li><pre>x@</pre></li></ul>"}, nil),
				StrSpace("block-runs-tilde", runs("~"), t.N(5, 6), []string{"<pre>@</pre>", "<blockquote><pre>x@</pre></blockquote>"}, jt),
				StrSpace("inline-runs", runs("`"), t.N(5, 6), []string{"<p><code>x@x</code></p>", "<h2>a<code>x@</code></h2>"}, nil),
				StrSpace("twice", macro, t.N(2, 3), []string{"<pre>@</pre><pre>@</pre>", "<pre>@</pre>a<pre>@</pre>", "<ul><li><pre>@</pre></li><li><pre>@</pre></li></ul>"}, nil),
				StrSpace("inline-twice", in, t.N(2, 3), []string{"<p><code>@</code> <code>@</code></p>", "<p><code>@</code></p><p><code>@</code></p>"}, nil),
				StrSpace("inline-text", append(W("a ␠ ` ``` <br> \\"), "<code>c</code>", "<code>`</code>", "<code>a``</code>"), t.N(5, 6), []string{"<p>@</p>", "<h2>@</h2>", "<ul><li>@</li></ul>"}, nil),
				SizeSpace("sizes", sizeCode, t.N(2100, 9000), nil),
				SizeSpace("sizes-tilde", sizeCode, t.N(260, 2100), jt),
				StrSpace("inline", in, t.N(4, 5), ictx[:1], nil),
				StrSpace("inline-ctx", in, t.N(2, 3), append(append([]string{}, ictx...), ictx2...), nil),
			}
		},
	})
}

// detachedJudge: the element is no part of a document.
func detachedJudge(opt canon.Options) func() eng.Judge {
	return func() eng.Judge {
		cv, gm := newConv(Conf{}), gmFor(Conf{})
		return func(in string) *eng.Fail {
			doc, err := html.Parse(strings.NewReader(in))
			if err != nil {
				return nil
			}
			body := find(doc, "body")[0]
			n := body.FirstChild
			if n == nil || n.NextSibling != nil {
				return nil
			}
			exp, ok := canon.Observe(in, opt)
			if !ok {
				return nil
			}
			body.RemoveChild(n)
			md, err := cv.ConvertNode(n)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			if got := canon.OfString(render(gm, string(md)), opt).String(); exp != got {
				return &eng.Fail{What: "the rendered Markdown of the element alone does not say what the HTML said", Expected: exp, Got: got, Output: string(md)}
			}
			return nil
		}
	}
}

// runs of fence characters of every length around the threshold.
func runs(c string) []string {
	l := []string{"a", "\n"}
	for _, n := range []int{1, 2, 3, 4, 5, 6} {
		l = append(l, strings.Repeat(c, n))
	}
	return l
}

package props

import (
	"bytes"
	"fmt"
	"regexp"
	"slices"
	"strings"

	"vmc/canon"
	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/yuin/goldmark/ast"
	east "github.com/yuin/goldmark/extension/ast"
	"github.com/yuin/goldmark/text"
	"golang.org/x/net/html"
)

// cmOpts is a combination of the options of the commonmark and the
// strikethrough plugin.
type cmOpts struct {
	Em, Strong, Rule, Bullet, Fence, Strike string
	Setext, NoEnd, SkipHref, SkipContent    bool
}

var defaultOpts = cmOpts{Em: "*", Strong: "**", Rule: "* * *", Bullet: "-", Fence: "```", Strike: "~~"}

// choose builds the product of the given values; what is not given stays at
// its default.
func choose(f ...func(cmOpts) []cmOpts) []cmOpts {
	l := []cmOpts{defaultOpts}
	for _, g := range f {
		var n []cmOpts
		for _, o := range l {
			n = append(n, g(o)...)
		}
		l = n
	}
	return l
}

func vary[T any](set func(*cmOpts, T), vals ...T) func(cmOpts) []cmOpts {
	return func(o cmOpts) []cmOpts {
		var l []cmOpts
		for _, v := range vals {
			c := o
			set(&c, v)
			l = append(l, c)
		}
		return l
	}
}

var (
	vEm      = vary(func(o *cmOpts, v string) { o.Em = v }, "*", "_")
	vStrong  = vary(func(o *cmOpts, v string) { o.Strong = v }, "**", "__")
	vRule    = vary(func(o *cmOpts, v string) { o.Rule = v }, "* * *", "***", "---", "- - -", "___", "_ _ _", "*****")
	vBullet  = vary(func(o *cmOpts, v string) { o.Bullet = v }, "-", "+", "*")
	vFence   = vary(func(o *cmOpts, v string) { o.Fence = v }, "```", "~~~")
	vStrike  = vary(func(o *cmOpts, v string) { o.Strike = v }, "~~", "~")
	vSetext  = vary(func(o *cmOpts, v bool) { o.Setext = v }, false, true)
	vNoEnd   = vary(func(o *cmOpts, v bool) { o.NoEnd = v }, false, true)
	vHref    = vary(func(o *cmOpts, v bool) { o.SkipHref = v }, false, true)
	vContent = vary(func(o *cmOpts, v bool) { o.SkipContent = v }, false, true)
)

func (o cmOpts) conf() Conf {
	style, href, content := commonmark.HeadingStyleATX, commonmark.LinkBehaviorRender, commonmark.LinkBehaviorRender
	if o.Setext {
		style = commonmark.HeadingStyleSetext
	}
	if o.SkipHref {
		href = commonmark.LinkBehaviorSkip
	}
	if o.SkipContent {
		content = commonmark.LinkBehaviorSkip
	}
	return Conf{
		Cm: []commonmark.OptionFunc{
			commonmark.WithEmDelimiter(o.Em), commonmark.WithStrongDelimiter(o.Strong), commonmark.WithHorizontalRule(o.Rule), commonmark.WithBulletListMarker(o.Bullet), commonmark.WithCodeBlockFence(o.Fence),
			commonmark.WithHeadingStyle(style), commonmark.WithListEndComment(!o.NoEnd), commonmark.WithLinkEmptyHrefBehavior(href), commonmark.WithLinkEmptyContentBehavior(content),
		},
		Extra: func() []converter.Plugin {
			return []converter.Plugin{strikethrough.NewStrikethroughPlugin(strikethrough.WithDelimiter(o.Strike))}
		},
	}
}

// asOptions applies the link options to the HTML. It also says if the skipped
// links stand between text: formatting that meets across the border of a
// skipped link is not joined (known_findings.json).
func (o cmOpts) asOptions(in string) (string, bool) {
	if !o.SkipHref && !o.SkipContent {
		return in, true
	}
	clean := true
	formatted := func(n *html.Node) bool {
		return n != nil && n.Type == html.ElementNode && n.Data != "br" && n.Data != "a"
	}
	doc, _ := html.Parse(strings.NewReader(in))
	var f func(*html.Node)
	f = func(n *html.Node) {
		for c := n.FirstChild; c != nil; {
			next := c.NextSibling
			f(c)
			if c.Data == "a" && c.Type == html.ElementNode {
				href := ""
				for _, a := range c.Attr {
					if a.Key == "href" {
						href = strings.TrimSpace(a.Val)
					}
				}
				empty := strings.TrimSpace(textOf(c)) == "" && !hasElement(c, "img")
				if o.SkipHref && href == "" || o.SkipContent && empty {
					if formatted(c.FirstChild) || formatted(c.LastChild) || c.FirstChild == nil && (formatted(c.PrevSibling) || formatted(c.NextSibling)) {
						clean = false
					}
					for c.FirstChild != nil {
						k := c.FirstChild
						c.RemoveChild(k)
						n.InsertBefore(k, c)
					}
					n.RemoveChild(c)
				}
			}
			c = next
		}
	}
	f(doc)
	var b bytes.Buffer
	html.Render(&b, doc)
	return b.String(), clean
}

func hasElement(n *html.Node, name string) bool {
	if n.Type == html.ElementNode && n.Data == name {
		return true
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if hasElement(c, name) {
			return true
		}
	}
	return false
}

// marks says which construct is not written with what was chosen.
func (o cmOpts) marks(d ast.Node, src string) string {
	bad := ""
	ast.Walk(d, func(n ast.Node, in bool) (ast.WalkStatus, error) {
		if !in || bad != "" {
			return ast.WalkContinue, nil
		}
		at := ""
		if p := n.Pos(); p >= 0 && p < len(src) {
			at = src[p:]
		}
		line, _, _ := strings.Cut(at, "\n")
		switch n := n.(type) {
		case *ast.Emphasis:
			if n.Level == 1 && at[:1] != o.Em || n.Level == 2 && at[:1] != o.Strong[:1] {
				bad = "emphasis written as " + at
			}
		case *ast.ThematicBreak:
			if line != o.Rule {
				bad = "a rule written as " + line
			}
		case *ast.List:
			if m := string(n.Marker); m != o.Bullet && !n.IsOrdered() || n.IsOrdered() && m != "." {
				bad = "a list with the marker " + m
			}
		case *ast.FencedCodeBlock:
			if !strings.HasPrefix(line, o.Fence) {
				bad = "a fence written as " + line
			}
		case *ast.CodeBlock:
			bad = "an indented code block"
		case *ast.Heading:
			if setext := !atxLine.MatchString(line); setext != (o.Setext && n.Level <= 2) {
				bad = fmt.Sprintf("a heading of level %d written as %s", n.Level, line)
			}
		case *ast.HTMLBlock:
			if o.NoEnd || line != "<!--THE END-->" {
				bad = "HTML written as " + line
			}
		case *ast.RawHTML:
			bad = "HTML in a paragraph"
		case *east.Strikethrough:
			if run := len(line) - len(strings.TrimLeft(line, "~")); run != len(o.Strike) {
				bad = "strikethrough written as " + line
			}
		}
		return ast.WalkContinue, nil
	})
	return bad
}

var atxLine = regexp.MustCompile(`^#{1,6}( |$)`)

var spaceless = strings.NewReplacer("<!--THE END-->", "", " ", "", "\n", "", ">", "")

// An item that has only a list end is an empty item without it, and those are
// left out, which changes the numbers of the later ones.
var loneListEnd = regexp.MustCompile(`(?m)^[> ]*(?:(?:[-+*]|\d+[.)]) +)+<!--THE END-->$`)

var itemMarkers = regexp.MustCompile(`(?m)^[> ]*(?:(?:[-+*]|\d+[.)]) +)*`)

func listEndText(md string) string {
	return spaceless.Replace(itemMarkers.ReplaceAllString(md, ""))
}

func optionsJudge(o cmOpts) func() eng.Judge { return optionsJudgeOf(o, false) }

func optionsJudgeOf(o cmOpts, all bool) func() eng.Judge {
	return func() eng.Judge {
		on := o
		on.NoEnd = false
		cv, gm := newConv(o.conf()), gmFor(Conf{Strike: true})
		cvOn := newConv(on.conf())
		opt := canon.Options{HeadingBreakIsSpace: true, EmUnderscore: o.Em == "_", StrongUnderscore: o.Strong == "__", NormAttr: func(_, v string) string { return strings.TrimSpace(v) }}
		return func(in string) *eng.Fail {
			md, err := convert(cv, in)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			merged := false
			if o.NoEnd {
				other, _ := convert(cvOn, in)
				merged = strings.Contains(other, "<!--THE END-->")
				if s, m := listEndText(other), listEndText(md); spaceless.Replace(other) != spaceless.Replace(md) && (!loneListEnd.MatchString(other) || s != m) {
					return &eng.Fail{What: "without list ends something else changes, too", Expected: other, Got: md}
				}
			}
			as, clean := o.asOptions(in)
			exp, ok := canon.Observe(as, opt)
			if all {
				ok, clean = true, true
			}
			if ok && !merged && clean {
				if got := canon.OfString(render(gm, md), opt).String(); exp != got {
					return &eng.Fail{What: "the rendered Markdown does not say what the HTML said", Expected: exp, Got: got, Output: md}
				}
			}
			if ok {
				if s := o.marks(gm.Parser().Parse(text.NewReader([]byte(firstRule(md)))), md); s != "" {
					return &eng.Fail{What: s, Output: md}
				}
			}
			return nil
		}
	}
}

// listPairs are two lists with something between, which is empty.
var listPairs = []string{"<ul><li>x</li></ul>@<ul><li>y</li></ul>", "<ol><li>x</li></ol>@<ol><li>y</li></ol>", "<ul><li>x</li></ul>@<ol><li>y</li></ol>", "<blockquote><ul><li>x</li></ul>@<ul><li>y</li></ul></blockquote>", "<div><ul><li>x</li></ul></div>@<ul><li>y</li></ul>"}

var emptyBetween = func() (l []string) {
	for _, x := range W("a span b i em u s del code abbr x-y") {
		l = append(l, "<"+x+"></"+x+">", "<"+x+"> </"+x+">", "<"+x+"><!--c--></"+x+">")
	}
	l = append(l, `<a href="/u"></a>`, `<a href=""></a>`, `<a href="/u"> </a>`, "<p></p>", "<div></div>", "<!--c-->", "<script>s</script>", " ", "<hr>", "<p><a href=\"/u\"></a></p>", "<br>")
	return
}()

func init() {
	space := func(name string, confs []cmOpts, bound string, enum func(func(string) bool)) eng.Space {
		return eng.Space{Name: name, Bound: fmt.Sprintf("%d combinations of options with %s", len(confs), bound), Enum: perConf(len(confs), enum), NewJudge: confJudge(confs, optionsJudge)}
	}
	p := []string{"<p>@</p>"}
	every := choose(vEm, vStrong, vRule, vBullet, vFence, vStrike, vSetext, vNoEnd, vHref, vContent)
	docs := []string{
		"<h1>a</h1><h2>b</h2><h3>c</h3><hr><p>d</p>", "<h1>a<br>b</h1><p>c</p><h2>d <em>e</em></h2>", "<blockquote><h1>a</h1><hr><h2>b</h2></blockquote>", "<ul><li><h2>a</h2><hr>b</li><li><hr></li></ul>",
		"<ul><li>a</li><li>b<ul><li>c</li></ul></li></ul><hr><ol><li>d</li></ol>", "<ul><li>a</li></ul><ul><li>b</li></ul>", "<ol><li>a</li></ol><ol><li>b</li></ol><ul><li>c</li></ul>", "<blockquote><ul><li>a</li></ul><ul><li>b</li></ul></blockquote>",
		"<p>a <em>b</em> <strong>c <em>d</em></strong> <em>e <b>f</b></em></p>", "<p><del>a</del> <b><s>b</s></b> <em>c</em></p>", "<p>x <em><a href=\"/u\">b</a></em> <b><code>c</code></b></p>",
		"<pre>a\n\nb</pre><ul><li><pre>c</pre></li></ul>", "<pre>a```b</pre><pre>~~~</pre><pre><code class=\"language-go\">x</code></pre>",
		"<p>a <a href=\"\">b</a> <a href=\"/u\">c</a> <a href=\"/u\"></a>d</p>", "<p><a href=\"/u\"><img src=\"/i\"></a> <a href=\" \"><b>x</b></a></p>", "<p>*a* _b_ ~c~ # - + --- *** ___ ``` ~~~</p>", "<p>*</p><p>-</p><p>+</p><p>- a</p><p>* a</p><p>+ a</p><p>***</p><p>---</p><p>- - -</p><p>___</p><p>===</p><p>~~~</p><p>```</p><p># a</p>",
		"<p>a<br>---<br>b<br>===</p>", "<p>a<a href=\"/u\"><br></a>b</p>", "<p>a<a href=\"/u\"><br><br></a>b <a href=\"/v\"><b><br></b></a> c</p>", "<p>a <a href=\"/u\">&nbsp;</a>b</p>", "<p>a <a href=\"/u\"> <!--c--> <span> </span></a>b</p>", "<h2>---</h2><h1>===</h1><h2>- a</h2><h1>1. b</h1><h2># c</h2><h1>&gt; d</h1><h2>***</h2>", "<ul><li>- a</li><li>* b</li><li>+ c</li><li>---</li></ul>",
	}
	known := []string{"2\x1f<p><code>c</code><a href=\"\"><code>c</code></a></p>", "1\x1f<p><b>c</b><a href=\"/u\"></a><b>d</b></p>"}
	blocks := []string{"a", "<h1>b</h1>", "<h2>c</h2>", "<h3>d</h3>", "<hr>", "<pre>e</pre>", "<ul>", "<ol>", "<li>", "<blockquote>", "</>"}
	inl := append(W("a ␠ <em> <b> <del> <br> </>"), `<a href="/u">`, `<a href="">`, "<code>c</code>")
	heads := append(W("a ␠ - = # * 1. &gt; + ` <br> <b> <em> </>"), "<code>c</code>", "\n")
	var infos []string
	for _, i := range W("a~b ~~~ ~ &amp;lt; a&amp;ouml;b c++ c# f&amp;g \\ \\* &lt;h&gt; a_b * - 世 é a:b a=b {k} [l] a|b") {
		infos = append(infos, "<pre><code class=\"language-"+i+"\">x</code></pre>", "<pre class=\"lang-"+i+"\">x\n```\n~~~</pre>", "<ul><li><pre><code class=\"language-"+i+"\">x</code></pre></li></ul>")
	}
	inlOK := func(stack []string, tok string) bool {
		// links hold text, emphasis and code; not links, breaks
		if inA := len(stack) > 0 && slices.Contains(stack, "a"); inA && (strings.HasPrefix(tok, "<a") || tok == "<br>") {
			return false
		}
		return noNest("del")(stack, tok)
	}
	eng.Register(&eng.Check{
		ID:       "C17",
		Rule:     "for every combination: canon(html) == canon(goldmark(output)); every construct of the parsed output is written with the chosen marker; without list ends nothing but them is missing",
		NewJudge: confJudge(every, optionsJudge),
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				{Name: "known", Bound: "documents known to fail", Enum: list(known), NewJudge: confJudge(every, func(o cmOpts) func() eng.Judge { return optionsJudgeOf(o, true) })},
				space("product", every, boundStr(docs, 1, []string{"@"}), Strings(docs, 1, []string{"@"})),
				space("infos", choose(vFence, vBullet), boundStr(infos, 1, []string{"@", "<blockquote>@</blockquote>"}), Strings(infos, 1, []string{"@", "<blockquote>@</blockquote>"})),
				space("between", choose(vBullet, vNoEnd, vHref, vContent), boundStr(emptyBetween, 2, listPairs), Strings(emptyBetween, 2, listPairs)),
				space("sizes", choose(vBullet, vSetext, vFence, vNoEnd), "large blocks", Sizes(append(append([]string{}, sizeBlocks...), sizeCode...), sizes(t.N(12, 130)))),
				space("sizes-inline", choose(vEm, vStrong, vHref), "long inlines", Sizes(sizeInlines, sizes(t.N(12, 130)))),
				space("blocks", choose(vRule, vBullet, vSetext, vNoEnd), boundTree(blocks, t.N(4, 5), []string{"@"}), Trees(blocks, t.N(4, 5), []string{"@"}, blockOK)),
				space("blocks-fence", choose(vBullet, vSetext, vFence), boundTree(blocks, t.N(5, 6), []string{"@"}), Trees(blocks, t.N(5, 6), []string{"@"}, blockOK)),
				space("inline", choose(vEm, vStrong, vStrike, vHref, vContent), boundTree(inl, t.N(4, 5), p), Trees(inl, t.N(4, 5), p, inlOK)),
				space("headings", choose(vSetext, vEm, vStrong), boundTree(heads, t.N(4, 5), []string{"<h1>@</h1>", "<ul><li><h2>@</h2></li></ul>", "<blockquote>a<h2>@</h2>b</blockquote>"}), Trees(heads, t.N(4, 5), []string{"<h1>@</h1>", "<ul><li><h2>@</h2></li></ul>", "<blockquote>a<h2>@</h2>b</blockquote>"}, nil)),
			}
		},
	})
}

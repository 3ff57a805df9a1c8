package props

import (
	"regexp"
	"strconv"
	"strings"

	"vmc/canon"
	"vmc/eng"
)

func oneSpace(s string) string { return strings.Join(strings.Fields(s), " ") }

// normAttr: what a reader sees of an attribute. Whitespace counts as one
// space; an address is compared without its percent-encoding (how addresses
// are resolved is the subject of C06).
var emptyHost = regexp.MustCompile(`^([^/?#]*)://([?#])`)

func normAttr(kind, v string) string {
	switch kind {
	case "href", "src":
		v = strings.Trim(v, " \t\r\n\f")
		// "+" is a space in a query; "x://?" has an empty host
		v = strings.ReplaceAll(emptyHost.ReplaceAllString(v, "$1:$2"), "+", " ")
		v = strings.Trim(pctDecode(v), " \t\r\n\f")
		return strings.TrimRight(v, "# \t\r\n\f") // an empty fragment
	case "lang":
		// The fence cannot hold a backtick.
		return strings.ReplaceAll(v, "`", "")
	}
	return oneSpace(v)
}

// pctDecode decodes all valid escapes and keeps everything else.
func pctDecode(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			if v, err := strconv.ParseUint(s[i+1:i+3], 16, 8); err == nil {
				b.WriteByte(byte(v))
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func init() {
	opt := canon.Options{HeadingBreakIsSpace: true, NormAttr: normAttr}
	j := fidelity(Conf{}, opt)
	topt := opt
	topt.Tables = true
	jt := fidelity(Conf{Table: true, Strike: true}, topt)
	chars := W("a ␠ &quot; ' \\ ( ) [ ] &lt; &gt; ` * _ # | ~ &#10; &#13; ! $ é &nbsp;")
	macro := W("a ␠ &quot; ' \\ ](/x) [b](/y) ![c](/z) &lt;/a&gt; &lt;b&gt; &#10;&#10; &#10;#␠h &#10;-␠i &#10;``` &#13;&#13; **d** `e` \\&quot; \\\\ (f) &quot;) ') &lt;http://g&gt; http://h ~~k~~ | [l] [l]:␠m &#9;")
	altc := W("a ␠ &quot; ' \\ ( ) [ ] &lt; &gt; ` # ~ &#10; &#13; ! é")
	altm := W("a ␠ \\ ](/x) [b](/y) ![c](/z) &lt;/a&gt; &lt;b&gt; &#10;&#10; &#10;#␠h &#10;-␠i &#10;``` &#13;&#13; `e` \\\\ (f) ] [ [l] &lt;http://g&gt; | ~~")
	hrefc := W("a / ? # % %20 = + ␠ ( ) [ ] &lt; &gt; \\ &quot; ' * _ ` ~ | : . é &#10; ;")
	lang := W("a - + # ` ~ \\ * _ [ ] ( ) . &quot; ' $ { } language- lang- é |")
	titles := []string{`<p><a href="/u" title="@">a</a></p>`, `<p>x<a href="/u" title="@"><img src="/i" title="@"></a>y</p>`}
	tctx := []string{`<p>"<a href="/u" title="@">a</a>") [</p>`, `<ul><li><a href="/u" title="@">a</a></li></ul>`, `<blockquote><img src="/i" title="@">b</blockquote>`, `<h1><a href="/u" title="@">a</a></h1>`,
		`<p><b><a href="/u" title="@">a</a></b></p>`, `<p><a title="@">a</a></p>`, `<p><a href="/u" title="@">a<br>b</a></p>`}
	table := []string{`<table><tr><th><a href="/u" title="@">a</a></th><th>b</th></tr><tr><td>c</td><td><img src="/i" title="@"></td></tr></table>`}
	alts := []string{`<p><img src="/i" alt="@"></p>`, `<p>x<a href="/u"><img src="/i" alt="@" title="t">b</a>y</p>`}
	actx := []string{`<ul><li><img src="/i" alt="@">b</li></ul>`, `<blockquote><img src="/i" alt="@"></blockquote>`, `<h2><img src="/i" alt="@"> b</h2>`, `<p>[<img src="/i" alt="@">](/u)</p>`}
	hrefs := []string{`<p><a href="/a@">a</a></p>`, `<p>x<img src="/a@" alt="z" title="t">y</p>`, `<p><a href="b@b">a</a></p>`, `<ul><li><a href="data:@" title="t">a</a></li></ul>`, `<p>(<a href="http://h/a@">a</a>)</p>`}
	langs := []string{`<pre><code class="language-@">x</code></pre>`, `<ul><li><pre><code class="lang-@b">x</code></pre></li></ul>`, `<blockquote><pre class="language-c@">x

y</pre></blockquote>`}
	eng.Register(&eng.Check{
		ID: "C02", NewJudge: j,
		Rule: "canon(html) == canon(goldmark(output)), attribute values included",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				StrSpace("same", []string{"cat", " ", "é", "/u", "x", "."}, t.N(3, 4), []string{`<p><img src="/i" alt="@" title="@"></p>`, `<p>@<img src="/i" alt="x" title="@">@</p>`, `<p><a href="/u" title="@">@</a></p>`, `<p><a href="/@" title="@">b</a></p>`,
					`<p><img src="/@" alt="@" title="/@"></p>`, `<p><a href="/@" title="/@">@</a> <a href="/@">@</a></p>`, `<p><a href="/u" title="@"><img src="/u" alt="@" title="@"></a></p>`, `<ul><li><img src="/i" alt="@" title="@"></li></ul>`}, nil),
				StrSpace("title", chars, t.N(3, 4), titles, nil),
				StrSpace("title-ctx", chars, 2, tctx, nil),
				StrSpace("title-macros", macro, t.N(2, 3), append(append([]string{}, titles...), tctx...), nil),
				SizeSpace("sizes", sizeAttrs, t.N(4100, 70000), nil),
				StrSpace("title-table", chars, t.N(2, 3), table, jt),
				StrSpace("alt", altc, t.N(3, 4), alts, nil),
				StrSpace("alt-macros", altm, t.N(2, 3), append(append([]string{}, alts...), actx...), nil),
				StrSpace("href", hrefc, t.N(3, 4), hrefs, nil),
				StrSpace("lang", lang, t.N(3, 4), langs, nil),
			}
		},
	})
}

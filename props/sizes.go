package props

// Templates of large documents (see Sizes): thresholds, buffers, counters and
// caches in the code under test only show at a size that no tree of a few
// tokens has.

var (
	sizeTexts = inEach([]string{"<p>@</p>", "<ul><li>x</li><li>@</li></ul>", "<blockquote>a<br>@</blockquote>", "<h2>@</h2>"}, []string{
		"«a»", "«a »", "«*»", "a«*»", "«*»a«*»", "«*a»", "«*a* »", "«_»a«_»", "«_a»", "a«_»a", "«#»", "«#» a", "a «#»", "a«#»", "«-»", "«- »", "«=»", "«+»", "«+ »a", "«1»", "«1». a", "1«0») a", "«1. »", "«~»", "«~»a", "«`»", "«`»a«`»", "«`»a", "«a`»",
		"«\\»", "«\\»*", "«[»", "«]»", "«[»a«]»", "«[»a«]»(b)", "![«a»](b)", "[«a »](b)", "[a](«b»)", "«!»[a](b)", "a«|»", "«* »", "«_ »", "«>»", "«> »a", "«\"»", "«:»", "«(»", "«)»",
		"«a»*a*", "«a »*a*", "*«a»*", "*«a »a*", "«a»[a](b)", "«a»`a`", "`«a»`", "«a»_", "«é»*a*", "«é»# a", "«a»# a", "«a »# a", "« »# a", "a«<br>»# a", "a«<br>a»<br># a", "a«<br>»- a", "a<br>«=»", "a<br>«-»", "a<br>«a»<br>-", "«x»: *", "«*a*<br>»", "«`»«~»", "«&amp;»*a*", "<b>«a»</b>*a*", "«<b>a</b> »*a*", "«<span>»#«</span>» a", "«a\n»# a", "«<!--c-->»# a",
	})
	sizeAttrs = []string{
		`<p><a href="/u" title="«a»">a</a></p>`, `<p><a href="/u" title="«a »&quot;">a</a></p>`, `<p><a href="/u" title="«&quot;»">a</a></p>`, `<p><a href="/u" title="«'»">a</a></p>`, `<p><a href="/u" title="«'»«&quot;»">a</a></p>`, `<p><a href="/u" title="a«\»">a</a></p>`, `<p><a href="/u" title="«(»">a</a></p>`, `<p><a href="/u" title="«&#10;»a">a</a></p>`, `<p><a href="/u" title="«a&#10;»">a</a></p>`, `<p><img src="/i" title="«&quot;a»'"></p>`, `<p><a title="«a»">b</a></p>`,
		`<p><img src="/i" alt="«a»]"></p>`, `<p><img src="/i" alt="«a »]("></p>`, `<p><img src="/i" alt="«]»"></p>`, `<p><img src="/i" alt="a«[»"></p>`, `<p><img src="/i" alt="«\»"></p>`, `<p><img src="/i" alt="«[a]»(b)"></p>`, `<p><img src="/i" alt="«a&#10;»#b"></p>`,
		`<p><a href="/«a»">a</a></p>`, `<p><a href="/«(»">a</a></p>`, `<p><a href="/«)»">a</a></p>`, `<p><a href="/«a »b">a</a></p>`, `<p><a href="/a?«b=c&amp;»d">a</a></p>`, `<p><a href="/a#«b»">a</a></p>`, `<p><a href="/«%20»">a</a></p>`, `<p><a href="/«é»">a</a></p>`, `<p><a href="http://«a».b/(">a</a></p>`, `<p><a href="data:«a»,[">a</a></p>`, `<p><img src="/«a»)" alt="z"></p>`, `<p><img src="data:image/png;base64,«A»=="></p>`, `<p><a href="/a\«\»">a</a></p>`, `<p><a href="/«_»*«_»">a</a></p>`, `<p>«<a href="/u№" title="t№">a</a> »</p>`, `<p>«<img src="/u№" title="t№&quot;">a </p>»`,
		`<pre><code class="language-«a»">x</code></pre>`, `<pre><code class="«a »language-b">x</code></pre>`, `<pre class="«a » lang-b">x</pre>`, "<pre><code class=\"language-a«`»\">x</code></pre>",
	}
	sizeInlines = inEach([]string{"<p>@</p>", "<ul><li>@</li></ul>"}, []string{
		"«<b>a</b> »", "«<b>a»«</b>»", "«<i>a</i> »", "<b>«a »</b>", "<b>«a»</b>b", "<b>«a<br>»b</b>", "<i>«a<br>»b</i>", "<b>«<i>a</i> »b</b>", "<b>« »a«  »</b>b", "«<b> »a«</b>»b", "«<b>»a«</b>»", "«<i>»a«</i>»", "«<span>»<b>a</b>«</span>»b", "«<b>a</b>»", "«<i>a</i>»", "«<em>a</em><i>b</i>»", "«<b>a</b><i>b</i> »", "«<a href=\"/u\">b</a>»", "«<a href=\"/u\">b</a> »",
		"<a href=\"/u\">«a»</a>", "<a href=\"/u\">«a »b</a>", "<a href=\"/u\">«a<br>»b</a>", "<a href=\"/u\">«<b>a</b> »b</a>", "<b>«<a href=\"/u\">a</a> b »c</b>", "a«<br>»b", "«a<br>»b", "«<br>»b", "«<img src=\"/i\">»", "«<img src=\"/i\"><br>»a", "<code>«a»</code>", "<code>«a »b</code>", "<code>a«`»b</code>", "«<code>a</code> »", "<b>a«<code>b</code> »c</b>", "«a»<b>b</b>", "<b>a</b>«b»<b>c</b>", "«<b></b>»a", "«<i></i> »a", "<b>a</b>«<b></b>»<b>c</b>", "<b>a</b>« »<b>c</b>", "a<b>«<span></span>»b</b>", "<b>«<!--c-->»a</b>", "a<b>«\n»b</b>",
	})
	sizeBlocks = []string{
		"«<p>a</p>»<a href=\"/u\"><h2>b</h2></a>", "«<b>a</b> »<a href=\"/u\"><h2>b</h2></a>", "«<p>a</p>»<div><a href=\"/u\"><h3>c</h3></a></div><ul><li>d</li></ul>",
		"«<p>a</p>»", "«<h2>a</h2>»", "«<h1>a</h1><p>b</p>»", "<h3>«a »</h3>", "«<hr>»", "«<p>a</p><hr>»", "<p>«a »</p><p>b</p>", "«<pre>a\n\nb</pre>»", "«<div>»a«</div>»b", "«<div>a</div>»", "«<section><p>a</p></section>»", "«<p></p>»a", "a«<br>»b", "a«<div></div>»b", "«<span>»a«</span>»<p>b</p>",
		"<ul>«<li>a</li>»</ul>", "<ul>«<li>a<p>b</p></li>»</ul>", "<ul>«<li>a<ul><li>b</li></ul></li>»</ul>", "<ul>«<li></li>»<li>a</li></ul>", "<ul><li>«a<br>»b</li></ul>", "<ul><li>«<p>a</p>»</li><li>b</li></ul>", "<ul><li>«a »</li><li>b</li></ul>", "«<ul><li>a</li></ul>»", "«<ul><li>a</li></ul><p>b</p>»", "«<ul><li>»a«</li></ul>»", "<ul>«<li>a<pre>x\n\ny</pre></li>»</ul>", "<ul>«<li><h2>a</h2></li>»</ul>", "<ul>«\n <li>a</li>\n»</ul>",
		"<ol>«<li>a</li>»</ol>", "<ol>«<li>a<p>b</p></li>»</ol>", "<ol>«<li>a<ol><li>b</li></ol></li>»</ol>", "<ol><li>«<p>a</p>»</li><li>b</li></ol>", "«<ol><li>a</li></ol>»", "<ol start=\"5\">«<li>a<br>b</li>»</ol>", "<ol start=\"98\">«<li>a<pre>x\n\ny</pre></li>»</ol>", "<ol start=\"1«0»\"><li>a<p>b</p></li><li>c</li></ol>", "<ol start=\"«0»1\"><li>a</li></ol>", "«<ol><li>»a«</li></ol>»", "<ol>«<li>a</li>»</ol><ol>«<li>b</li>»</ol>", "<ul>«<li>a</li>»</ul><ul>«<li>b</li>»</ul>", "<ol>«<li>a<ul><li>b</li></ul><ul><li>c</li></ul></li>»</ol>",
		"«<p>a<br></p>»b", "«<p><br>a</p>»b", "«<div>a<br></div>»<p>b</p>", "<ul>«<li>a<br></li>»</ul>", "<blockquote>«<p>a<br></p>»</blockquote>", "«a<br><hr>»",
		"<blockquote>«<p>a</p>»</blockquote>", "<blockquote>«a<br>»b</blockquote>", "«<blockquote>a</blockquote>»", "«<blockquote>»a«</blockquote>»", "<blockquote>«a »</blockquote>", "<blockquote><ul>«<li>a</li>»</ul></blockquote>", "<blockquote><pre>«a\n\n»b</pre></blockquote>", "«<blockquote><ul><li>»a«</li></ul></blockquote>»", "«<!--c-->»a", "«<ul><li>a</li></ul>»«<ol><li>a</li></ol>»", "<div>«<p>a</p>»</div>«<p>b</p>»",
		"«<div>»<ul><li>a</li><ul><li>b</li></ul></ul>«</div>»", "«<section>»<ol><li>a</li><p>c</p></ol>«</section>»", "«<div>»<ul><li>a</li></ul><ul><li>b</li></ul>«</div>»", "«<span>»<h2>a</h2><p>b</p>«</span>»", "«<blockquote>»<ul><li>a</li><ol><li>b</li></ol></ul>«</blockquote>»", "«<div>»<ul><li>a<p>b</p></li><li>c</li></ul>«</div>»",
	}
	sizeCode = []string{
		"<p><code>«a»`b</code></p>", "<p><code>a`«b»</code></p>", "<p><code>«a»``«b»</code></p>", "<p><code>`«a»</code></p>", "<p><code>«a»`</code></p>", "<p>x <code>«a »`«b »c</code> y</p>", "<pre>«a»`«b»</pre>", "<pre>«a»\n```\n«b»</pre>", "<pre>«a»\n~~~\n«b»</pre>",
		"<pre>«abcdefgh<br>»b</pre>", "<pre>«abcdefghijklmno\n»b</pre>", "<pre>«<div>abcdefgh</div>»b</pre>", "<pre>«abcdefgh»<br>b<div>c</div>d</pre>", "<pre>«<b>abc</b> »<br>«d»</pre>", "<pre>«a»<br>«b»<br>`c`</pre>", "<pre>«a№<br>»b</pre>",
		"<pre>«a»</pre>", "<pre>«a\n»b</pre>", "<pre>a«\n»b</pre>", "<pre>«\n»b</pre>", "<pre>« »b</pre>", "<pre>a\n« »b</pre>", "<pre>a\n«\t»b</pre>", "<pre>«`»</pre>", "<pre>a\n«`»\nb</pre>", "<pre>«`\n»a</pre>", "<pre>«```\n»a</pre>", "<pre>a«`»</pre>", "<pre>«~»</pre>", "<pre>a\n«~»\nb</pre>", "<pre>«`a»\n«`»</pre>", "<pre>«&lt;»</pre>", "<pre>«\\»</pre>", "<pre>«&amp;lt;»</pre>", "<pre>«a »\n«b »</pre>", "<pre><code class=\"language-go\">«a {\n\n  b\n}\n\n»c</code></pre>", "<pre>«<span>a</span>»</pre>", "<pre>«<span>»a\n\nb«</span>»</pre>", "<pre>«<b>a</b>\n»b</pre>", "<pre>«a<br>»b</pre>", "<pre>a«<div>b</div>»</pre>",
		"<ul><li>a<pre>«a\n\n»b</pre></li></ul>", "<ol start=\"9\"><li>a</li><li><pre>«a\n\n»b</pre></li></ol>", "<blockquote><pre>«a\n\n»b</pre></blockquote>", "<ul><li><pre>«`»</pre></li></ul>", "<blockquote><pre>a\n«`»</pre></blockquote>", "«<pre>a\n\n\nb</pre>»", "«<pre>```</pre>»", "«<ul><li><pre>a\n\n\nb</pre></li></ul>»",
		"<p><code>«a»</code></p>", "<p><code>a«`»</code></p>", "<p><code>«`»a</code></p>", "<p><code>«`»</code></p>", "<p><code>«`a»</code></p>", "<p><code>«a `` »b</code></p>", "<p><code>«a\n»b</code></p>", "<p><code>a«\n»b</code></p>", "<p>«<code>a</code> »</p>", "<p>«<code>a`b</code> »</p>", "<p>«`»<code>a</code></p>", "<p>«a»<code>`</code></p>", "<p><code>a«<span>b</span>»</code></p>",
	}
)

var (
	// W is a word that has to come out, see numberWords.
	sizeRemoved = []string{"«W <b>W</b>»<script>W</script>W", "«<p>W</p>»W<!--W--><style>W</style>W", "<ul>«<li>W</li>»<script>W</script><li>W</li></ul>", "«<script>W</script>»W", "W«<!--W-->»W", "«<style>W</style>W»", "«<div>»<script>W</script>W«</div>»W", "«<script>W</script><p>W</p>»", "<p>W«<script>W</script><b>W</b>»</p>", "<head>«<meta content=W>»<title>W</title></head>W", "<ul>«<li>W<script>W</script></li><!--W-->»</ul>", "«W <noscript>W</noscript><iframe>W</iframe>»", "<form>«<input value=W>»«<textarea>W</textarea>»W</form>", "«<textarea>W</textarea>»W", "<script>«W »</script>W", "<!--«W »-->W", "«<i>»<!--W-->W<style>W</style>«</i>»W", "<pre>«W<script>W</script>\n»W</pre>", "<blockquote>«<script>W</script>»«<p>W</p>»</blockquote>", "«W<script>W</script>»", "<p>«W<!--W--> »</p>", "<table><tr>«<td>W<script>W</script></td>»</tr>«<tr><td>W<!--W--></td></tr>»</table>"}
	sizeGaps    = []string{"<p>a«·»b</p>", "<p>«a·»b</p>", "<p>a«·<b>b</b>·»c</p>", "<p>a·«<b>»b«</b>»·c</p>", "«·<p>·a·</p>·»", "<ul>·«<li>·a·b·</li>·»</ul>", "<p>a·«<span>·»b«</span>»c</p>", "<p>a·<!--«c·»-->·b</p>", "<p>a·«<!--c-->·»b</p>", "<p>a«·<br>·»b</p>", "<h2>«a·»b</h2>", "<blockquote>·«<p>a</p>·»</blockquote>", "<p>«<a href=\"/u\">a·b</a>·»</p>", "<div>·«<div>·a</div>·»·b</div>", "<p>a·<code>«b·»c</code>·d</p>", "<p>«<b>·</b>»·a</p>", "<p>a«<i>·</i>»b</p>"}
	sizeRefs    = []string{"«a/»b", "«a/»«../»b", "/«../»b", "«../»b", "«./»b", "/«a/»../«b/»", "?«a=b&amp;»c", "#«a»", "/«%20»", "/«a b»", "//«h».io/a", "http://h.io/«a/»..", "mailto:«a»@b", "data:,«a»", "«é»", "/a?«é»", "«a%2F»b", "/«/»a", "/a«;b»", "/a?«?»", "«&#10;»/a", "/a« »"}
)

var sizeTables = []string{
	"<table>«<tr><td>a№</td></tr>»</table>", "<table><tr>«<td>a№</td>»</tr></table>", "<table><tr>«<th>h№</th>»</tr>«<tr><td>a</td></tr>»</table>", "<table><tr><th>a</th></tr>«<tr>»«<td>№</td>»</tr></table>", "<table><tr><th>«a»</th><th>b</th></tr><tr><td>c</td><td>«b»</td></tr></table>", "<table><tr><th>a</th></tr><tr><td>«b »c</td></tr></table>", "<table><tr><th>a</th></tr><tr><td>«|»</td></tr></table>", "<table><tr><th>a</th></tr><tr><td>«é»</td></tr></table>", "<table><tr><th>a</th></tr><tr><td>«世»</td></tr></table>",
	"<table><tr><th>a</th><th>b</th></tr>«<tr><td>№</td></tr>»</table>", "<table>«<tr></tr>»<tr><th>a</th></tr>«<tr></tr>»<tr><td>b</td></tr></table>", "<table>«<thead><tr><th>№</th></tr></thead>»<tbody><tr><td>b</td></tr></tbody></table>", "<table>«<tbody><tr><td>№</td></tr></tbody>»<tfoot><tr><td>f</td></tr></tfoot></table>", "<table><tfoot>«<tr><td>№</td></tr>»</tfoot><tr><th>b</th></tr></table>",
	"<table><caption>«k »</caption><tr><th>a</th></tr></table>", "<table><tr>«<th align=left>a</th><th align=right>b</th><th align=center>c</th>»</tr><tr><td>d</td></tr></table>", "<table><tr><th>a</th></tr>«<tr><td colspan=2>№</td></tr>»</table>", "<table><tr>«<td rowspan=2>a№</td>»</tr><tr><td>b</td></tr></table>", "<table>«<tr><td rowspan=2>a№</td><td>b</td></tr><tr><td>c</td></tr>»</table>", "<table><tr>«<td colspan=2>a№</td>»</tr><tr><td>b</td></tr></table>",
	"«<blockquote>»<table><tr><th>a</th></tr><tr><td>b</td></tr></table>«</blockquote>»", "<table><tr><th>a</th></tr><tr><td>«<b>b</b> »c</td></tr></table>", "<table><tr><th>a</th></tr><tr><td>«b<br>»c</td></tr></table>", "<table><tr><th>a</th></tr><tr><td>«<p>b</p>»</td></tr></table>", "<table><tr>«<th></th>»<th>b</th></tr>«<tr><td></td><td>c</td></tr>»</table>",
}

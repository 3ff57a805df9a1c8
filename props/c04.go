package props

import (
	"fmt"
	"strings"

	"vmc/canon"
	"vmc/eng"
)

// blockOK is the grammar of ordinary block documents: lists hold items only,
// items stand in lists only, headings and paragraphs hold text only.
func blockOK(stack []string, tok string) bool {
	top := ""
	if len(stack) > 0 {
		top = stack[len(stack)-1]
	}
	if tok == "</>" {
		return len(stack) > 0
	}
	isList := top == "ul" || top == "ol"
	isLi := strings.HasPrefix(tok, "<li")
	return isList == isLi
}

func init() {
	j := fidelity(Conf{}, canon.Options{HeadingBreakIsSpace: true})
	blocks := []string{"a", "<p>b</p>", "<h2>c</h2>", "<hr>", "<pre>d\n\ne</pre>", "<ul>", "<ol>", "<li>", "<blockquote>", "</>"}
	lists := []string{"a", "<p>b</p>", "<ul>", "<ol>", "<ol start=\"9\">", "<li>", "</>"}
	macro := []string{
		"a", "<p>b</p>", "<h1>c</h1>", "<h3>c</h3>", "<h6>c</h6>", "<hr>", "<pre>d\n  e\n</pre>", "<pre><code class=\"language-go\">f\n\n\ng</code></pre>",
		"<ul><li>a</li></ul>", "<ul><li>a</li><li>b</li></ul>", "<ol><li>a</li><li>b</li></ol>", "<ol start=\"0\"><li>a</li></ol>", "<ol start=\"7\"><li>a</li><li><p>b</p><p>c</p></li></ol>",
		items("ol", 9), items("ol", 10), items("ol", 99), items("ol", 100), "<ol start=\"98\"><li>a<ul><li>x</li></ul></li><li>b</li><li>c<p>d</p></li></ol>",
		"<ul><li>a<ul><li>b<ul><li>c</li></ul></li></ul></li><li>d</li></ul>", "<ol><li>a<ol><li>b<ol><li>c</li></ol></li></ol></li><li>d</li></ol>",
		"<ul><li>a<pre>x\n\ny</pre>b</li></ul>", "<ul><li><blockquote>a<p>b</p></blockquote></li></ul>", "<ul><li><h2>a</h2></li></ul>", "<ul><li>a<hr>b</li></ul>", "<ul><li><pre>x</pre></li></ul>",
		"<blockquote>a</blockquote>", "<blockquote>a<blockquote>b</blockquote></blockquote>", "<blockquote><ul><li>a</li></ul><ul><li>b</li></ul></blockquote>", "<blockquote><pre>x\n\n\ny</pre></blockquote>", "<blockquote><h1>a</h1><hr></blockquote>",
		"<div>a</div>", "<div><p>a</p><div>b</div></div>", "<section><h2>a</h2><p>b</p></section>",
		"<p>a<br>b</p>", "<p>a<br><br>b</p>", "<!-- c -->", "<p></p>", "<ul></ul>", "<span>a</span>",
		"<img src=\"/i\" alt=\"z\">", "<p><b>a</b></p>", "<a href=\"/u\">a</a>",
	}
	starts := W("09 007 010 +5 -0 0x10 1e3 ␠7 7␠ 7a -10 -1 0 1 2 9 10 99 100 999999998 999999999 1000000000 99999999999999999999 a 1.5")
	var startDocs []string
	for _, st := range starts {
		for _, n := range []int{1, 2, 10} {
			startDocs = append(startDocs, "<ol start=\""+st+"\">"+strings.Repeat("<li>a<pre>x\n\ny</pre></li>", n)+"</ol>")
		}
	}
	odd := []string{"a", "<p>b</p>", "<ul>", "<ol>", "<li>", "<div>", "<b>c</b>", "</>"}
	cont := []string{"<blockquote>", "<ul><li>", "<ol><li>", "<ol start=\"99\"><li>", "<div>", "<ul><li>z</li><li>", "<blockquote>z", "<ul><li>z"}
	leaves := []string{"a", "<pre>x\n\n y</pre>", "<p>a</p><p>b</p>", "<hr>", "<h2>a</h2>b", "<ul><li>a</li></ul>", "a<br>b", "<ul><li>a</li></ul><ul><li>b</li></ul>"}
	wraps := []string{"@", "<blockquote>@</blockquote>", "<ul><li>@</li></ul>", "<ol><li>x</li><li>@</li></ol>", "<ul><li>a<ol><li>@</li></ol></li></ul>", "<blockquote><ul><li>@</li><li>y</li></ul></blockquote>", "<p>x</p>@<p>y</p>"}
	var inNames []string
	for _, n := range W("p div section article main header footer nav aside figure figcaption address form fieldset dl dt dd details span u x-y ins mark body blockquote") {
		inNames = append(inNames, "<"+n+">@</"+n+">", "<"+n+">@</"+n+"><p>z</p>")
	}
	var linked []string
	for i := 1; i <= 6; i++ {
		for _, c := range []string{"c", "<b>c</b>", "c<br>d", "<img src=\"/i\" alt=\"z\">"} {
			linked = append(linked, fmt.Sprintf("<h%d>%s</h%d>", i, c, i), fmt.Sprintf("<a href=\"/u\"><h%d>%s</h%d></a>", i, c, i),
				fmt.Sprintf("<h%d><a href=\"/u\">%s</a></h%d>", i, c, i))
		}
	}
	linked = append(linked, "a", "<p>b</p>")
	// Items with numbers of every length.
	var numbered []string
	for n := 1; n <= 9; n++ {
		for _, st := range []string{"1" + strings.Repeat("0", n-1), strings.Repeat("9", n)} {
			numbered = append(numbered, "<ol start=\""+st+"\"><li>@</li></ol>", "<ol start=\""+st+"\"><li>x</li><li>@</li><li>y</li></ol>", "<ul><li>w<ol start=\""+st+"\"><li>@</li></ol></li></ul>")
		}
	}
	inItem := []string{"a", "<blockquote>b</blockquote>", "<p>c</p>", "<h2>d</h2>", "<pre>x\n\n y</pre>", "<ul><li>e</li></ul>", "<ol><li>f</li></ol>", "<hr>", "<br>", "<ol start=\"100\"><li>g</li></ol>"}
	eng.Register(&eng.Check{
		ID: "C04", NewJudge: j,
		Rule: "canon(html) == canon(goldmark(output))",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				TreeSpaceF("blocks", blocks, t.N(7, 8), []string{"@"}, blockOK, nil),
				TreeSpaceF("lists", lists, t.N(9, 10), []string{"@"}, blockOK, nil),
				TreeSpace("odd-lists", odd, t.N(6, 7), []string{"@", "<ul><li>@</li></ul>"}, nil),
				TreeSpace("odd-lists-in", odd, t.N(4, 5), inNames, nil),
				{Name: "between", Bound: "4 combinations of the link options with " + boundStr(emptyBetween, 2, listPairs), Enum: perConf(4, Strings(emptyBetween, 2, listPairs)), NewJudge: confJudge(choose(vHref, vContent), optionsJudge)},
				StrSpace("starts", startDocs, 1, []string{"@", "<ul><li>@</li></ul>", "<blockquote>@</blockquote>"}, nil),
				{Name: "deep", Bound: fmt.Sprintf("all sequences of at most %d containers of %q around %q", t.N(4, 6), cont, leaves), Enum: deep(cont, leaves, t.N(4, 6))},
				TreeSpaceF("twice", blocks, t.N(5, 6), []string{"<div>@</div><div>@</div>", "@<p>x</p>@", "<ul><li>@</li><li>@</li></ul>", "<ol><li>@</li><li>@</li></ol>", "<blockquote>@</blockquote><blockquote>@</blockquote>"}, blockOK, nil),
				StrSpace("numbered", inItem, t.N(2, 3), numbered, nil),
				SizeSpace("sizes", sizeBlocks, t.N(1100, 4100), nil),
				StrSpace("linked-headings", linked, 2, wraps, nil),
				StrSpace("macros", macro, 2, wraps, nil),
			}
		},
	})
}

// deep enumerates all chains of containers around every leaf.
func deep(cont, leaves []string, n int) func(func(string) bool) {
	return Strings(cont, n, leavesWrap(leaves))
}

func leavesWrap(leaves []string) []string {
	var l []string
	for _, x := range leaves {
		l = append(l, "@"+x)
	}
	return l
}

func items(list string, n int) string {
	return "<" + list + ">" + strings.Repeat("<li>a<p>b</p></li>", n) + "</" + list + ">"
}

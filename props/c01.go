package props

import (
	"vmc/canon"
	"vmc/eng"
)

func init() {
	j := fidelity(Conf{}, canon.Options{HeadingBreakIsSpace: true})
	jt := fidelity(Conf{Table: true, Strike: true}, canon.Options{HeadingBreakIsSpace: true, Tables: true})
	chars := W("a ␠ &lt; * _ # - + = > 1 . ) ( [ ] ! ` ~ \\ | : \" '")
	ctx := []string{
		"<p>@</p>", "@", "<div>@</div>", "<h1>@</h1>", "<h6>@</h6>", "<ul><li>@</li></ul>", "<ol><li>@</li></ol>",
		"<ol start=\"9\"><li>x</li><li>@</li></ol>",
		"<blockquote>@</blockquote>", "<blockquote><p>a</p><p>@</p></blockquote>", "<ul><li><p>x</p><p>@</p></li></ul>",
		"<ul><li>a<ul><li>@</li></ul></li></ul>", "<ul><li><blockquote>@</blockquote></li></ul>", "<blockquote><ul><li>@</li></ul></blockquote>",
		"<p>a<br>@</p>", "<p>@<br>a</p>", "<blockquote>a<br>@</blockquote>", "<ul><li>a<br>@</li></ul>", "<p>x @ y</p>", "<p>x@y</p>", "<p>x</p><p>@</p>", "<p>@</p><p>x</p>",
		"<h2>x @</h2>", "<p>é@é</p>",
		"<p><a href=\"/u\">@</a></p>", "<p>x <a href=\"/u\">a @ b</a> y</p>",
		"<p><b>a@b</b></p>", "<p><i>a @ b</i></p>", "<ul><li>@</li><li>@</li></ul>", "<p>@</p><hr><p>@</p>",
		"<p>a<span>@</span>b</p>", "<pre>x</pre>@<pre>y</pre>",
	}
	macros := W("a ␠ <br> *** --- === ``` ~~~ ` 1. 10) 123456789. 1234567890. ####### ## **b** _c_ - > + \\ [a](b) ![a](b) [a]:␠b [ ] http://a.b/_c_ $ {# ^ &lt;b&gt; &nbsp; 　 “ é / &#13;")
	sCtx := append([]string{}, ctx[:22]...)
	small := W("a ␠ * _ # - + > 1 . [ ] ( ) ` \\ <br>")
	twice := []string{"<p>@</p><p>@</p>", "<ul><li>@</li><li>@</li></ul>", "<p>@</p><hr><p>@</p>", "<p>@ @</p>", "<p><b>x@x</b> @ <i>x@x</i></p>", "<h2>@</h2><p>@</p>", "<blockquote>@<br>@</blockquote>", "<ol><li>@<p>@</p></li></ol>"}
	eng.Register(&eng.Check{
		ID: "C01", NewJudge: j,
		Rule: "canon(html) == canon(goldmark(output))",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				StrSpace("ctx", chars, t.N(2, 3), ctx, nil),
				StrSpace("macros", macros, t.N(3, 4), []string{"<p>@</p>"}, nil),
				StrSpace("macros-ctx", macros, 2, sCtx, nil),
				StrSpace("small", small, t.N(3, 4), sCtx, nil),
				TreeSpace("split", W("a ␠ * _ [ ] ( ` # - 1. > <b> <span> <a> </>"), t.N(4, 5), []string{"<p>@</p>", "<ul><li>@</li></ul>"}, nil),
				SubsetSpace("one-char", chars[3:], 1, W("a ␠ <br>"), t.N(6, 7), []string{"<p>@</p>", "<ul><li>x<p>@</p></li></ul>", "<blockquote>@</blockquote>", "<h2>@</h2>"}, nil),
				SubsetSpace("two-chars", chars[3:], 2, W("a ␠"), t.N(5, 6), []string{"<p>@</p>"}, nil),
				SubsetSpace("two-chars-br", chars[3:], 2, W("a <br>"), t.N(4, 5), []string{"<p>@</p>", "<div>x<br>@</div>"}, nil),
				StrSpace("twice", chars, t.N(2, 3), twice, nil),
				StrSpace("gfm", W("a ␠ | : - * <br> <b>|</b> ` \\"), t.N(5, 6), []string{"<p>@</p>", "<ul><li>@</li></ul>", "<blockquote>a<br>@</blockquote>"}, jt),
				StrSpace("gfm-rows", W("a|b :-|-: | |-| :- --|-- -: :-: <br> ␠ **"), t.N(4, 5), []string{"<p>@</p>", "<p>a|b<br>@</p>", "<ul><li>a<br>@</li></ul>", "a@<p>|-</p>"}, jt),
				StrSpace("blanks", append(W("a ␠ * _ # [ ~ 1. -"), "\u200b", "\ufeff", "\u2003", "\u00a0", "\u2028", "\u0085", "\u00ad", "\u200d", "\u3000", "é", "“", "€", "\u0301"), t.N(3, 4), []string{"<p>@</p>", "<p>x@*</p>", "<p>*@x*</p>", "<p>_@x_ y</p>"}, nil),
				SizeSpace("sizes", sizeTexts, t.N(1100, 4100), nil),
				StrSpace("chars-p", chars, t.N(4, 5), []string{"<p>@</p>"}, nil),
			}
		},
	})
}

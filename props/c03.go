package props

import (
	"vmc/canon"
	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
)

func init() {
	opt := canon.Options{HeadingBreakIsSpace: true}
	j := fidelity(Conf{}, opt)
	uopt := opt
	uopt.EmUnderscore, uopt.StrongUnderscore = true, true
	ju := fidelity(Conf{Cm: []commonmark.OptionFunc{commonmark.WithEmDelimiter("_"), commonmark.WithStrongDelimiter("__")}}, uopt)
	vopt := opt
	vopt.EmUnderscore = true
	jv := fidelity(Conf{Cm: []commonmark.OptionFunc{commonmark.WithEmDelimiter("_")}}, vopt)
	js := fidelity(Conf{Strike: true}, opt)

	link, img := `<a href="/u">`, `<img src="/i" alt="z">`
	p := []string{"<p>@</p>"}
	alpha := append(W("a ␠ <b> <i> <br> </>"), link, img)
	code := append(W("a ␠ <b> <code> </> <br>"), link)
	punct := append(W("a ␠ . ( * <b> <i> </>"), link)
	alt := W("a ␠ <em> <strong> <b> <span> <tt> </>")
	split := append(W("a ␠ <b>c</b> <i>d</i> <code>e</code> <span> <b> <i> </>"), link)
	strike := append(W("a ␠ x~y ␠~~a <del> <s> <b> </>"), link)
	// Every blank of Unicode, at the edges of emphasis and alone in it.
	var wide []string
	for _, r := range "\u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000" {
		w := string(r)
		for _, in := range []string{w + "c", "c" + w, w + "c" + w, "c" + w + "d", w, "c" + w + " ", " " + w + "c", "c" + w + w} {
			for _, el := range []string{"b", "em", "u"} {
				wide = append(wide, "<"+el+">"+in+"</"+el+">", "<"+el+"><i>"+in+"</i></"+el+">")
			}
		}
	}
	wideAround := []string{"<p>@</p>", "<p>a@b</p>", "<p>a @ b</p>", "<p>a<br>@<br>b</p>", "<h2>a@b</h2>", "<ul><li>@b</li></ul>"}
	// Formatting inside of every element, and of every pair of elements.
	within := W("div section article main header footer nav aside figure figcaption address form fieldset dl dt dd details u small sub sup ins q cite abbr label font time data bdi bdo dfn x-y mark big span")
	formatted := []string{"a<em>b</em>", "<em>b</em> c", "<b>a</b><i>b</i>", "a <b>b</b>c", "<a href=\"/u\">a</a>b<b>c</b>", "<b>a</b>", "<b>a<br>b</b>", "<i><b>a</b></i>"}
	var around1 []string
	for _, x := range within {
		around1 = append(around1, "<"+x+">@</"+x+">", "<p>x</p><"+x+">y @</"+x+">", "<"+x+">@</"+x+">z")
		for _, y := range within {
			around1 = append(around1, "<"+x+"><"+y+">@</"+y+"></"+x+">")
		}
	}
	// Each of these is listed in known_findings.json.
	known := []string{
		`<p><b>a<a href="/u">a<br>a</a></b></p>`, `<p><b>a</b><u></u><b>c</b></p>`, `<p><b>a</b><u><b>c</b></u></p>`,
	}
	ctxs := []string{"@", "<h2>@</h2>", "<ul><li>@</li><li>b</li></ul>", "<blockquote><p>@</p></blockquote>", "<p>x @ y</p>", "<p>x@y</p>", "<div>@</div><p>a</p>", "<ol><li><p>a</p><p>@</p></li></ol>",
		"<p>a<br>@</p>", "<p><b>x</b>@</p>", "<p>@<i>x</i></p>", "<div><b>x</b></div>@<div><b>x</b></div>"}
	eng.Register(&eng.Check{
		ID: "C03", NewJudge: j,
		Rule: "canon(html) == canon(goldmark(output)) for every state that CommonMark can express",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				{Name: "known", Bound: "documents known to fail", Enum: Strings(known, 1, []string{"@"}), NewJudge: fidelityOf(Conf{}, opt, true)},
				SizeSpace("sizes", sizeInlines, t.N(260, 1100), nil),
				StrSpace("wide", wide, 1, wideAround, nil),
				StrSpace("within", formatted, 1, around1, nil),
				SizeSpace("sizes-strike", []string{"<p><del>«a<br>»b</del></p>", "<p>x <del>«a<br>»b</del> y</p>", "<ul><li><del>«a<br>»b</del></li></ul>", "<p><del>«a »b</del></p>", "<p>«<del>a</del> »b</p>"}, t.N(260, 1100), js),
				TreeSpace("split", split, t.N(4, 6), append([]string{"<p>@</p>"}, ctxs...), nil),
				TreeSpace("twice", alpha, t.N(4, 5), []string{"<p>@</p><p>@</p>", "<p>@ @</p>", "<p>@<br>@</p>", "<ul><li>@</li><li>@</li></ul>"}, nil),
				TreeSpace("ctx", alpha, t.N(4, 5), ctxs, nil),
				TreeSpace("punct-p", punct, t.N(5, 7), p, nil),
				TreeSpace("inline-p", alpha, t.N(6, 7), p, nil),
				TreeSpaceF("alt-p", alt, t.N(6, 7), p, codeOK("tt"), nil),
				TreeSpaceF("code-p", code, t.N(6, 7), p, codeOK("code"), nil),
				TreeSpaceF("strike", strike, t.N(5, 7), p, noNest("del", "s"), js),
				TreeSpaceF("strike-tildes", W("a ␠ ~~~a b~~␠ ␠~~c ␠~d ~~~~f <br> <del>e</del>"), t.N(5, 6), p, nil, js),
				TreeSpace("strike-nest", append(W("a ␠ x~y ␠~~a <del> <s> <strike> </>"), link), t.N(5, 6), p, js),
				TreeSpace("strike-links", append(W("a ! [ ] ␠ <del> </>"), link, img), t.N(5, 6), p, js),
				TreeSpace("underscore", append(W("a ␠ . _ <b> <i> </>"), link), t.N(5, 7), p, ju),
				TreeSpace("underscore-em", append(W("a ␠ . _ <b> <i> </>"), link), t.N(5, 6), p, jv),
			}
		},
	})
}

// noNest forbids the named elements inside each other.
func noNest(names ...string) func([]string, string) bool {
	is := map[string]bool{}
	for _, n := range names {
		is[n] = true
		is["<"+n+">"] = true
	}
	return func(stack []string, tok string) bool {
		if !is[tok] {
			return true
		}
		for _, s := range stack {
			if is[s] {
				return false
			}
		}
		return true
	}
}

// codeOK: code holds text only, not starting with whitespace.
func codeOK(name string) func([]string, string) bool {
	f := textOnlyIn(name)
	return func(stack []string, tok string) bool {
		if len(stack) > 0 && stack[len(stack)-1] == name && tok == " " {
			return false
		}
		return f(stack, tok)
	}
}

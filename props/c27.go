package props

import (
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"vmc/canon"
	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

// blockDocs allows only blocks where blocks are expected: text stands in
// paragraphs, headings and list items (alone).
func blockDocs(stack []string, tok string) bool {
	if tok == "</>" {
		return true
	}
	top := ""
	if len(stack) > 0 {
		top = stack[len(stack)-1]
	}
	text := !strings.HasPrefix(tok, "<") || tok == "<br>" || tok == "<b>" || strings.HasPrefix(tok, "<code") || strings.HasPrefix(tok, "<a ")
	switch top {
	case "ul", "ol":
		return strings.HasPrefix(tok, "<li")
	case "p", "h2", "h6", "b", "code", "a", "pre":
		return text && !(top == "b" && tok == "<b>") && !(top == "code" && tok != "a") && !(top == "a" && strings.HasPrefix(tok, "<a "))
	}
	return !text && !strings.HasPrefix(tok, "<li")
}

// strip removes what the rules leave open: the blanks of empty lines, and the
// comment between lists (C04).
func strip(s string) string {
	lines := strings.Split(noListEnd(s), "\n")
	var out []string
	for _, l := range lines {
		if blankRe.MatchString(l) {
			l = strings.TrimRight(l, " ")
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func quoted(s string) string {
	if s == "" {
		return ""
	}
	return "> " + strings.ReplaceAll(s, "\n", "\n> ")
}

func item(marker, s string) string {
	if s == "" {
		return "" // An item without content.
	}
	return marker + strings.ReplaceAll(s, "\n", "\n"+strings.Repeat(" ", len(marker)))
}

func joined(l ...string) string {
	var out []string
	for _, s := range l {
		if s != "" {
			out = append(out, s)
		}
	}
	return strings.Join(out, "\n\n")
}

// relation: html makes the composed document of the parts, md what its
// conversion has to be, given those of the parts (one of the alternatives).
type relation struct {
	name string
	html func(parts []string) string
	md   func(parts []string) []string
}

func composeJudge(c Conf, rel relation) func() eng.Judge {
	return func() eng.Judge {
		cv := newConv(c)
		memo := map[string]string{}
		conv := func(in string) string {
			md, err := convert(cv, in)
			if err != nil {
				return "error: " + err.Error()
			}
			return md
		}
		return func(state string) *eng.Fail {
			parts := strings.Split(state, sep)
			var mds []string
			for _, p := range parts {
				md, ok := memo[p]
				if !ok {
					md = conv(p)
					if len(memo) > 50000 {
						clear(memo)
					}
					memo[p] = md
				}
				mds = append(mds, md)
			}
			in := rel.html(parts)
			got := strip(conv(in))
			var exps []string
			for _, e := range rel.md(mds) {
				if e = strip(e); e == got {
					return nil
				}
				exps = append(exps, e)
			}
			return &eng.Fail{What: rel.name + ": " + in, Expected: strings.Join(exps, "\nor "), Got: got}
		}
	}
}

// nestJudge: state = document, chain of containers from the outside to the
// inside.
func nestJudge(c Conf, bullet string) func() eng.Judge {
	return func() eng.Judge {
		cv := newConv(c)
		return func(state string) *eng.Fail {
			doc, chain, _ := strings.Cut(state, sep)
			exp, err := convert(cv, doc)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			in := doc
			for i := len(chain) - 1; i >= 0; i-- {
				switch chain[i] {
				case 'q':
					in, exp = "<blockquote>"+in+"</blockquote>", quoted(exp)
				case 'u':
					in, exp = "<ul><li>"+in+"</li></ul>", item(bullet, exp)
				case 'o':
					in, exp = "<ol><li>"+in+"</li></ol>", item("1. ", exp)
				case 'h':
					in, exp = `<ol start="100"><li>`+in+"</li></ol>", item("100. ", exp)
				case 'd':
					in = "<div>" + in + "</div>"
				}
			}
			got, err := convert(cv, in)
			if err != nil {
				if _, perr := html.Parse(strings.NewReader(in)); perr != nil {
					return nil // nested deeper than the HTML parser goes
				}
				return &eng.Fail{What: "error: " + err.Error()}
			}
			if exp, got = strip(exp), strip(got); exp != got {
				return &eng.Fail{What: "containers: " + in, Expected: exp, Got: got}
			}
			return nil
		}
	}
}

var splitFormat = regexp.MustCompile(`</(b|em|code|a)>\s*(</?n>\s*)+<(b|em|code|a)`)

// eraseJudge: the element named first means nothing (visible: for the reader).
func eraseJudge(c Conf, visible bool) func() eng.Judge {
	return func() eng.Judge {
		gm := gmFor(c)
		cv := newConv(c)
		return func(state string) *eng.Fail {
			name, doc, _ := strings.Cut(state, sep)
			with := strings.NewReplacer("<n>", "<"+name+">", "</n>", "</"+name+">").Replace(doc)
			without := strings.NewReplacer("<n>", "", "</n>", "").Replace(doc)
			if with == without {
				return nil
			}
			exp, err := convert(cv, without)
			got, err2 := convert(cv, with)
			if err != nil || err2 != nil {
				return &eng.Fail{What: fmt.Sprint("errors: ", err, err2)}
			}
			if exp != got && visible {
				// Formatting may be written in more than one way, and not in
				// every way next to itself (C03).
				o := canon.Options{HeadingBreakIsSpace: true}
				want, ok := canon.Observe(with, o)
				if !ok || splitFormat.MatchString(doc) || want == canon.OfString(render(gm, got), o).String() {
					return nil
				}
			}
			if exp != got {
				return &eng.Fail{What: "a neutral container: " + with, Expected: exp, Got: got}
			}
			return nil
		}
	}
}

// manyJudge: the state is a number, a block that is there that often, and a
// block next to all of them.
func manyJudge(c Conf) eng.Judge {
	cv := newConv(c)
	return func(state string) *eng.Fail {
		f := strings.Split(state, sep)
		n, _ := strconv.Atoi(f[0])
		one, err := convert(cv, f[1])
		odd, err2 := convert(cv, f[2])
		if err != nil || err2 != nil {
			return &eng.Fail{What: fmt.Sprint("errors: ", err, err2)}
		}
		all := joined(slices.Repeat([]string{one}, n)...)
		long := strings.Repeat(f[1], n)
		for _, d := range [][2]string{
			{long + f[2], joined(all, odd)}, {f[2] + long, joined(odd, all)},
			{"<div>" + long + f[2] + "</div>", joined(all, odd)}, {"<ul><li>" + long + f[2] + "</li></ul>", item("- ", joined(all, odd))},
			{long + "<blockquote>" + f[2] + "</blockquote>", joined(all, quoted(odd))},
		} {
			got, err := convert(cv, d[0])
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			if exp, got := strip(d[1]), strip(got); exp != got {
				return &eng.Fail{What: fmt.Sprintf("%d times %q with %q", n, f[1], f[2]), Expected: exp[max(0, len(exp)-200):], Got: got[max(0, len(got)-200):]}
			}
		}
		return nil
	}
}

// formatted: as nested, without code and links in an element <n> in formatting
// (which blanks and borders move out of formatting is left open there).
func formatted(stack []string, tok string) bool {
	if n := len(stack); n > 0 && stack[n-1] == "n" && (tok == "<code>" || strings.HasPrefix(tok, "<a ")) && (slices.Contains(stack, "b") || slices.Contains(stack, "em")) {
		return false
	}
	return nested(false)(stack, tok)
}

// wrapJudge: the page around the document means nothing.
func wrapJudge(state string, cv *converter.Converter) *eng.Fail {
	page, doc, _ := strings.Cut(state, sep)
	exp, err := convert(cv, doc)
	got, err2 := convert(cv, strings.ReplaceAll(page, "@", doc))
	if err != nil || err2 != nil || exp != got {
		return &eng.Fail{What: fmt.Sprint("the page around the document ", err, err2), Expected: exp, Got: got}
	}
	return nil
}

var hollow = regexp.MustCompile(`<(ul|ol|li|p|h2|h6|blockquote|pre|b|div|n)[^>]*>(<br>)*</`)

// filled leaves out the documents with empty elements in lists.
func filled(enum func(func(string) bool)) func(func(string) bool) {
	return func(emit func(string) bool) {
		enum(func(s string) bool { return strings.Contains(s, "l>") && hollow.MatchString(s) || emit(s) })
	}
}

// tuples of k of everything enumerated.
func tuples(k int, enum func(func(string) bool)) func(func(string) bool) {
	return func(emit func(string) bool) {
		var l []string
		enum(func(s string) bool { l = append(l, s); return true })
		var rec func(p []string) bool
		rec = func(p []string) bool {
			if len(p) == k {
				return emit(strings.Join(p, sep))
			}
			for _, s := range l {
				if !rec(append(p[:len(p):len(p)], s)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	}
}

// crossed: every state of a with every state of b.
func crossed(a, b func(func(string) bool)) func(func(string) bool) {
	return func(emit func(string) bool) {
		a(func(x string) bool {
			more := true
			b(func(y string) bool { more = emit(x + sep + y); return more })
			return more
		})
	}
}

// macros are blocks of all kinds and sizes.
func macros() []string {
	l := W(`<p>a</p> <p>a<br>b␠*c*␠_</p> <h1>a</h1> <h3>a#</h3> <h6>x</h6> <hr> <pre>a</pre> <pre><code␠class="language-go">a␠b</code></pre> <blockquote>a</blockquote> <blockquote><p>a</p><p>b</p></blockquote> <ul><li>a</li></ul> <ul><li>a</li><li><p>b</p><p>c</p></li></ul> <ol><li>a</li><li>b</li></ol> <ol␠start="7"><li>a</li></ol> <ol␠start="99"><li>a</li><li>b<ul><li>c</li></ul></li></ol> <table><tr><th>a</th><th>b</th><th>c</th></tr><tr><td>1</td><td>2</td><td>3</td></tr></table> <dl><dt>a</dt><dd>b</dd></dl> <div>a</div> <div>a<p>b</p>c</div> <p>1.␠a</p> <p>-␠a</p> <p>#</p> <p>a<br>---</p> <p><img␠src="/u"␠alt="a"><a␠href="/v">b</a></p> <p></p> <div></div> <section><ul><li>a</li></ul></section> <address>a<br>b</address> <form><p>a</p></form> <h2>a<br>b</h2> <p><code>a</code></p> <p><b>a</b></p>`)
	l = append(l,
		"<pre>a\n\n\n b\n</pre>", "<pre>```\na\n``````</pre>", "<pre>~~~</pre>", "<pre>\n\n a</pre>",
		"<ol>"+strings.Repeat("<li>a</li>", 10)+"</ol>",
		"<ol start=\"98\">"+strings.Repeat("<li><p>a</p><p>b</p></li>", 3)+"</ol>",
		strings.Repeat("<ul><li>a", 6)+strings.Repeat("</li></ul>", 6),
		strings.Repeat("<blockquote><p>a</p>", 6)+strings.Repeat("</blockquote>", 6),
		"<p>"+strings.Repeat("word ", 60)+"</p>", "<p>"+strings.Repeat("w", 300)+"</p>",
		"<h2>"+strings.Repeat("word ", 30)+"</h2>",
		"<p> a </p> ", "\n<div>\n a \n</div>\n")
	return l
}

func init() {
	blk := W(`a * 1. <p> <ul> <ol> <li> <h2> <blockquote> <hr> <pre> <br> <b> </>`)
	div := W(`a * <p> <ul> <li> <h2> <blockquote> <hr> <pre> <n> </>`)
	inl := W(`a ␠ * _ <b> <em> <code> <br> <a␠href="/u"> <n> </>`)
	one := func(l ...string) []string { return l }
	around := func(pre, post string) func([]string) string {
		return func(p []string) string { return pre + strings.Join(p, "") + post }
	}
	seq := relation{"sequence", around("", ""), func(m []string) []string { return one(joined(m...)) }}
	quote := relation{"sequence in a blockquote", around("<blockquote>", "</blockquote>"), func(m []string) []string { return one(quoted(joined(m...))) }}
	inItem := relation{"sequence in an item", around("<ul><li>", "</li></ul>"), func(m []string) []string { return one(item("- ", joined(m...))) }}
	items := func(open, end string, markers ...[]string) relation {
		return relation{"items", func(p []string) string { return open + "<li>" + strings.Join(p, "</li><li>") + "</li>" + end }, func(m []string) []string {
			var l []string
			for _, ms := range markers {
				for _, gap := range []string{"\n", "\n\n"} {
					var its []string
					for _, s := range m {
						if s != "" {
							its = append(its, item(ms[len(its)], s))
						}
					}
					l = append(l, strings.Join(its, gap))
				}
			}
			return l
		}}
	}
	ul := items("<ul>", "</ul>", []string{"- ", "- ", "- "})
	ol := items(`<ol start="9">`, "</ol>", []string{"9. ", "10. ", "11. "}, []string{"09. ", "10. ", "11. "}, []string{"9.  ", "10. ", "11. "}, []string{" 9. ", "10. ", "11. "})
	tab := Conf{Strike: true, Table: true}
	eng.Register(&eng.Check{
		ID:   "C27",
		Rule: "the conversion of a composed document is the composition of the conversions of its parts",
		Spaces: func(t eng.Tier) []eng.Space {
			small := filled(Trees(blk, 4, []string{"@"}, blockDocs))
			tiny := filled(Trees(blk, 3, []string{"@"}, blockDocs))
			big := filled(Trees(blk, t.N(7, 8), []string{"@"}, blockDocs))
			mac := list(macros())
			bd := func(n int) string { return fmt.Sprintf("block documents of at most %d tokens over %q", n, blk) }
			var chains []string
			var rec func(s string)
			rec = func(s string) {
				if s != "" {
					chains = append(chains, s)
				}
				if len(s) < t.N(4, 5) {
					for _, c := range "quohd" {
						rec(s + string(c))
					}
				}
			}
			rec("")
			l := []eng.Space{
				{Name: "pairs", Bound: "all pairs of " + bd(4), Enum: tuples(2, small), NewJudge: composeJudge(Conf{}, seq)},
				{Name: "blockquote", Bound: "all " + bd(t.N(7, 8)), Enum: big, NewJudge: composeJudge(Conf{}, quote)},
				{Name: "item", Bound: "all " + bd(t.N(7, 8)), Enum: big, NewJudge: composeJudge(Conf{}, inItem)},
				{Name: "containers", Bound: fmt.Sprintf("all %s in all %d chains of containers", bd(3), len(chains)), Enum: crossed(tiny, list(chains)), NewJudge: nestJudge(Conf{}, "- ")},
				{Name: "containers-macros", Bound: fmt.Sprintf("%d blocks of all kinds in all %d chains of containers", len(macros()), len(chains)), Enum: crossed(mac, list(chains)), NewJudge: nestJudge(tab, "- ")},
				{Name: "items", Bound: "lists of two of all " + bd(3), Enum: tuples(2, tiny), NewJudge: composeJudge(Conf{}, ul)},
				{Name: "numbers", Bound: "numbered lists of two of all " + bd(3), Enum: tuples(2, tiny), NewJudge: composeJudge(Conf{}, ol)},
				{Name: "neutral-blocks", Bound: fmt.Sprintf("all documents of at most %d tokens over %q, where <n> is neutral", t.N(7, 8), div), Enum: crossed(list([]string{"div"}), filled(Trees(div, t.N(7, 8), []string{"@"}, neutralDocs))), NewJudge: eraseJudge(Conf{}, false)},
				{Name: "neutral-names", Bound: fmt.Sprintf("the same up to %d tokens", t.N(5, 6)), Enum: crossed(list(W("section article main header footer nav aside form figure fieldset center details")), filled(Trees(div, t.N(5, 6), []string{"@"}, neutralDocs))), NewJudge: eraseJudge(tab, false)},
			}
			mix := W(`a <p> <ul> <li> <blockquote> <hr> <div> <br> <n> </>`)
			l = append(l, eng.Space{Name: "neutral-inline-blocks", Bound: fmt.Sprintf("all documents of at most %d tokens over %q, with text next to blocks, where <n> is an inline element", t.N(7, 8), mix), Enum: crossed(list(W("x-y font")), filled(Trees(mix, t.N(7, 8), []string{"@"}, neutralMixed))), NewJudge: eraseJudge(tab, true)})
			for _, c := range []struct {
				c Conf
				b string
			}{{tab, "- "}, {variousConfs()[1], "* "}, {variousConfs()[3], "+ "}, {Conf{Name: "noescape", NoEsc: true, Table: true}, "- "}} {
				l = append(l,
					eng.Space{Name: "macros-" + c.c.Name, Bound: fmt.Sprintf("all sequences of three of %d blocks of all kinds", len(macros())), Enum: tuples(3, mac), NewJudge: composeJudge(c.c, seq)},
					eng.Space{Name: "macros-quote-" + c.c.Name, Bound: "all pairs of them in a blockquote", Enum: tuples(2, mac), NewJudge: composeJudge(c.c, quote)},
					eng.Space{Name: "containers-" + c.c.Name, Bound: fmt.Sprintf("all of them in all %d chains of containers", len(chains)), Enum: crossed(mac, list(chains)), NewJudge: nestJudge(c.c, c.b)},
				)
			}
			for _, size := range []struct {
				name string
				t    []string
			}{{"blocks", sizeBlocks}, {"code", sizeCode}} {
				l = append(l, eng.Space{Name: "containers-sizes-" + size.name, Bound: fmt.Sprintf("each of %q with the parts in «» repeated 0-34 times and about the powers of two and ten up to %d, in the chains of containers q, u, h, qu, uq", size.t, t.N(1100, 4100)), Enum: crossed(Sizes(size.t, sizes(t.N(1100, 4100))), list(W("q u h qu uq"))), NewJudge: nestJudge(Conf{}, "- ")})
			}
			odds := append(W(`<h2>a<ul><li>b</li></ul></h2> <h3>a<blockquote>b</blockquote></h3> <h2><p>a</p><p>b</p></h2> <a␠href="/u"><h2>a</h2></a> <a␠href="/u"><p>a</p><p>b</p></a> <a␠href="/u"><ul><li>a</li></ul></a> <a␠href="/u">a<h2>b</h2>c</a> <b><p>a</p></b> <em><h2>a</h2></em> <b><ul><li>a</li></ul></b> <h2><b>a</b><b>b</b></h2> <p><b>a</b><span><b>b</b></span></p> <p><b>a␠</b><b>␠b</b></p> <ul><li>a</li><ul><li>b</li></ul></ul> <ul><li>a</li></ul><ul><li>b</li></ul> <ol><p>a</p><li>b</li></ol> <ul><li><a␠href="/u"><h3>a</h3></a></li></ul> <div><a␠href="/u"><h3>a</h3></a></div> <p><del>a</del><s>b</s></p> <p><b><i><b>a</b></i></b></p> <p>a␠<!--c-->␠b</p> <p><code>a</code>␠<code>b</code></p> <pre><b>a</b><br>b</pre> <p><a␠href="/u"><b>a</b></a></p> <p><img␠src="/u"␠alt="a"></p> <p>a<script>b</script>c</p>`), macros()...)
			fillers := W(`<p>z</p> <hr> <h2>z</h2> <blockquote>z</blockquote> <p><b>z</b></p> <p><a␠href="/z">z</a></p> <div><div>z</div></div> <!--z--><p>z</p>`)
			many := []string{"2", "7", "31", "130", "600", "1100"}
			if t.Thorough {
				many = append(many, "4100", "9000")
			}
			l = append(l, eng.Space{Name: "many", Bound: fmt.Sprintf("each of %d blocks behind and before each of %q %v times, and the same in a <div> and in an item", len(odds), fillers, many), Enum: crossed(list(many), crossed(list(fillers), list(odds))), NewJudge: func() eng.Judge { return manyJudge(tab) }})
			pages := []string{"<html><body>@</body></html>", "<!DOCTYPE html>\n<html lang=\"en\">\n<head>\n<meta charset=\"utf-8\"><title>T</title>\n<style>p{}</style></head>\n<body class=\"x\">\n@\n</body>\n</html>\n", "<body>@", "<html>@", "<head><title>t</title></head>@", "<div>@</div>", "<div><main>\n<article> @ </article></main></div>", "<x-y>@</x-y>", "@<!-- c -->", "<!-- c -->@", "<script>a</script>@<style>b</style>", " \n@\n "}
			l = append(l, eng.Space{Name: "pages", Bound: fmt.Sprintf("all %s in %q", bd(6), pages), Enum: crossed(list(pages), filled(Trees(blk, t.N(6, 7), []string{"@"}, blockDocs))), NewJudge: func() eng.Judge {
				cv := newConv(Conf{})
				return func(s string) *eng.Fail { return wrapJudge(s, cv) }
			}})
			l = append(l, eng.Space{Name: "neutral-inline", Bound: fmt.Sprintf("all inline documents of at most %d tokens over %q, where <n> is neutral", t.N(5, 6), inl), Enum: crossed(list(W("span font small label x-y")), Trees(inl, t.N(4, 5), W("<p>@</p> <ul><li>@</li></ul> <h2>@</h2>"), formatted)), NewJudge: eraseJudge(Conf{}, true)})
			return l
		},
	})
}

// neutralDocs: blockDocs, with <n> wherever blocks stand.
func neutralDocs(stack []string, tok string) bool {
	var s []string
	for _, e := range stack {
		if e != "n" {
			s = append(s, e)
		}
	}
	if tok == "<n>" {
		return blockDocs(s, "<hr>")
	}
	if len(stack) > 0 && stack[len(stack)-1] == "n" && len(s) > 0 && (s[len(s)-1] == "ul" || s[len(s)-1] == "ol") {
		return false
	}
	return blockDocs(s, tok)
}

// neutralMixed: with text next to blocks, too.
func neutralMixed(stack []string, tok string) bool {
	for i := len(stack) - 1; i >= 0; i-- {
		switch stack[i] {
		case "n":
			if tok == "<n>" {
				return false
			}
			continue
		case "ul", "ol":
			return tok == "<li>" && i == len(stack)-1 || tok == "</>"
		case "p":
			return tok == "a" || tok == "<br>" || tok == "<n>" || tok == "</>"
		}
		break
	}
	return tok != "<li>"
}

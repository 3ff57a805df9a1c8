package props

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

// A registration of the model: kind, target or outcome, priority.
//
//	R+ R-      renderer that renders / declines every element
//	Fp+ Fp-    RendererFor("p", inline), Fx+ Fx- RendererFor("x-a", block)
//	Fr+        RendererFor for the root
//	T P O      text transformer, pre-renderer, post-renderer
//	T! O!      the same, but it returns nothing at all; T= O= as it came
//	R.         renderer that renders every element as nothing
//	U+ U-      un-escaper that escapes / declines
//	U:         un-escaper that takes a run of escaped characters at once
//	E          escaping of * is switched on (character, transformer and
//	           post-renderer with the standard priority)
type reg struct {
	id   int
	kind string
	prio int
}

func parseRegs(state string) []reg {
	var l []reg
	for i, f := range strings.Fields(state) {
		k := strings.TrimRight(f, "0123456789")
		neg := 1
		if strings.HasSuffix(k, "~") { // negative priority
			k, neg = k[:len(k)-1], -1
		}
		p, _ := strconv.Atoi(strings.TrimLeft(f[len(strings.TrimRight(f, "0123456789")):], "~"))
		if k == "E" {
			p = converter.PriorityStandard
		}
		l = append(l, reg{i, k, p * neg})
	}
	return l
}

// dispatchDoc: <x-r>t1*<p>t2</p><x-a>t3<b></b></x-a><p></p>**a*</x-r>
func dispatchDoc() *html.Node {
	return buildNodes("<x-r>[t:t1*]<p>[t:t2]</p><x-a>[t:t3]<b></b></x-a><p></p>[t:**a*]</x-r>").FirstChild
}

// prioritised: stable order of the registrations of the given kinds.
func prioritised(l []reg, kinds ...string) []reg {
	var o []reg
	for _, r := range l {
		for _, k := range kinds {
			if strings.HasPrefix(r.kind, k) {
				o = append(o, r)
				break
			}
		}
	}
	sort.SliceStable(o, func(i, j int) bool { return o[i].prio < o[j].prio })
	return o
}

// transformed is what a transformer or post-renderer makes of a text.
func transformed(r reg, format string, s string) string {
	switch r.kind[1:] {
	case "!":
		return ""
	case "=":
		return s
	}
	return fmt.Sprintf(format, r.id, s)
}

// modelDispatch says what the handlers see, in order, and what comes out.
func modelDispatch(l []reg, doc *html.Node, mark string) (log []string, out string) {
	ev := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	for _, r := range prioritised(l, "P") {
		ev("pre%d", r.id)
	}
	tagBlock := func(name string) bool {
		best, block, found := 0, false, false
		for _, r := range l {
			if r.kind[0] != 'F' {
				continue
			}
			n, b := "p", false
			switch r.kind[1] {
			case 'x':
				n, b = "x-a", true
			case 'r':
				n, b = "x-r", true
			}
			if n == name && (!found || r.prio < best) {
				best, block, found = r.prio, b, true
			}
		}
		if found {
			return block
		}
		return name == "p"
	}
	texts, renders := prioritised(l, "T", "E"), prioritised(l, "R", "F")
	var node func(n *html.Node) string
	children := func(n *html.Node) string {
		var b strings.Builder
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			b.WriteString(node(c))
		}
		return b.String()
	}
	node = func(n *html.Node) string {
		if n.Type == html.TextNode {
			s := n.Data
			for _, r := range texts {
				if r.kind == "E" {
					s = strings.ReplaceAll(s, "*", mark+"*")
					continue
				}
				ev("text%d %q", r.id, s)
				s = transformed(r, "(%d%s)", s)
			}
			return s
		}
		for _, r := range renders {
			if r.kind[0] == 'F' {
				want := map[byte]string{'p': "p", 'x': "x-a", 'r': "x-r"}[r.kind[1]]
				if n.Data != want {
					continue
				}
			}
			ev("render%d %s", r.id, n.Data)
			if strings.HasSuffix(r.kind, ".") {
				return ""
			}
			if strings.HasSuffix(r.kind, "+") {
				return fmt.Sprintf("<%d%s>", r.id, n.Data) + children(n) + "</>"
			}
		}
		if tagBlock(n.Data) {
			return "\n\n" + children(n) + "\n\n"
		}
		return children(n)
	}
	out = node(doc)
	uns := prioritised(l, "U")
	for _, r := range prioritised(l, "O", "E") {
		if r.kind == "E" {
			var b strings.Builder
			asked := 0 // nobody is asked before this position
			for i := 0; i < len(out); i++ {
				if !strings.HasPrefix(out[i:], mark) {
					b.WriteByte(out[i])
					continue
				}
				if i < asked || i+len(mark) >= len(out) {
					i += len(mark) - 1
					continue
				}
				for _, u := range uns {
					ev("un%d %d", u.id, i+len(mark))
					if strings.HasSuffix(u.kind, "+") {
						b.WriteByte('\\')
						break
					}
					if strings.HasSuffix(u.kind, ":") {
						b.WriteByte('\\')
						asked = i + len(mark) + starRun(out[i+len(mark):], mark)
						break
					}
				}
				i += len(mark) - 1
			}
			out = b.String()
			continue
		}
		ev("post%d %q", r.id, out)
		out = transformed(r, "{%d%s}", out)
	}
	return log, out
}

type dispatchRec struct {
	log  []string
	mark string
}

// starRun is the length of the run of escaped characters at the start.
func starRun(s, mark string) int {
	n := 1
	for strings.HasPrefix(s[n:], mark+"*") {
		n += len(mark) + 1
	}
	return n
}

func (d *dispatchRec) ev(f string, a ...any) { d.log = append(d.log, fmt.Sprintf(f, a...)) }

// registerReal performs a registration on the real converter.
func (d *dispatchRec) register(cv *converter.Converter, r reg) {
	rend := func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		d.ev("render%d %s", r.id, n.Data)
		if strings.HasSuffix(r.kind, "-") {
			return converter.RenderTryNext
		}
		if strings.HasSuffix(r.kind, ".") {
			return converter.RenderSuccess
		}
		fmt.Fprintf(w, "<%d%s>", r.id, n.Data)
		ctx.RenderChildNodes(ctx, w, n)
		w.WriteString("</>")
		return converter.RenderSuccess
	}
	switch r.kind[0] {
	case 'R':
		cv.Register.Renderer(rend, r.prio)
	case 'F':
		switch r.kind[1] {
		case 'p':
			cv.Register.RendererFor("p", converter.TagTypeInline, rend, r.prio)
		case 'x':
			cv.Register.RendererFor("x-a", converter.TagTypeBlock, rend, r.prio)
		case 'r':
			cv.Register.RendererFor("x-r", converter.TagTypeBlock, rend, r.prio)
		}
	case 'T':
		cv.Register.TextTransformer(func(ctx converter.Context, s string) string {
			d.ev("text%d %q", r.id, s)
			return transformed(r, "(%d%s)", s)
		}, r.prio)
	case 'P':
		cv.Register.PreRenderer(func(ctx converter.Context, n *html.Node) { d.ev("pre%d", r.id) }, r.prio)
	case 'O':
		cv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte {
			d.ev("post%d %q", r.id, b)
			if r.kind == "O!" {
				return nil
			}
			return []byte(transformed(r, "{%d%s}", string(b)))
		}, r.prio)
	case 'U':
		cv.Register.UnEscaper(func(chars []byte, i int) int {
			d.ev("un%d %d", r.id, i)
			if strings.HasSuffix(r.kind, "+") {
				return 1
			}
			if strings.HasSuffix(r.kind, ":") {
				return starRun(string(chars[i:]), d.mark)
			}
			return -1
		}, r.prio)
	case 'E':
		cv.Register.EscapedChar('*')
		cv.Register.TextTransformer(func(ctx converter.Context, s string) string { return string(ctx.EscapeContent([]byte(s))) }, r.prio)
		cv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { return ctx.UnEscapeContent(b) }, r.prio)
	}
}

func dispatchJudge() eng.Judge {
	// The mark that stands before an escaped character.
	mark := func() string {
		c := converter.NewConverter()
		var m string
		c.Register.EscapedChar('*')
		c.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			m = strings.TrimSuffix(string(ctx.EscapeContent([]byte("*"))), "*")
			return converter.RenderSuccess
		}, 1)
		c.ConvertString("")
		return m
	}()
	return func(state string) *eng.Fail {
		regs := parseRegs(state)
		hasRenderer := func(l []reg) bool { return len(prioritised(l, "R", "F")) > 0 }
		for _, every := range []bool{false, true} {
			cv := converter.NewConverter()
			d := &dispatchRec{mark: mark}
			for i, r := range regs {
				d.register(cv, r)
				if !every && i+1 < len(regs) || !hasRenderer(regs[:i+1]) {
					continue
				}
				doc := dispatchDoc()
				explog, exp := modelDispatch(regs[:i+1], doc, mark)
				d.log = nil
				ImplRuns.Add(1)
				out, err := cv.ConvertNode(doc)
				if err != nil {
					return &eng.Fail{What: "error: " + err.Error()}
				}
				if a, b := strings.Join(explog, "; "), strings.Join(d.log, "; "); a != b {
					return &eng.Fail{What: fmt.Sprintf("the handlers are not called as registered (after %d registrations)", i+1), Expected: a, Got: b}
				}
				if string(out) != exp {
					return &eng.Fail{What: "the output is not what the handlers wrote", Expected: exp, Got: string(out)}
				}
				if r := eng.Current(); r != nil {
					r.Outcome(exp)
				}
			}
		}
		return nil
	}
}

// orderSpace: n handlers of one kind with every pattern of two or three
// priorities (sorting algorithms change their ways with the length).
func orderSpace(name string, tok func(p string) string, extra string, n int, prios []string) eng.Space {
	var toks []string
	for _, p := range prios {
		toks = append(toks, tok(p)+" ")
	}
	return eng.Space{Name: name, Bound: fmt.Sprintf("all sequences of exactly %d registrations over %q after %q", n, toks, extra),
		Enum: func(emit func(string) bool) {
			var rec func(s string, left int) bool
			rec = func(s string, left int) bool {
				if left == 0 {
					return emit(extra + " " + strings.TrimSpace(s))
				}
				for _, t := range toks {
					if !rec(s+t, left-1) {
						return false
					}
				}
				return true
			}
			rec("", n)
		}}
}

func init() {
	at := func(kinds string, prios string) []string {
		var l []string
		for _, k := range strings.Fields(kinds) {
			for _, p := range strings.Fields(prios) {
				l = append(l, k+p+" ")
			}
		}
		return l
	}
	seq := func(name string, toks []string, n int, pre string) eng.Space {
		return eng.Space{Name: name, Bound: boundStr(toks, n, []string{pre + "@"}) + ", with at most one E", Enum: func(emit func(string) bool) {
			Strings(toks, n, []string{pre + "@"})(func(s string) bool {
				// Who escapes twice gets two marks.
				return strings.Count(s, "E") > 1 || emit(strings.TrimSpace(s))
			})
		}}
	}
	eng.Register(&eng.Check{
		ID: "C14", NewJudge: dispatchJudge,
		Rule: "the sequence of handler calls with their arguments, and the output, equal those of a reference dispatcher (stable order by priority; renderers until one succeeds; type fallback; chained transformers)",
		Spaces: func(t eng.Tier) []eng.Space {
			l := []eng.Space{
				seq("mixed", append(at("R+ R- R. Fp+ Fp- Fx+ Fx- T T! P O O! U+ U- U:", "100 500 1000"), "E "), t.N(3, 4), ""),
				seq("extreme", append(at("R+ R- Fp- Fx+ T P O U-", "~9223372036854775807 ~4294967297 ~1 0 1000 2147483648 4294967296 9223372036854775807"), "E "), t.N(3, 4), "R-2000 "),
				seq("renderers", at("R+ R- R. Fp+ Fp- Fx- Fr+", "~1 500 501"), t.N(4, 5), ""),
				seq("texts", append(at("T", "100 499 500 501 1000"), "E "), t.N(5, 6), "R-500 "),
				seq("texts-empty", append(at("T T! T=", "100 500 1000"), "E "), t.N(4, 5), "R-500 "),
				seq("posts-empty", append(at("O O! O=", "100 500 1000"), "E "), t.N(4, 5), "R-500 "),
				seq("posts", append(at("O", "100 499 500 501 1000"), "E "), t.N(5, 6), "R-500 "),
				seq("pres", at("P", "~5 0 100 500 1000"), t.N(5, 6), "R-500 "),
				seq("unescapers", at("U+ U- U:", "100 500 1000"), t.N(4, 5), "R-500 E "),
			}
			plain := func(k string) func(string) string { return func(p string) string { return k + p } }
			n := t.N(13, 14)
			l = append(l, builtinSpace(), eng.Space{Name: "pres-change", Bound: "7 trees with " + boundStr(at("P P+ P- P!", "100 500"), t.N(4, 5), []string{"@"}), NewJudge: preJudge,
				Enum: Strings(at("P P+ P- P!", "100 500"), t.N(4, 5), W("none␠@ text␠@ blank␠@ child␠@ two␠@ document␠@ full␠@"))})
			two, three := []string{"100", "500"}, []string{"100", "500", "1000"}
			l = append(l,
				orderSpace("many-renderers", plain("R-"), "", n, two),
				orderSpace("many-texts", plain("T"), "R-500", n, two),
				orderSpace("many-posts", plain("O"), "R-500", n, two),
				orderSpace("many-pres", plain("P"), "R-500", n, two),
				orderSpace("many-unescapers", plain("U-"), "R-500 E", n, two),
				orderSpace("many-tagtypes", func(p string) string { return map[string]string{"100": "Fx-", "500": "Fp-"}[p] + p }, "", n, two),
			)
			if t.Thorough {
				for _, k := range []string{"R-", "T", "O", "P", "U-"} {
					pre := "R-500"
					if k == "R-" {
						pre = ""
					}
					if k == "U-" {
						pre = "R-500 E"
					}
					l = append(l, orderSpace("many-3-"+k, plain(k), pre, 10, three), orderSpace("long-"+k, plain(k), strings.TrimSpace(pre+strings.Repeat(" "+k+"500 "+k+"100", 20)), 8, three))
				}
			}
			return l
		},
	})
}

// builtinJudge: handlers of a user next to those of the plugins. The state is
// "<kind> <priority> <document>".
func builtinJudge() eng.Judge {
	return func(state string) *eng.Fail {
		f := strings.SplitN(state, " ", 3)
		prio, _ := strconv.Atoi(f[1])
		early, late := prio < converter.PriorityStandard, prio > converter.PriorityStandard+100
		cv, plain := newConv(Conf{Strike: true, Table: true}), newConv(Conf{Strike: true, Table: true})
		def, err := convert(plain, f[2])
		if err != nil {
			return &eng.Fail{What: "error: " + err.Error()}
		}
		tag := strings.TrimLeft(f[2][:strings.IndexAny(f[2], "> ")], "<")
		called, seen := 0, ""
		switch f[0] {
		case "render", "decline", "renderfor", "declinefor":
			fn := func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
				if n.Data != tag {
					return converter.RenderTryNext
				}
				called++
				if strings.HasPrefix(f[0], "decline") {
					return converter.RenderTryNext
				}
				w.WriteString("mine")
				return converter.RenderSuccess
			}
			if strings.HasSuffix(f[0], "for") {
				cv.Register.RendererFor(tag, converter.TagTypeInline, fn, prio)
			} else {
				cv.Register.Renderer(fn, prio)
			}
		case "text":
			cv.Register.TextTransformer(func(_ converter.Context, s string) string { called++; seen += s; return s }, prio)
		case "post":
			cv.Register.PostRenderer(func(_ converter.Context, b []byte) []byte { called++; seen = string(b); return b }, prio)
		}
		out, err := convert(cv, f[2])
		if err != nil {
			return &eng.Fail{What: "error: " + err.Error()}
		}
		switch f[0] {
		case "render", "renderfor":
			if early && (called == 0 || !strings.Contains(out, "mine")) {
				return &eng.Fail{What: "an early renderer does not come first", Got: out}
			}
			if !early && (called != 0 || out != def) {
				return &eng.Fail{What: "a late renderer overrides a built-in one", Expected: def, Got: out}
			}
		case "decline", "declinefor":
			if early && called == 0 {
				return &eng.Fail{What: "an early renderer is not asked", Got: out}
			}
			if out != def {
				return &eng.Fail{What: "a renderer that declined changes the output", Expected: def, Got: out}
			}
		case "text":
			if out != def || called == 0 {
				return &eng.Fail{What: "a transformer that changes nothing changes the output, or is not called", Expected: def, Got: out}
			}
			if raw := strings.Contains(seen, "\a"); early == raw {
				return &eng.Fail{What: "an early transformer gets the text before, a later one after the escaping", Got: seen}
			}
		case "post":
			if out != def || called != 1 {
				return &eng.Fail{What: "a post-renderer that changes nothing changes the output, or is not called once", Expected: def, Got: out}
			}
			if late && seen != out {
				return &eng.Fail{What: "a late post-renderer gets something else than the output", Expected: out, Got: seen}
			}
			if early && strings.TrimSpace(seen) == seen {
				return &eng.Fail{What: "an early post-renderer gets the trimmed content", Got: seen}
			}
		}
		return nil
	}
}

// preJudge: pre-renderers that change the tree. The state is "<document> <P..>...":
// P only looks, P+ appends a text, P- removes everything, P! removes the first child.
func preJudge() eng.Judge {
	docs := map[string]string{"none": "<x-r></x-r>", "text": "<x-r>[t:a]</x-r>", "blank": "<x-r>[t: ]</x-r>", "child": "<x-r><p></p></x-r>", "two": "<x-r>[t:a]<b>[t:b]</b></x-r>"}
	change := func(r reg, n *html.Node) {
		switch r.kind {
		case "P+":
			n.AppendChild(&html.Node{Type: html.TextNode, Data: fmt.Sprint("t", r.id)})
		case "P!":
			if n.FirstChild != nil {
				n.RemoveChild(n.FirstChild)
			}
		case "P-":
			for n.FirstChild != nil {
				n.RemoveChild(n.FirstChild)
			}
		}
	}
	show := func(n *html.Node) string {
		var b strings.Builder
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			b.WriteString("[" + c.Data + "]")
		}
		return b.String()
	}
	build := func(s string) *html.Node {
		switch s {
		case "document":
			return &html.Node{Type: html.DocumentNode}
		case "full":
			d := &html.Node{Type: html.DocumentNode}
			d.AppendChild(&html.Node{Type: html.TextNode, Data: "a"})
			return d
		}
		return buildNodes(docs[s]).FirstChild
	}
	return func(state string) *eng.Fail {
		name, rest, _ := strings.Cut(state, " ")
		regs := parseRegs(rest)
		ref := build(name)
		var want []string
		for _, r := range prioritised(regs, "P") {
			want = append(want, fmt.Sprintf("%d%s", r.id, show(ref)))
			change(r, ref)
		}
		want = append(want, "render"+show(ref))
		cv := converter.NewConverter()
		var got []string
		for _, r := range regs {
			cv.Register.PreRenderer(func(_ converter.Context, n *html.Node) {
				got = append(got, fmt.Sprintf("%d%s", r.id, show(n)))
				change(r, n)
			}, r.prio)
		}
		cv.Register.Renderer(func(_ converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			got = append(got, "render"+show(n))
			w.WriteString("out" + show(n))
			return converter.RenderSuccess
		}, 100)
		ImplRuns.Add(1)
		out, err := cv.ConvertNode(build(name))
		if err != nil {
			return &eng.Fail{What: "error: " + err.Error()}
		}
		if a, b := strings.Join(want, "; "), strings.Join(got, "; "); a != b {
			return &eng.Fail{What: "the pre-renderers do not see the tree in their order", Expected: a, Got: b}
		}
		if string(out) != "out"+show(ref) {
			return &eng.Fail{What: "the output is not what the renderer wrote", Expected: "out" + show(ref), Got: string(out)}
		}
		return nil
	}
}

func builtinSpace() eng.Space {
	docs := []string{"<b>a</b>", "<em>a</em>", "<a href=/u>a</a>", "<img src=/u>", "<code>a</code>", "<pre>a</pre>", "<ul><li>a</ul>", "<ol><li>a</ol>", "<h1>a</h1>", "<h6>a</h6>", "<blockquote>a</blockquote>", "<hr>", "<br>a", "<del>a</del>", "<table><tr><th>a<tr><td>b</table>", "<strong>a</strong>", "<i>a</i>", "<s>a</s>", "<kbd>a</kbd>", "<h3>a</h3>"}
	var l []string
	for _, p := range []int{math.MinInt, math.MinInt + 1, math.MinInt32 - 1, -5, 0, 1, 99, 100, 101, 499, 500, 501, 999, 1000, 1001, 5000, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32 + 1, math.MaxInt} {
		for _, k := range []string{"render", "decline", "renderfor", "declinefor"} {
			for _, d := range docs {
				l = append(l, fmt.Sprintf("%s %d %s", k, p, d))
			}
		}
		l = append(l, fmt.Sprintf("text %d <p>x*y", p), fmt.Sprintf("post %d <p>a", p))
	}
	return eng.Space{Name: "next-to-plugins", Bound: "every built-in element, handler kind and priority", NewJudge: builtinJudge, Enum: list(l)}
}

// list enumerates given states.
func list(l []string) func(func(string) bool) {
	return func(emit func(string) bool) {
		for _, s := range l {
			if !emit(s) {
				return
			}
		}
	}
}

package props

import (
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"

	"vmc/eng"

	h2m "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"golang.org/x/net/html"
)

// panicPlugin: handlers of the user that panic on demand, in every phase.
type panicPlugin struct{}

func (panicPlugin) Name() string { return "panics" }
func (panicPlugin) Init(conv *converter.Converter) error {
	conv.Register.RendererFor("x-panic", converter.TagTypeInline, func(converter.Context, converter.Writer, *html.Node) converter.RenderStatus {
		panic("render")
	}, converter.PriorityEarly)
	// A handler that keeps state, which belongs to one conversion.
	conv.Register.RendererFor("x-count", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		converter.UpdateState(ctx, "count", func(i int) int { return i + 1 })
		converter.SetState(ctx, "last", n.Parent.Data)
		fmt.Fprint(w, "n", converter.GetState[int](ctx, "count"))
		return converter.RenderSuccess
	}, converter.PriorityEarly)
	conv.Register.PreRenderer(func(ctx converter.Context, n *html.Node) {
		if s := converter.GetState[string](ctx, "last"); s != "" {
			panic("state of another conversion: " + s)
		}
	}, converter.PriorityEarly)
	conv.Register.TextTransformer(func(_ converter.Context, s string) string {
		if strings.Contains(s, "PANICTEXT") {
			panic("text")
		}
		return s
	}, converter.PriorityEarly)
	conv.Register.PreRenderer(func(_ converter.Context, n *html.Node) {
		if c := n.FirstChild; c != nil && c.Type == html.CommentNode && c.Data == "PANICPRE" {
			panic("pre")
		}
	}, converter.PriorityLate)
	conv.Register.PostRenderer(func(_ converter.Context, b []byte) []byte {
		if strings.Contains(string(b), "PANICPOST") {
			panic("post")
		}
		return b
	}, converter.PriorityLate)
	return nil
}

func panics() []converter.Plugin { return []converter.Plugin{panicPlugin{}} }

var historyConfs = map[string]Conf{
	"A": {Extra: panics},
	"B": {Extra: panics},
	"S": {Extra: panics, Cm: []commonmark.OptionFunc{commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext), commonmark.WithBulletListMarker("*"), commonmark.WithEmDelimiter("_"), commonmark.WithListEndComment(false), commonmark.WithCodeBlockFence("~~~")}},
	"T": {Extra: panics, Strike: true, Table: true},
	"N": {Extra: panics, NoEsc: true, Table: true},
	"P": {}, // nothing but handlers of the user
}

// bareConv has no plugins: what the renderers write is the result.
func bareConv() *converter.Converter {
	c := converter.NewConverter()
	panicPlugin{}.Init(c)
	c.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		if n.Type == html.TextNode {
			w.WriteString(n.Data)
			return converter.RenderSuccess
		}
		w.WriteString("[" + n.Data)
		ctx.RenderChildNodes(ctx, w, n)
		w.WriteString("]")
		return converter.RenderSuccess
	}, converter.PriorityLate)
	return c
}

func historyConv(k string) *converter.Converter {
	if k == "P" {
		return bareConv()
	}
	return newConv(historyConfs[k])
}

var historyDocs = []string{
	`<ul><li>a</li></ul><ul><li>b</li></ul><p>1. c</p>`,
	`<ol start="9"><li>a<ol><li>b</li></ol></li><li>c</li></ol>`,
	"<pre>```\nx</pre><p><code>a`b</code> *c* _d_ [e] &lt;f&gt;</p>",
	`<p><a href="u v" title="t&quot;">l</a><img src="i" alt="m"></p><h2>h<br>i</h2>`,
	`<table><tr><th>a|b<td align="right">c<tr><td colspan="2">d</table><del>e</del>`,
	`<blockquote><p>- q</p><ul><li><p>r</p><pre>s</pre></li></ul></blockquote><hr><b>x</b><b>y</b>`,
	``,
	`<script>s</script><!--c--><textarea>t</textarea><x-y>u</x-y><head>`,
	`<ul><li><x-panic></x-panic></li></ul>`,
	`<!--PANICPRE--><p>a`,
	`<ol><li>PANICTEXT</ol>`,
	`<b>PANICPOST</b>`,
	`<p><x-count></x-count> <x-count></x-count></p>`,
	`<ul><li><x-count></x-count><x-panic></x-panic></ul>`,
}

const bigDoc = 14 // a generated long document

func historyDoc(i string) string {
	n, err := strconv.Atoi(i)
	if err != nil {
		return i // the document itself
	}
	if n == bigDoc {
		return "<ul>" + strings.Repeat("<li>a <b>b</b> *c* <a href=x>d</a></li>\n", 120) + "</ul>"
	}
	return historyDocs[n]
}

type historyKey struct{}

// historyDomains: addresses that are near to each other.
var historyDomains = []string{
	"", "https://h.de", "https://h.de/", "https://h.de/a", "https://h.de/a/", "https://h.de/A", "http://h.de", "h.de", "//h.de", "https://H.de", "https://h.de:443",
	"https://h.de?q", "https://h.de#f", "https://u@h.de", "https://h.de/a/../b", "%zz", " https://h.de ", "https://h.de/%41", "https://h.com",
}

const addressDoc = `<p><a href="x/y">1</a> <a href="/x">2</a> <a href="?q">3</a> <a href="#f">4</a> <a href="//k/x">5</a> <a href="../x">6</a><img src="i.png" alt="7"></p>`

var errFault = errors.New("fault")

// step runs "<converter> <doc> <how>" and returns the bytes (shared with the
// caller), and a description of how it ended.
func step(convs map[string]*converter.Converter, op string) (out []byte, end string) {
	f := strings.SplitN(op, " ", 3)
	domain := ""
	if f[1][0] == 'D' || f[1][0] == 'Q' {
		i, _ := strconv.Atoi(f[1][1:])
		f[1], domain = f[1][:1], historyDomains[i]
	}
	doc := historyDoc(f[2])
	defer func() {
		if p := recover(); p != nil {
			out, end = nil, fmt.Sprint("panic: ", p)
		}
	}()
	ImplRuns.Add(1)
	var err error
	cv := convs[f[0]]
	switch f[1] {
	case "r":
		out, err = cv.ConvertReader(strings.NewReader(doc))
	case "d":
		out, err = cv.ConvertReader(strings.NewReader(doc), converter.WithDomain("https://h.de"))
	case "D":
		out, err = cv.ConvertReader(strings.NewReader(doc), converter.WithDomain(domain))
	case "Q":
		out, err = h2m.ConvertReader(strings.NewReader(doc), converter.WithDomain(domain))
	case "o": // a mistake of the caller, who recovers
		out, err = cv.ConvertReader(strings.NewReader(doc), nil)
	case "c":
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), historyKey{}, "of the caller"))
		out, err = cv.ConvertReader(strings.NewReader(doc), converter.WithContext(ctx))
		cancel()
	case "n":
		n, _ := html.Parse(strings.NewReader(doc))
		out, err = cv.ConvertNode(n)
	case "s":
		var s string
		s, err = cv.ConvertString(doc)
		out = []byte(s)
	case "f":
		out, err = cv.ConvertReader(&pieces{s: doc[:len(doc)/2], end: errFault})
	case "p": // package level
		out, err = h2m.ConvertReader(strings.NewReader(doc), converter.WithDomain("https://p.de"))
	}
	if r := eng.Current(); r != nil {
		r.Outcome(string(out))
	}
	if err != nil {
		return out, "error: " + err.Error()
	}
	return out, "ok"
}

func historyConvs() map[string]*converter.Converter {
	m := map[string]*converter.Converter{}
	for k := range historyConfs {
		m[k] = historyConv(k)
	}
	return m
}

// refs: what an operation does when it is the first one of a fresh process.
var refs sync.Map

func ref(op string) string {
	if v, ok := refs.Load(op); ok {
		return v.(string)
	}
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "sub", "history", op)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		panic(fmt.Sprintf("reference process: %v", err))
	}
	refs.Store(op, string(b))
	return string(b)
}

// historyJudge: the state is a sequence of operations; "x<n>" before an
// operation repeats it.
func historyJudge() eng.Judge {
	return func(state string) *eng.Fail {
		ops := strings.Split(state, sep)
		convs := map[string]*converter.Converter{}
		for _, op := range ops {
			k := op[strings.IndexAny(op, "ABSTNP"):][:1]
			if convs[k] == nil {
				convs[k] = historyConv(k)
			}
		}
		type res struct {
			b    []byte
			copy string
		}
		var handed []res
		for i, op := range ops {
			n := 1
			if op[0] == 'x' {
				c, rest, _ := strings.Cut(op[1:], " ")
				n, _ = strconv.Atoi(c)
				op = rest
			}
			want := ref(op)
			for k := range n {
				out, end := step(convs, op)
				if got := end + "\n" + string(out); got != want {
					return &eng.Fail{What: fmt.Sprintf("operation %d (%q, repetition %d) depends on what happened before", i, op, k), Expected: want, Got: got}
				}
				if k == 0 || k == n-1 {
					handed = append(handed, res{out, string(out)})
				}
			}
			if i == 0 && len(ops) > 2 {
				// The first result belongs to the caller, who overwrites it.
				for j := range handed[0].b {
					handed[0].b[j] = 'X'
				}
				handed[0].copy = string(handed[0].b)
				// also what the slice has room for
				full := handed[0].b[:cap(handed[0].b)]
				for j := range full {
					full[j] = 'X'
				}
			}
		}
		for i, h := range handed {
			if string(h.b) != h.copy {
				return &eng.Fail{What: fmt.Sprintf("result %d was changed later", i), Expected: h.copy, Got: string(h.b)}
			}
		}
		return nil
	}
}

func init() {
	eng.Sub["history"] = func(args []string) int {
		out, end := step(historyConvs(), args[0])
		fmt.Print(end + "\n" + string(out))
		return 0
	}
	var ops []string
	for _, c := range []string{"A", "B", "S", "T", "N", "P"} {
		for d := range bigDoc + 1 {
			ops = append(ops, fmt.Sprintf("%s r %d", c, d))
		}
	}
	for _, d := range []int{1, 3, 5, 8, 12} {
		for _, h := range []string{"d", "n", "s", "f", "p", "o", "c"} {
			ops = append(ops, fmt.Sprintf("A %s %d", h, d))
		}
	}
	few := []string{"A r 0", "A r 1", "A r 2", "A r 3", "A d 3", "T r 4", "A r 5", "A r 6", "A r 8", "A r 9", "A r 10", "A r 11", "A r 12", "A n 12", "A r 13", "A f 5", "S r 5", "A p 3", "A o 0", "N r 2", "P r 0"}
	seqs := func(ops []string, n int) func(func(string) bool) {
		return func(emit func(string) bool) {
			Strings(prefixed(ops), n, []string{"@"})(func(s string) bool {
				return s == "" || emit(s[1:])
			})
		}
	}
	docs := []string{"a", "<p>", "<ul>", "<ol start=9>", "<li>", "<h1>", "<blockquote>", "<hr>", "<br>", "<pre>`</pre>", "<b>", `<a href="u">`, "<code>", "<table>", "<td>", "<img src=i>", "<script>s</script>", "*", "1.", "</>"}
	eng.Register(&eng.Check{
		ID: "C12", NewJudge: historyJudge,
		Rule: "each operation of a history has the outcome it has as the only operation of a process; results of earlier operations stay as they were although the caller overwrites the first one",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				{Name: "histories-2", Bound: fmt.Sprintf("all sequences of at most 2 of %d operations %q", len(ops), ops), Enum: seqs(ops, 2)},
				{Name: "histories-long", Bound: fmt.Sprintf("all sequences of at most %d of %q", t.N(4, 5), few), Enum: seqs(few, t.N(4, 5))},
				{Name: "pairs-of-documents", Bound: "all pairs of documents of at most 2 tokens over " + fmt.Sprintf("%q", docs), Enum: func(emit func(string) bool) {
					var l []string
					Trees(docs, 2, []string{"@"}, nil)(func(s string) bool { l = append(l, "T r "+s); return true })
					for _, a := range l {
						for _, b := range l {
							if !emit(a + sep + b) {
								return
							}
						}
					}
				}},
				{Name: "domains", Bound: fmt.Sprintf("all sequences of at most %d conversions of a document with 7 relative addresses, with the domains %q, by one converter", t.N(2, 3), historyDomains), Enum: func(emit func(string) bool) {
					var l []string
					for i := range historyDomains {
						l = append(l, fmt.Sprintf("A D%d %s", i, addressDoc))
					}
					seqs(l, t.N(2, 3))(emit)
				}},
				{Name: "domains-of-the-package", Bound: "all pairs of the same by the functions of the package", Enum: func(emit func(string) bool) {
					var l []string
					for i := range historyDomains {
						l = append(l, fmt.Sprintf("A Q%d %s", i, addressDoc))
					}
					seqs(l, 2)(emit)
				}},
				{Name: "repetitions", Bound: "every operation 400 times, then every other operation", Enum: func(emit func(string) bool) {
					for _, a := range ops {
						n := "x400 "
						if strings.HasSuffix(a, fmt.Sprint(" ", bigDoc)) {
							n = "x20 "
						}
						if !emit(n + a + sep + strings.Join(ops, sep)) {
							return
						}
					}
				}},
			}
		},
	})
}

func prefixed(l []string) []string {
	var o []string
	for _, s := range l {
		o = append(o, sep+s)
	}
	return o
}

package props

import (
	"context"
	"fmt"
	"strings"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

// callersKeys: keys the caller of a conversion might use.
var callersKeys = []any{"is_inside_link", "is_inside_heading", "domain", "state", "converter", 0, 1, 2, 3}

// nearKeys: other keys than a and b, and near to them or to each other.
var nearKeys = []string{"A", "B", "", " a", "a ", "aa", "a.b", "a\x00", "ä", "a\u0308", "A\u0308", "a.b.c", "a:b", "state", "State", strings.Repeat("a", 300), strings.Repeat("a", 299) + "b"}

type scopeKey struct{}
type runKey struct{}

// scopeRun is what one conversion has to see.
type scopeRun struct {
	prog   string
	e      int
	data   map[string]any
	scope  []int
	domain string
	fail   string
	events []string
	nested func(r *scopeRun)
}

// step performs the next operation of the program and compares everything a
// handler can observe with the model:
//
//   - nothing
//     1 2  set a to 1 or 2, s set a to a text, n set a to nil, b set b to 7
//     u v  add 1 to a, to b
//     k    set every key near a and b (see nearKeys) to a number of its own
//     D    derive a context (used for the children when rendering)
//     C    another conversion with the same converter
func (r *scopeRun) step(ctx converter.Context, where string) converter.Context {
	op := byte('-')
	if r.e < len(r.prog) {
		op = r.prog[r.e]
	}
	r.e++
	r.events = append(r.events, where)
	out := ctx
	switch op {
	case '1', '2':
		converter.SetState(ctx, "a", int(op-'0'))
		r.data["a"] = int(op - '0')
	case 's':
		converter.SetState(ctx, "a", "text")
		r.data["a"] = "text"
	case 'n':
		converter.SetState[any](ctx, "a", nil)
		r.data["a"] = nil
	case 'b':
		converter.SetState(ctx, "b", 7)
		r.data["b"] = 7
	case 'u', 'v':
		k := map[byte]string{'u': "a", 'v': "b"}[op]
		if _, text := r.data[k].(string); text {
			break
		}
		old, _ := r.data[k].(int)
		converter.UpdateState(ctx, k, func(v int) int {
			if v != old {
				r.fail = fmt.Sprintf("%s: update saw %d, not %d", where, v, old)
			}
			return v + 1
		})
		r.data[k] = old + 1
	case 'k':
		for i, k := range nearKeys {
			converter.SetState(ctx, k, r.e*100+i)
			r.data[k] = r.e*100 + i
		}
	case 'w':
		for _, k := range nearKeys {
			old, _ := r.data[k].(int)
			converter.UpdateState(ctx, k, func(v int) int {
				if v != old {
					r.fail = fmt.Sprintf("%s: update of %q saw %d, not %d", where, k, v, old)
				}
				return v + 1
			})
			r.data[k] = old + 1
		}
	case 'D':
		out = ctx.WithValue(scopeKey{}, r.e)
	case 'C':
		r.nested(r)
	}
	scope := 0
	if len(r.scope) > 0 {
		scope = r.scope[len(r.scope)-1]
	}
	r.look(ctx, where, scope)
	if op == 'D' {
		r.look(out, where+" (derived)", r.e)
	}
	return out
}

func (r *scopeRun) look(ctx converter.Context, where string, scope int) {
	ai, _ := r.data["a"].(int)
	as, _ := r.data["a"].(string)
	bi, _ := r.data["b"].(int)
	got := fmt.Sprint(converter.GetState[int](ctx, "a"), converter.GetState[string](ctx, "a"), converter.GetState[int](ctx, "b"), converter.GetState[any](ctx, "a"), converter.GetState[any](ctx, "c"), converter.GetDomain(ctx), ctx.Err())
	exp := fmt.Sprint(ai, as, bi, r.data["a"], nil, r.domain, nil)
	for _, k := range nearKeys {
		want, _ := r.data[k].(int)
		if v := converter.GetState[int](ctx, k); v != want && r.fail == "" {
			r.fail = fmt.Sprintf("%s (event %d): %q is %d, not %d", where, r.e, k, v, want)
		}
	}
	s, _ := ctx.Value(scopeKey{}).(int)
	if r.fail == "" && (got != exp || s != scope) {
		r.fail = fmt.Sprintf("%s (event %d): saw %q scope %d, not %q scope %d", where, r.e, got, s, exp, scope)
	}
}

func scopeConverter() *converter.Converter {
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin()))
	get := func(ctx converter.Context) *scopeRun {
		r, _ := ctx.Value(runKey{}).(*scopeRun)
		if r == nil {
			panic("the context of the caller is lost")
		}
		return r
	}
	for _, name := range []string{"x-a", "x-b", "x-c"} {
		t := converter.TagTypeInline
		if name == "x-b" {
			t = converter.TagTypeBlock
		}
		c.Register.RendererFor(name, t, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			r := get(ctx)
			sub := r.step(ctx, "render "+n.Data)
			push := sub != ctx
			if push {
				r.scope = append(r.scope, r.e)
			}
			ctx.RenderChildNodes(sub, w, n)
			if push {
				r.scope = r.scope[:len(r.scope)-1]
			}
			r.step(ctx, "after "+n.Data)
			return converter.RenderSuccess
		}, converter.PriorityEarly)
	}
	c.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) { get(ctx).step(ctx, "pre") }, converter.PriorityEarly)
	c.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) { get(ctx).step(ctx, "late pre") }, converter.PriorityLate+500)
	c.Register.TextTransformer(func(ctx converter.Context, s string) string { get(ctx).step(ctx, "text "+s); return s }, converter.PriorityStandard)
	c.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { get(ctx).step(ctx, "post"); return b }, converter.PriorityStandard)
	return c
}

// stateJudge: a state is a document, and a program.
func stateJudge() eng.Judge {
	c := scopeConverter()
	return func(state string) *eng.Fail {
		doc, prog, _ := strings.Cut(state, sep)
		nested := 0
		var run func(prog, doc, domain string, deep bool) (*scopeRun, *eng.Fail)
		run = func(prog, doc, domain string, deep bool) (*scopeRun, *eng.Fail) {
			r := &scopeRun{prog: prog, data: map[string]any{}, domain: domain}
			r.nested = func(o *scopeRun) {
				if deep {
					return
				}
				nested++
				in, f := run("b-2Dvu", "<x-c>n<x-b>m</x-b></x-c>", fmt.Sprint("https://n.e/", nested), true)
				if f != nil {
					o.fail = "in a conversion inside: " + f.What
				} else if in.fail != "" {
					o.fail = "in a conversion inside: " + in.fail
				}
			}
			ctx := context.WithValue(context.Background(), runKey{}, r)
			out, err := convert(c, doc, converter.WithContext(ctx), converter.WithDomain(domain))
			if err != nil {
				return r, &eng.Fail{What: "error: " + err.Error()}
			}
			if r.fail != "" {
				return r, &eng.Fail{What: r.fail, Got: strings.Join(r.events, "; "), Output: out}
			}
			if r.e == 0 {
				return r, &eng.Fail{What: "no handler was called"}
			}
			return r, nil
		}
		if _, f := run(prog, doc, "https://a.b/c", false); f != nil {
			return f
		}
		// the next conversion knows nothing of this one
		if _, f := run("--u", doc, "https://d.e/", false); f != nil {
			f.What = "the next conversion: " + f.What
			return f
		}
		return nil
	}
}

// treeJudge: x-a derives a context for its children; every text below, through
// whatever elements of Markdown, sees the value of the nearest one.
func treeScopeJudge() eng.Judge {
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin()))
	type trace struct {
		want map[string]string
		fail string
	}
	check := func(ctx converter.Context, what, want string) {
		t, _ := ctx.Value(runKey{}).(*trace)
		if t == nil {
			panic("the context of the caller is lost")
		}
		got, _ := ctx.Value(scopeKey{}).(string)
		if t.fail == "" && (got != want || converter.GetDomain(ctx) != "https://d.e") {
			t.fail = fmt.Sprintf("%s sees %q, not %q (domain %q)", what, got, want, converter.GetDomain(ctx))
		}
		converter.UpdateState(ctx, "seen", func(n int) int { return n + 1 })
	}
	c.Register.RendererFor("x-a", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		want := ""
		for p := n.Parent; p != nil; p = p.Parent {
			if p.Data == "x-a" {
				want = getAttr(p, "id")
				break
			}
		}
		check(ctx, "x-a "+getAttr(n, "id"), want)
		ctx.RenderChildNodes(ctx.WithValue(scopeKey{}, getAttr(n, "id")), w, n)
		check(ctx, "after x-a "+getAttr(n, "id"), want)
		return converter.RenderSuccess
	}, converter.PriorityEarly)
	c.Register.TextTransformer(func(ctx converter.Context, s string) string {
		t, _ := ctx.Value(runKey{}).(*trace)
		if t == nil {
			panic("the context of the caller is lost")
		}
		if want, ok := t.want[strings.TrimSpace(s)]; ok {
			check(ctx, "text "+s, want)
		}
		return s
	}, converter.PriorityEarly)
	c.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { check(ctx, "post", ""); return b }, converter.PriorityEarly)
	return func(state string) *eng.Fail {
		// number the texts and the scopes
		var b strings.Builder
		n := 0
		for i := 0; i < len(state); i++ {
			switch {
			case state[i] == '@':
				n++
				fmt.Fprintf(&b, "t%d", n)
			case strings.HasPrefix(state[i:], "<x-a>"):
				n++
				fmt.Fprintf(&b, `<x-a id="s%d">`, n)
				i += 4
			default:
				b.WriteByte(state[i])
			}
		}
		doc, err := html.Parse(strings.NewReader(b.String()))
		if err != nil {
			return nil
		}
		t := &trace{want: map[string]string{}}
		var walk func(n *html.Node, scope string)
		walk = func(n *html.Node, scope string) {
			if n.Type == html.TextNode {
				s := strings.TrimSpace(n.Data)
				if o, ok := t.want[s]; ok && o != scope {
					scope = "?"
				}
				t.want[s] = scope
			}
			if n.Data == "x-a" {
				scope = getAttr(n, "id")
			}
			for c := n.FirstChild; c != nil; c = c.NextSibling {
				walk(c, scope)
			}
		}
		walk(doc, "")
		for k, v := range t.want {
			if v == "?" {
				delete(t.want, k)
			}
		}
		ctx := context.WithValue(context.Background(), runKey{}, t)
		out, err := convert(c, b.String(), converter.WithContext(ctx), converter.WithDomain("https://d.e"))
		if err != nil {
			return &eng.Fail{What: "error: " + err.Error()}
		}
		if t.fail != "" {
			return &eng.Fail{What: t.fail, Output: out}
		}
		// Other values of the caller say nothing about the conversion.
		for _, k := range callersKeys {
			ctx = context.WithValue(ctx, k, false)
		}
		out2, err := convert(c, b.String(), converter.WithContext(ctx), converter.WithDomain("https://d.e"))
		if err != nil || out != out2 || t.fail != "" {
			return &eng.Fail{What: "with values of the caller in the context: " + t.fail, Expected: out, Got: out2, Output: fmt.Sprint(err)}
		}
		return nil
	}
}

func init() {
	programs := func(docs []string, events int, ops string, k int) func(func(string) bool) {
		return func(emit func(string) bool) {
			prog := []byte(strings.Repeat("-", events))
			var rec func(from, left int) bool
			rec = func(from, left int) bool {
				if left == 0 {
					for _, d := range docs {
						if !emit(d + sep + string(prog)) {
							return false
						}
					}
					return true
				}
				for i := from; i < events; i++ {
					for j := 0; j < len(ops); j++ {
						prog[i] = ops[j]
						if !rec(i+1, left-1) {
							return false
						}
					}
					prog[i] = '-'
				}
				return true
			}
			for n := 0; n <= k; n++ {
				if !rec(0, n) {
					return
				}
			}
		}
	}
	docs := []string{"<x-a>t<x-a>u</x-a>v</x-a>", "<p><x-a><b>t</b></x-a></p><x-b>u</x-b>", "<table><tr><td><x-a>t</x-a></td><td>u</td></tr></table>v"}
	eng.Register(&eng.Check{
		ID:       "C25",
		Rule:     "a model of the state (one map per conversion, a stack of derived values) is stepped along with the real handlers; after every handler call everything that a handler can observe is compared with it",
		NewJudge: stateJudge,
		Assumptions: []string{
			"Updating a value with a function for another type is not covered (the tool prints a warning).",
		},
		Spaces: func(t eng.Tier) []eng.Space {
			k := t.N(4, 5)
			return []eng.Space{
				{Name: "programs", Bound: fmt.Sprintf("every placement of up to %d operations (of 11) on the first 10 handler calls, 3 documents, followed by a second conversion", k), Enum: programs(docs, 10, "12snbuvDCkw", k-1)},
				{Name: "domains", Bound: "a conversion inside of a handler, with every pair of 5 domains, in every kind of handler, with the context of the outer conversion, a derived one or none, with the same converter or another one, up to three levels", Enum: list(domainStates()), NewJudge: domainJudge},
				{Name: "updates", Bound: fmt.Sprintf("every placement of up to %d operations (of 5) on the first 10 handler calls", k), Enum: programs(docs[:1], 10, "1uDCb", k)},
				{Name: "trees", Bound: fmt.Sprintf("all trees of 9 tokens up to %d", k+2), Enum: Trees([]string{"@", "<x-a>", "<b>", "<i>", `<a href="/u">`, "<img src=i>", "<code>", "<del>", "</>"}, k+2, []string{"<p>@</p>"}, nil), NewJudge: treeScopeJudge},
				{Name: "blocks", Bound: fmt.Sprintf("all trees of 10 tokens up to %d", k+1), Enum: Trees([]string{"@", "<x-a>", "<p>", "<ul>", "<li>", "<blockquote>", "<h2>", "<pre>", "<span>", "</>"}, k+1, []string{"@"}, nil), NewJudge: treeScopeJudge},
				{Name: "tables", Bound: fmt.Sprintf("all trees of 8 tokens up to %d", k+2), Enum: Trees([]string{"@", "<x-a>", "<tr>", "<td>", "<th>", "<caption>", "<p>", "</>"}, k+2, []string{"<table>@</table>", "<table><tr><td>@</td><td>@</td></tr></table>"}, nil), NewJudge: treeScopeJudge},
			}
		},
	})
}

func domainStates() (l []string) {
	ds := []string{"", "h.io", "http://x.de/y/", "https://h.io", "/"}
	for _, where := range W("pre render text post") {
		for _, how := range W("ctx derived none late-ctx") {
			for _, conv := range W("same other") {
				for _, a := range ds {
					for _, b := range ds {
						for _, c := range ds {
							l = append(l, strings.Join([]string{where, how, conv, a, b, c}, sep))
						}
					}
				}
			}
		}
	}
	return l
}

// domainJudge: every conversion has the domain it was given, and no other,
// also if it runs inside of another one, and after the inner one is over.
func domainJudge() eng.Judge {
	type levelKey struct{}
	return func(state string) *eng.Fail {
		f := strings.Split(state, sep)
		where, how, domains := f[0], f[1], f[3:]
		var fail string
		plain := func(d string) string {
			out, err := convert(newConv(Conf{}), `<a href="/u">a</a>`, converter.WithDomain(d))
			if err != nil {
				panic(err)
			}
			return out
		}
		var convs []*converter.Converter
		level := 0
		var run func(ctx context.Context)
		hook := func(ctx converter.Context) {
			me := level
			look := func(when string) {
				if d := converter.GetDomain(ctx); d != domains[me] && fail == "" {
					fail = fmt.Sprintf("level %d, %s: the domain is %q, not %q", me, when, d, domains[me])
				}
			}
			look("before")
			if me+1 < len(domains) {
				level++
				var c context.Context = ctx
				if how == "derived" {
					c = ctx.WithValue(levelKey{}, me)
				}
				run(c)
				level--
				look("after")
			}
		}
		build := func() *converter.Converter {
			cv := newConv(Conf{})
			switch where {
			case "pre":
				cv.Register.PreRenderer(func(ctx converter.Context, _ *html.Node) { hook(ctx) }, converter.PriorityEarly)
			case "post":
				cv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { hook(ctx); return b }, converter.PriorityLate)
			case "text":
				cv.Register.TextTransformer(func(ctx converter.Context, s string) string { hook(ctx); return s }, converter.PriorityEarly)
			case "render":
				cv.Register.RendererFor("a", converter.TagTypeInline, func(ctx converter.Context, _ converter.Writer, _ *html.Node) converter.RenderStatus {
					hook(ctx)
					return converter.RenderTryNext
				}, converter.PriorityEarly)
			}
			return cv
		}
		for range domains {
			if f[2] == "other" || len(convs) == 0 {
				convs = append(convs, build())
			} else {
				convs = append(convs, convs[0])
			}
		}
		run = func(ctx context.Context) {
			d := domains[level]
			var opts []converter.ConvertOptionFunc
			if how != "none" && ctx != nil && how != "late-ctx" {
				opts = append(opts, converter.WithContext(ctx))
			}
			if d != "" {
				opts = append(opts, converter.WithDomain(d))
			}
			if how == "late-ctx" && ctx != nil {
				opts = append(opts, converter.WithContext(ctx))
			}
			ImplRuns.Add(1)
			out, err := convs[level].ConvertString(`<a href="/u">a</a>`, opts...)
			if fail == "" && err != nil {
				fail = "error: " + err.Error()
			}
			if exp := plain(d); fail == "" && out != exp {
				fail = fmt.Sprintf("level %d has %q, not %q", level, out, exp)
			}
		}
		run(nil)
		if fail != "" {
			return &eng.Fail{What: fail}
		}
		return nil
	}
}

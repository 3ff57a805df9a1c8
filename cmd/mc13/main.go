// Command mc13 enumerates the schedules of concurrent uses of one converter.
// It is built with the race detector and with the synchronisation operations
// of the code under test replaced by scheduling points (see props/c13.go).
//
//	mc13 list
//	mc13 run <scenario> <preemption bound> <seconds> <journal file>
//	mc13 replay <scenario> <comma separated choices>
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"slices"
	"strconv"
	"strings"
	"time"

	"vmc/vsched"

	h2m "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

type render = func(converter.Context, converter.Writer, *html.Node) converter.RenderStatus

func wrapWith(a, b string) render {
	return func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		w.WriteString(a)
		ctx.RenderChildNodes(ctx, w, n)
		w.WriteString(b)
		return converter.RenderSuccess
	}
}

type kind struct{ full, bare bool }

func newConv(k kind) *converter.Converter {
	pl := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()}
	if k.bare {
		pl = pl[1:]
	}
	if k.full {
		pl = append(pl, strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin())
	}
	c := converter.NewConverter(converter.WithPlugins(pl...))
	c.Register.RendererFor("x-panic", converter.TagTypeInline, func(converter.Context, converter.Writer, *html.Node) converter.RenderStatus {
		panic("user")
	}, converter.PriorityStandard)
	c.Register.RendererFor("x-nested", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		s, err := c.ConvertString("<b>i</b>*")
		if err != nil {
			s = err.Error()
		}
		w.WriteString(s)
		return converter.RenderSuccess
	}, converter.PriorityStandard)
	c.Register.RendererFor("x-reg", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		c.Register.TagType("x-b", converter.TagTypeBlock, converter.PriorityEarly)
		c.Register.Renderer(func(converter.Context, converter.Writer, *html.Node) converter.RenderStatus {
			return converter.RenderTryNext
		}, 1)
		w.WriteString("r")
		return converter.RenderSuccess
	}, converter.PriorityStandard)
	// Registered in an order that is not the one they count in.
	c.Register.TagType("x-c", converter.TagTypeBlock, converter.PriorityLate)
	c.Register.TagType("x-c", converter.TagTypeInline, converter.PriorityEarly)
	c.Register.TagType("x-c", converter.TagTypeBlock, converter.PriorityStandard)
	return c
}

// A page of which the threads convert different parts. The pages belong to a
// converter and are made before the threads start.
const page = `<p>x <b>a</b></p><p><b>c</b> y<i><code>d</code></i></p><ul><li>e</li></ul><ul><li>f</li></ul><b>g</b>`

var pages = map[*converter.Converter][]*html.Node{}

func newPage() []*html.Node {
	doc, err := html.Parse(strings.NewReader(page))
	if err != nil {
		panic(err)
	}
	var l []*html.Node
	for n := doc.FirstChild.LastChild.FirstChild; n != nil; n = n.NextSibling {
		l = append(l, n)
	}
	return l
}

func part(i int) op {
	return op{name: "part" + strconv.Itoa(i), doc: page, call: func(c *converter.Converter, _ string) (string, error) {
		l := pages[c]
		if l == nil {
			l = newPage()
		}
		b, err := c.ConvertNode(l[i])
		return string(b), err
	}}
}

// op is one thread.
type op struct {
	name string
	// conversions have a document, registrations change the converter.
	doc  string
	call func(c *converter.Converter, doc string) (string, error)
	reg  func(c *converter.Converter)
	kind
}

// badPlugin fails.
type badPlugin struct{ name string }

func (b badPlugin) Name() string                    { return b.name }
func (b badPlugin) Init(*converter.Converter) error { return errors.New("bad " + b.name) }

func viaString(c *converter.Converter, doc string) (string, error) { return c.ConvertString(doc) }

func ops() map[string]op {
	l := []op{
		{name: "text", doc: `<p>*a* %b%<x-c>c</x-c></p>`, call: viaString},
		{name: "list", doc: `<ol><li>a</li></ol><ul><li>b</ul><ul><li>c</ul>`, call: viaString},
		{name: "custom", doc: `<x-a>1</x-a> <x-a>2</x-a> <x-b>3<x-c>4</x-c></x-b>`, call: viaString},
		{name: "del", doc: `<del>a</del><em>b</em><table><tr><th>c</table>`, call: viaString},
		{name: "table", kind: kind{full: true}, doc: `<del>~a~</del><table><tr><th>c|<td>d<tr><td colspan=2>e</table>`, call: viaString},
		{name: "link", doc: `<a href="u v">x</a><code>y</code><img src=z>`, call: func(c *converter.Converter, doc string) (string, error) {
			return c.ConvertString(doc, converter.WithDomain("https://h.de"))
		}},
		{name: "nested", doc: `a<x-nested></x-nested>b`, call: viaString},
		{name: "registers", doc: `<x-b>1</x-b><x-reg></x-reg>`, call: viaString},
		{name: "panics", doc: `a<ul><li>*<x-panic></x-panic></ul>`, call: func(c *converter.Converter, doc string) (s string, err error) {
			defer func() {
				if p := recover(); p != nil {
					s = fmt.Sprint("panic ", p)
				}
			}()
			return c.ConvertString(doc)
		}},
		{name: "package", doc: `<p>*a*</p><ul><li>b</ul><ul><li>c</ul>`, call: func(_ *converter.Converter, doc string) (string, error) {
			return h2m.ConvertString(doc)
		}},
		{name: "own", kind: kind{full: true}, doc: `<p>*a*</p><del>d</del>`, call: func(_ *converter.Converter, doc string) (string, error) {
			return newConv(kind{full: true}).ConvertString(doc)
		}},

		{name: "reg-plugin", reg: func(c *converter.Converter) { c.Register.Plugin(strikethrough.NewStrikethroughPlugin()) }},
		{name: "reg-table", reg: func(c *converter.Converter) { c.Register.Plugin(table.NewTablePlugin()) }},
		{name: "reg-base", kind: kind{bare: true}, reg: func(c *converter.Converter) { c.Register.Plugin(base.NewBasePlugin()) }},
		{name: "reg-bad", reg: func(c *converter.Converter) { c.Register.Plugin(badPlugin{"x"}) }},
		{name: "reg-renderer", reg: func(c *converter.Converter) {
			f := wrapWith("«", "»")
			c.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
				if n.Data == "x-a" || n.Data == "em" {
					return f(ctx, w, n)
				}
				return converter.RenderTryNext
			}, converter.PriorityEarly)
		}},
		{name: "reg-rendererfor", reg: func(c *converter.Converter) {
			c.Register.RendererFor("x-a", converter.TagTypeInline, wrapWith("«", "»"), converter.PriorityStandard)
		}},
		{name: "reg-tagtype", reg: func(c *converter.Converter) {
			c.Register.TagType("x-a", converter.TagTypeBlock, converter.PriorityStandard)
		}},
		{name: "reg-inline", reg: func(c *converter.Converter) {
			c.Register.TagType("x-a", converter.TagTypeInline, converter.PriorityEarly)
		}},
		{name: "reg-tagtype2", reg: func(c *converter.Converter) {
			c.Register.TagType("p", converter.TagTypeInline, converter.PriorityEarly)
			c.Register.TagType("head", converter.TagTypeRemove, converter.PriorityStandard)
		}},
		{name: "reg-pre", reg: func(c *converter.Converter) {
			c.Register.PreRenderer(func(_ converter.Context, d *html.Node) {}, converter.PriorityEarly)
		}},
		{name: "reg-post", reg: func(c *converter.Converter) {
			c.Register.PostRenderer(func(_ converter.Context, b []byte) []byte { return append(append([]byte("«"), b...), "»"...) }, converter.PriorityLate)
		}},
		{name: "reg-text", reg: func(c *converter.Converter) {
			c.Register.TextTransformer(func(_ converter.Context, s string) string {
				if strings.TrimSpace(s) == "" {
					return s
				}
				return "«" + s + "»"
			}, converter.PriorityLate)
		}},
		{name: "reg-escape", reg: func(c *converter.Converter) {
			c.Register.EscapedChar('%')
			c.Register.UnEscaper(func(chars []byte, i int) int {
				if chars[i] == '%' {
					return 1
				}
				return -1
			}, converter.PriorityStandard)
		}},
	}
	for i := range newPage() {
		l = append(l, part(i))
	}
	m := map[string]op{}
	for _, o := range l {
		m[o.name] = o
	}
	return m
}

func scenarios() []string {
	var conv, reg []string
	for n, o := range ops() {
		if strings.HasPrefix(n, "part") {
			continue
		}
		if o.reg != nil {
			reg = append(reg, n)
		} else {
			conv = append(conv, n)
		}
	}
	slices.Sort(conv)
	slices.Sort(reg)
	var l []string
	for i, a := range conv {
		for _, b := range conv[i:] {
			l = append(l, a+"+"+b)
		}
		for _, b := range reg {
			// A conversion without the base plugin is not possible.
			if b != "reg-base" {
				l = append(l, a+"+"+b)
			}
		}
	}
	for i, a := range reg {
		for _, b := range reg[i:] {
			l = append(l, a+"+"+b)
		}
	}
	// parts of one page
	for i := range newPage() {
		for j := range i {
			l = append(l, fmt.Sprintf("part%d+part%d", j, i))
		}
		l = append(l, fmt.Sprintf("part%d+reg-rendererfor", i), fmt.Sprintf("part%d+text", i))
	}
	// three threads
	for _, a := range []string{"text", "custom", "nested"} {
		for i, b := range reg {
			for _, c := range reg[i:] {
				if strings.HasPrefix(b, "reg-tag") || strings.HasPrefix(b, "reg-rend") || b == c && b != "reg-base" {
					l = append(l, a+"+"+b+"+"+c)
				}
			}
		}
		l = append(l, a+"+text+text", a+"+panics+reg-tagtype", a+"+text+reg-tagtype", a+"+registers+reg-renderer")
	}
	return l
}

var strip = strings.NewReplacer("«", "", "»", "", `\`, "", "*", "", "\n", "", " ", "", "~", "", "|", "", "-", "")

// must run without managed threads.
func outcome(o op, c *converter.Converter) string {
	s, err := o.call(c, o.doc)
	if err != nil {
		return "error: " + err.Error()
	}
	return s
}

func permutations(l []op) [][]op {
	if len(l) == 0 {
		return [][]op{nil}
	}
	var out [][]op
	for i := range l {
		rest := append(append([]op{}, l[:i]...), l[i+1:]...)
		for _, p := range permutations(rest) {
			out = append(out, append([]op{l[i]}, p...))
		}
	}
	return out
}

type scenario struct {
	threads []op
	probes  []op
	kind    kind
	bad     bool // a plugin that fails is registered
	regs    []op
	base    []string              // what each conversion gives alone
	stages  []map[string]struct{} // what each conversion gives between registrations
	after   map[string]struct{}   // what all probes give after all registrations, in some order
}

func (s *scenario) probe(c *converter.Converter) string {
	var b strings.Builder
	for _, p := range s.probes {
		b.WriteString(p.name + ": " + outcome(p, c) + "\n")
	}
	return b.String()
}

func newScenario(name string) *scenario {
	all := ops()
	s := &scenario{after: map[string]struct{}{}}
	for _, n := range strings.Split(name, "+") {
		o := all[n]
		s.threads = append(s.threads, o)
		s.kind.full = s.kind.full || o.full
		s.kind.bare = s.kind.bare || o.bare
		if o.reg != nil {
			s.regs = append(s.regs, o)
		}
		s.bad = s.bad || o.name == "reg-bad"
		if o.name == "registers" {
			s.regs = append(s.regs, op{name: "by-handler", reg: func(c *converter.Converter) { c.ConvertString("<x-reg>") }})
		}
	}
	for _, n := range []string{"text", "custom", "del", "list"} {
		s.probes = append(s.probes, all[n])
	}
	for _, o := range s.threads {
		if o.reg != nil {
			s.base = append(s.base, "")
			continue
		}
		s.base = append(s.base, outcome(o, newConv(s.kind)))
	}
	for range s.threads {
		s.stages = append(s.stages, map[string]struct{}{})
	}
	for _, p := range permutations(s.regs) {
		for n := range len(p) + 1 {
			for i, o := range s.threads {
				if o.reg == nil && o.name != "registers" {
					c := newConv(s.kind)
					for _, r := range p[:n] {
						r.reg(c)
					}
					s.stages[i][outcome(o, c)] = struct{}{}
				}
			}
		}
		c := newConv(s.kind)
		for _, r := range p {
			r.reg(c)
		}
		s.after[s.probe(c)] = struct{}{}
	}
	return s
}

// run executes one schedule and says what is wrong.
func (s *scenario) run(pre []int32) (vsched.Result, string) {
	c := newConv(s.kind)
	pages[c] = newPage()
	defer delete(pages, c)
	out := make([]string, len(s.threads))
	fail := make([]string, len(s.threads))
	var bodies []func()
	for i, o := range s.threads {
		bodies = append(bodies, func() {
			defer func() {
				if p := recover(); p != nil {
					fail[i] = fmt.Sprintf("%s panics: %v", o.name, p)
				}
			}()
			if o.reg != nil {
				o.reg(c)
				return
			}
			out[i] = outcome(o, c)
		})
	}
	res := vsched.Run(pre, bodies)
	if res.Deadlock {
		return res, "deadlock"
	}
	if res.Overflow {
		return res, ""
	}
	for i, o := range s.threads {
		if fail[i] != "" {
			return res, fail[i]
		}
		if o.reg != nil {
			continue
		}
		if len(s.regs) == 0 || o.name == "package" || o.name == "own" {
			if out[i] != s.base[i] {
				return res, fmt.Sprintf("%s gives %q, alone it gives %q", o.name, out[i], s.base[i])
			}
			continue
		}
		if _, ok := s.stages[i][out[i]]; ok {
			continue
		}
		if s.bad && strings.Contains(out[i], `error while initializing "x" plugin: bad x`) {
			continue
		}
		if strip.Replace(out[i]) != strip.Replace(s.base[i]) {
			return res, fmt.Sprintf("%s gives %q, alone it gives %q", o.name, out[i], s.base[i])
		}
		if o.name == "custom" && strings.Contains(out[i], "«1»") && !strings.Contains(out[i], "«2»") {
			return res, fmt.Sprintf("%s gives %q: the registration is forgotten again", o.name, out[i])
		}
	}
	// Nothing registered is lost, nothing else has changed.
	got := s.probe(c)
	if _, ok := s.after[got]; !ok {
		return res, fmt.Sprintf("afterwards the converter gives %q, expected one of %q", got, keys(s.after))
	}
	return res, ""
}

func keys(m map[string]struct{}) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	slices.Sort(l)
	return l
}

func choices(l []int32) string {
	var p []string
	for _, v := range l {
		p = append(p, strconv.Itoa(int(v)))
	}
	return strings.Join(p, ",")
}

// Report of one scenario.
type Report struct {
	Scenario  string
	Schedules int64
	Points    int64
	MaxPoints int
	Complete  bool // within the bound
	Bound     int  // complete up to this bound (-1: none)
	Free      int64
	What      string
	Schedule  string
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, s := range scenarios() {
			fmt.Println(s)
		}
	case "replay":
		s := newScenario(os.Args[2])
		var pre []int32
		for _, f := range strings.Split(os.Args[3], ",") {
			n, _ := strconv.Atoi(f)
			pre = append(pre, int32(n))
		}
		_, what := s.run(pre)
		fmt.Println("result:", what)
		if what != "" {
			os.Exit(1)
		}
	case "run":
		bound, _ := strconv.Atoi(os.Args[3])
		secs, _ := strconv.Atoi(os.Args[4])
		end := time.Now().Add(time.Duration(secs) * time.Second)
		j, _ := os.OpenFile(os.Args[5], os.O_RDWR|os.O_CREATE, 0o600)
		r := Report{Scenario: os.Args[2]}
		s := newScenario(os.Args[2])
		r.Bound = -1
	bounds:
		for k := 0; k <= bound; k++ {
			var pre []int32
			for {
				if j != nil {
					text := choices(pre)
					j.WriteAt([]byte(fmt.Sprintf("%8d%s", len(text), text)), 0)
				}
				res, what := s.run(pre)
				r.Schedules++
				r.Points += int64(res.Points)
				r.MaxPoints = max(r.MaxPoints, res.Points)
				if res.Free || res.Overflow {
					r.Free++
				}
				if what != "" {
					r.What, r.Schedule = what, choices(res.Schedule)
					break bounds
				}
				pre = res.Next(k)
				if pre == nil {
					break
				}
				if r.Free > 3 || time.Now().After(end) {
					break bounds
				}
			}
			r.Bound = k
		}
		r.Complete = r.Bound == bound && r.Free == 0
		json.NewEncoder(os.Stdout).Encode(r)
	}
}

// Package props holds the checks, one file per property (or small group).
package props

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"vmc/canon"
	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"github.com/yuin/goldmark"
	"github.com/yuin/goldmark/extension"
	gh "github.com/yuin/goldmark/renderer/html"
	"golang.org/x/net/html"
)

// ImplRuns counts executions of the implementation.
var ImplRuns atomic.Int64

func init() { eng.ImplRuns = ImplRuns.Load }

// Conf is a configuration of the converter.
type Conf struct {
	Cm     []commonmark.OptionFunc
	Strike bool
	Table  bool
	// Extra plugins (made anew for every converter).
	Extra func() []converter.Plugin
	NoEsc bool
	Name  string
}

func newConv(c Conf) *converter.Converter {
	pl := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(c.Cm...)}
	if c.Strike {
		pl = append(pl, strikethrough.NewStrikethroughPlugin())
	}
	if c.Table {
		pl = append(pl, table.NewTablePlugin())
	}
	if c.Extra != nil {
		pl = append(pl, c.Extra()...)
	}
	if c.NoEsc {
		return converter.NewConverter(converter.WithPlugins(pl...), converter.WithEscapeMode(converter.EscapeModeDisabled))
	}
	return converter.NewConverter(converter.WithPlugins(pl...))
}

// conv runs the implementation, recording the outcome.
func convert(c *converter.Converter, in string, opts ...converter.ConvertOptionFunc) (string, error) {
	ImplRuns.Add(1)
	out, err := c.ConvertString(in, opts...)
	if r := eng.Current(); r != nil {
		r.Outcome(out)
	}
	return out, err
}

func newGM(ext ...goldmark.Extender) goldmark.Markdown {
	return goldmark.New(goldmark.WithExtensions(ext...), goldmark.WithRendererOptions(gh.WithUnsafe()))
}

func gmFor(c Conf) goldmark.Markdown {
	var e []goldmark.Extender
	if c.Strike {
		e = append(e, extension.Strikethrough)
	}
	if c.Table {
		e = append(e, extension.Table)
	}
	return newGM(e...)
}

func render(gm goldmark.Markdown, md string) string {
	if strings.Contains(md, "\r") {
		// A carriage return is a line ending, goldmark does not know that.
		md = strings.ReplaceAll(strings.ReplaceAll(md, "\r\n", "\n"), "\r", "\n")
	}
	md = firstRule(md)
	var buf bytes.Buffer
	if err := gm.Convert([]byte(md), &buf); err != nil {
		panic(err)
	}
	return buf.String()
}

// fidelity compares what a reader sees in the HTML with what a reader sees in
// the rendered Markdown.
func fidelity(c Conf, opt canon.Options) func() eng.Judge { return fidelityOf(c, opt, false) }

// fidelityOf: all also judges what CommonMark is not able to express in the
// usual way.
func fidelityOf(c Conf, opt canon.Options, all bool) func() eng.Judge {
	return func() eng.Judge {
		cv := newConv(c)
		gm := gmFor(c)
		return func(in string) *eng.Fail {
			md, err := convert(cv, in)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			back := render(gm, md)
			exp, ok := canon.Observe(in, opt)
			if !ok && !all {
				return nil
			}
			got := canon.OfString(back, opt).String()
			if exp != got {
				return &eng.Fail{What: "the rendered Markdown does not say what the HTML said", Expected: exp, Got: got, Output: md}
			}
			return nil
		}
	}
}

// Strings enumerates all strings over the tokens, shortest first, up to n
// tokens, and substitutes them for every @ of every wrapper.
func Strings(alpha []string, n int, wraps []string) func(func(string) bool) {
	return func(emit func(string) bool) {
		stopped := false
		for d := 0; d <= n && !stopped; d++ {
			var rec func(p string, left int)
			rec = func(p string, left int) {
				if stopped {
					return
				}
				if left == 0 {
					for _, w := range wraps {
						if !emit(strings.ReplaceAll(w, "@", p)) {
							stopped = true
							return
						}
					}
					return
				}
				for _, a := range alpha {
					rec(p+a, left-1)
				}
			}
			rec("", d)
		}
	}
}

// Trees enumerates documents generated by a bracket grammar: a token "<x ..>"
// opens an element, "</>" closes the innermost one, "<x/>" and anything else
// is written as it is. Everything still open at the end is closed. Shortest
// first, up to n tokens.
func Trees(alpha []string, n int, wraps []string, filter func(stack []string, tok string) bool) func(func(string) bool) {
	type tok struct {
		s     string
		open  string
		close bool
	}
	var toks []tok
	for _, a := range alpha {
		t := tok{s: a}
		if a == "</>" {
			t.close = true
		} else if strings.HasPrefix(a, "<br") || strings.HasPrefix(a, "<img") || strings.HasPrefix(a, "<hr") {
		} else if strings.HasPrefix(a, "<") && strings.HasSuffix(a, ">") && !strings.HasSuffix(a, "/>") && !strings.Contains(a, "</") && !strings.HasPrefix(a, "<!") {
			t.open = strings.FieldsFunc(a, func(r rune) bool { return r == '<' || r == '>' || r == ' ' })[0]
		}
		toks = append(toks, t)
	}
	return func(emit func(string) bool) {
		stopped := false
		for d := 0; d <= n && !stopped; d++ {
			var rec func(p string, stack []string, left int)
			rec = func(p string, stack []string, left int) {
				if stopped {
					return
				}
				if left == 0 {
					full := p
					for i := len(stack) - 1; i >= 0; i-- {
						full += "</" + stack[i] + ">"
					}
					for _, w := range wraps {
						if !emit(strings.ReplaceAll(w, "@", full)) {
							stopped = true
							return
						}
					}
					return
				}
				for _, t := range toks {
					if filter != nil && !filter(stack, t.s) {
						continue
					}
					switch {
					case t.close:
						if len(stack) > 0 {
							rec(p+"</"+stack[len(stack)-1]+">", stack[:len(stack)-1], left-1)
						}
					case t.open != "":
						rec(p+t.s, append(append([]string{}, stack...), t.open), left-1)
					default:
						rec(p+t.s, stack, left-1)
					}
				}
			}
			rec("", nil, d)
		}
	}
}

func boundStr(alpha []string, n int, wraps []string) string {
	return fmt.Sprintf("all strings of at most %d tokens over %q in each of %q", n, alpha, wraps)
}
func boundTree(alpha []string, n int, wraps []string) string {
	return fmt.Sprintf("all documents of at most %d tokens over %q in each of %q", n, alpha, wraps)
}

// StrSpace and TreeSpace build spaces.
func StrSpace(name string, alpha []string, n int, wraps []string, j func() eng.Judge) eng.Space {
	return eng.Space{Name: name, Bound: boundStr(alpha, n, wraps), Enum: Strings(alpha, n, wraps), NewJudge: j}
}
func TreeSpace(name string, alpha []string, n int, wraps []string, j func() eng.Judge) eng.Space {
	return eng.Space{Name: name, Bound: boundTree(alpha, n, wraps), Enum: Trees(alpha, n, wraps, nil), NewJudge: j}
}

func split(s string) []string { return strings.Split(s, " ") }

// W splits on spaces; "␠" stands for a space.
func W(s string) []string {
	l := strings.Fields(s)
	for i := range l {
		l[i] = strings.ReplaceAll(l[i], "␠", " ")
	}
	return l
}

// textOnlyIn allows only text (and the closing tag) inside the named elements.
func textOnlyIn(names ...string) func([]string, string) bool {
	return func(stack []string, tok string) bool {
		if len(stack) == 0 || !strings.HasPrefix(tok, "<") || tok == "</>" {
			return true
		}
		for _, n := range names {
			for _, s := range stack {
				if s == n {
					return false
				}
			}
		}
		return true
	}
}

// TreeSpaceF is TreeSpace with a filter on the grammar.
func TreeSpaceF(name string, alpha []string, n int, wraps []string, f func([]string, string) bool, j func() eng.Judge) eng.Space {
	return eng.Space{Name: name, Bound: boundTree(alpha, n, wraps), Enum: Trees(alpha, n, wraps, f), NewJudge: j}
}

// Subsets enumerates, for every set of k tokens of the alphabet, all strings of
// exactly the given tokens and the common ones, up to n tokens.
func Subsets(alpha []string, k int, common []string, n int, wraps []string) func(func(string) bool) {
	return func(emit func(string) bool) {
		var rec func(from int, chosen []string) bool
		rec = func(from int, chosen []string) bool {
			if len(chosen) == k {
				stopped := false
				Strings(append(append([]string{}, chosen...), common...), n, wraps)(func(s string) bool {
					stopped = !emit(s)
					return !stopped
				})
				return !stopped
			}
			for i := from; i < len(alpha); i++ {
				if !rec(i+1, append(append([]string{}, chosen...), alpha[i])) {
					return false
				}
			}
			return true
		}
		rec(0, nil)
	}
}

// SubsetSpace: longer strings over smaller alphabets.
func SubsetSpace(name string, alpha []string, k int, common []string, n int, wraps []string, j func() eng.Judge) eng.Space {
	return eng.Space{Name: name, Bound: fmt.Sprintf("for every %d of %q, with %q: all strings of at most %d tokens in each of %q", k, alpha, common, n, wraps), Enum: Subsets(alpha, k, common, n, wraps), NewJudge: j}
}

// tableOpts is one of the 96 combinations of the options of the table plugin.
type tableOpts struct {
	Span, Newline, Padding      string
	Skip, Promote, Presentation bool
}

func tableConfs() []tableOpts {
	var l []tableOpts
	for _, sp := range []string{"empty", "mirror"} {
		for _, nl := range []string{"skip", "preserve"} {
			for _, pad := range []string{"aligned", "minimal", "none"} {
				for i := range 8 {
					l = append(l, tableOpts{sp, nl, pad, i&1 > 0, i&2 > 0, i&4 > 0})
				}
			}
		}
	}
	return l
}

func (o tableOpts) conf() Conf {
	return Conf{Name: fmt.Sprintf("%+v", o), Strike: true, Extra: func() []converter.Plugin {
		return []converter.Plugin{table.NewTablePlugin(
			table.WithSpanCellBehavior(table.SpanCellBehavior(o.Span)), table.WithNewlineBehavior(table.NewlineBehavior(o.Newline)), table.WithCellPaddingBehavior(table.CellPaddingBehavior(o.Padding)),
			table.WithSkipEmptyRows(o.Skip), table.WithHeaderPromotion(o.Promote), table.WithPresentationTables(o.Presentation))}
	}}
}

// perConf prefixes every state with the number of a configuration.
func perConf(n int, enum func(func(string) bool)) func(func(string) bool) {
	return func(emit func(string) bool) {
		enum(func(s string) bool {
			for i := range n {
				if !emit(fmt.Sprint(i) + sep + s) {
					return false
				}
			}
			return true
		})
	}
}

// confJudge: a judge for states prefixed by perConf.
func confJudge[T any](confs []T, mk func(T) func() eng.Judge) func() eng.Judge {
	return func() eng.Judge {
		js := make([]eng.Judge, len(confs))
		return func(state string) *eng.Fail {
			k, rest, _ := strings.Cut(state, sep)
			i, _ := strconv.Atoi(k)
			if js[i] == nil {
				js[i] = mk(confs[i])()
			}
			f := js[i](rest)
			if f != nil {
				f.What += fmt.Sprintf(" (configuration %+v)", confs[i])
			}
			return f
		}
	}
}

var (
	bareMarker = regexp.MustCompile(`^[> ]*(?:(?:[-+*]|\d+[.)]) [> ]*)*[-+*]$`)
	fenceLine  = regexp.MustCompile("^[> ]*(?:(?:[-+*]|\\d+[.)]) [> ]*)*(`{3,}|~{3,})")
	ruleLine   = regexp.MustCompile(`^([> ]*)((?:-[- ]*){3,}|(?:\*[* ]*){3,})$`)
)

// firstRule rewrites (with the same length) a rule that is the first content
// of a list item which starts with an empty line: goldmark takes it for the
// end of the list if it is made of the character of the bullet.
func firstRule(md string) string {
	lines := strings.Split(md, "\n")
	fence := ""
	for i := range lines {
		if m := fenceLine.FindStringSubmatch(lines[i]); m != nil && (fence == "" || strings.HasPrefix(m[1], fence)) {
			if fence == "" {
				fence = m[1]
			} else {
				fence = ""
			}
		}
		if fence != "" || i == 0 || ruleLine.MatchString(lines[i-1]) {
			continue
		}
		if m := ruleLine.FindStringSubmatch(lines[i]); m != nil && bareMarker.MatchString(lines[i-1]) {
			lines[i] = m[1] + strings.Map(func(r rune) rune {
				if r == ' ' {
					return r
				}
				return '_'
			}, m[2])
		}
	}
	return strings.Join(lines, "\n")
}

func sortStrings(l []string) { sort.Strings(l) }

// sizes up to max: all small ones and those around the powers of two and ten.
func sizes(max int) []int {
	var l []int
	for i := 0; i <= max; i++ {
		near := i <= 34
		for _, p := range []int{64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536} {
			near = near || (i >= p-1 && i <= p+2)
		}
		if near {
			l = append(l, i)
		}
	}
	return l
}

// Sizes enumerates the templates with every «part» repeated as often as each
// of the sizes says. In the parts a № stands for the number of the repetition.
func Sizes(templates []string, sizes []int) func(func(string) bool) {
	return func(emit func(string) bool) {
		for _, n := range sizes {
			for _, t := range templates {
				var b strings.Builder
				for t != "" {
					before, rest, ok := strings.Cut(t, "«")
					b.WriteString(before)
					if !ok {
						break
					}
					part, after, _ := strings.Cut(rest, "»")
					for i := range n {
						b.WriteString(strings.ReplaceAll(part, "№", strconv.Itoa(i)))
					}
					t = after
				}
				if n > 60 {
					if _, err := html.Parse(strings.NewReader(b.String())); err != nil {
						continue // nested deeper than the HTML parser goes
					}
				}
				if !emit(b.String()) {
					return
				}
			}
		}
	}
}

// SizeSpace is a space of large documents.
func SizeSpace(name string, templates []string, max int, j func() eng.Judge) eng.Space {
	return eng.Space{Name: name, Bound: fmt.Sprintf("each of %q with the parts in «» repeated 0-34 times and about the powers of two and ten up to %d", templates, max), Enum: Sizes(templates, sizes(max)), NewJudge: j}
}

// inEach writes every template in every wrapper.
func inEach(wraps, templates []string) []string {
	var l []string
	for _, t := range templates {
		for _, w := range wraps {
			l = append(l, strings.ReplaceAll(w, "@", t))
		}
	}
	return l
}

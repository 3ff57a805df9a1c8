package props

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

const sampleDoc = `<h1>a</h1><p><em>b</em><b>c</b><a href="/u">l</a><a href>m</a><a href="/u"></a></p><hr><ul><li>d</ul><pre>e</pre><table><tr><th>f<tr><td>g</table>`

// entries runs every entry point of a converter.
func entries(cv *converter.Converter, doc string) (outs []string, errs []error) {
	ImplRuns.Add(3)
	s, err := cv.ConvertString(doc)
	outs, errs = append(outs, s), append(errs, err)
	b, err := cv.ConvertReader(strings.NewReader(doc))
	outs, errs = append(outs, string(b)), append(errs, err)
	n, _ := html.Parse(strings.NewReader(doc))
	b, err = cv.ConvertNode(n)
	return append(outs, string(b)), append(errs, err)
}

// mustFail: every entry point gives an error and nothing else.
func mustFail(cv *converter.Converter, says []string) *eng.Fail {
	outs, errs := entries(cv, sampleDoc)
	for i := range outs {
		name := []string{"ConvertString", "ConvertReader", "ConvertNode"}[i]
		if errs[i] == nil || outs[i] != "" {
			return &eng.Fail{What: name + " does not fail", Got: fmt.Sprint(errs[i]), Output: outs[i]}
		}
		for _, s := range says {
			if !strings.Contains(errs[i].Error(), s) {
				return &eng.Fail{What: name + ": the error does not say what is wrong", Expected: s, Got: errs[i].Error()}
			}
		}
	}
	return nil
}
func mustWork(cv *converter.Converter) *eng.Fail {
	outs, errs := entries(cv, sampleDoc)
	for i := range outs {
		name := []string{"ConvertString", "ConvertReader", "ConvertNode"}[i]
		if errs[i] != nil {
			return &eng.Fail{What: name + " fails", Got: errs[i].Error()}
		}
	}
	return nil
}

type optionKind struct {
	key   string
	valid func(v string) bool
	make  func(v string) *converter.Converter
	toks  []string
}

func oneOf(l ...string) func(string) bool {
	return func(v string) bool {
		for _, x := range l {
			if v == x {
				return true
			}
		}
		return v == "" // the default
	}
}
func cmWith(o ...commonmark.OptionFunc) *converter.Converter { return newConv(Conf{Cm: o}) }
func as[T ~string](f func(T) commonmark.OptionFunc) func(string) *converter.Converter {
	return func(v string) *converter.Converter { return cmWith(f(T(v))) }
}
func tableWith(p func(v string) converter.Plugin) func(string) *converter.Converter {
	return func(v string) *converter.Converter {
		return newConv(Conf{Extra: func() []converter.Plugin { return []converter.Plugin{p(v)} }})
	}
}
func escWith[T ~string, R ~func(*converter.Converter) error](f func(T) R, v string) *converter.Converter {
	return converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()), f(T(v)))
}

var ruleOK = []*regexp.Regexp{regexp.MustCompile(`^ {0,3}(\* *){3,}$`), regexp.MustCompile(`^ {0,3}(- *){3,}$`), regexp.MustCompile(`^ {0,3}(_ *){3,}$`)}

var optionKinds = map[string]optionKind{
	"em":      {"EmDelimiter", oneOf("*", "_"), as(commonmark.WithEmDelimiter), []string{"*", "_", "a", " ", "~", "\n", "é", "＊", "\x00"}},
	"strong":  {"StrongDelimiter", oneOf("**", "__"), as(commonmark.WithStrongDelimiter), []string{"*", "_", "a", " ", "~", "\n", "\x00"}},
	"bullet":  {"BulletListMarker", oneOf("-", "+", "*"), as(commonmark.WithBulletListMarker), []string{"-", "+", "*", "•", "1.", " ", "_", "\n", "–"}},
	"fence":   {"CodeBlockFence", oneOf("```", "~~~"), as(commonmark.WithCodeBlockFence), []string{"`", "~", "```", "~~~", " ", "'", "-"}},
	"heading": {"HeadingStyle", oneOf("atx", "setext"), as(commonmark.WithHeadingStyle), []string{"atx", "setext", "ATX", "Setext", "a", "x", " ", "\n", "settext", "\x00"}},
	"href":    {"LinkEmptyHrefBehavior", oneOf("render", "skip"), as(commonmark.WithLinkEmptyHrefBehavior), []string{"render", "skip", "Skip", "s", " ", "r", "none", "\x00"}},
	"content": {"LinkEmptyContentBehavior", oneOf("render", "skip"), as(commonmark.WithLinkEmptyContentBehavior), []string{"render", "skip", "Skip", "s", " ", "r", "none", "\x00"}},
	"rule": {"HorizontalRule", func(v string) bool {
		return v == "" || ruleOK[0].MatchString(v) || ruleOK[1].MatchString(v) || ruleOK[2].MatchString(v)
	}, as(commonmark.WithHorizontalRule), []string{"*", "-", "_", " ", "\t", "\n", "+", "a", "—", "="}},
	"span": {"", oneOf("empty", "mirror"), tableWith(func(v string) converter.Plugin {
		return table.NewTablePlugin(table.WithSpanCellBehavior(table.SpanCellBehavior(v)))
	}), []string{"empty", "mirror", "Mirror", "e", " ", "skip", "\x00"}},
	"newline": {"", oneOf("skip", "preserve"), tableWith(func(v string) converter.Plugin {
		return table.NewTablePlugin(table.WithNewlineBehavior(table.NewlineBehavior(v)))
	}), []string{"skip", "preserve", "Preserve", "e", " ", "keep", "\x00"}},
	"padding": {"", oneOf("aligned", "minimal", "none"), tableWith(func(v string) converter.Plugin {
		return table.NewTablePlugin(table.WithCellPaddingBehavior(table.CellPaddingBehavior(v)))
	}), []string{"aligned", "minimal", "none", "None", "e", " ", "\x00"}},
	// the error of an option is not hidden by the options that follow it
	"span-first": {"", oneOf("empty", "mirror"), tableWith(func(v string) converter.Plugin {
		return table.NewTablePlugin(table.WithSpanCellBehavior(table.SpanCellBehavior(v)), table.WithNewlineBehavior("skip"), table.WithCellPaddingBehavior("none"), table.WithSkipEmptyRows(true))
	}), []string{"empty", "mirror", "x", " "}},
	"escape": {"", oneOf("smart", "disabled"), func(v string) *converter.Converter { return escWith(converter.WithEscapeMode, v) }, []string{"smart", "disabled", "Smart", "off", "s", " ", "\x00"}},
	"escape-first": {"", oneOf("smart", "disabled"), func(v string) *converter.Converter {
		c := escFirst(converter.WithEscapeMode, v)
		c.Register.Plugin(base.NewBasePlugin())
		c.Register.Plugin(commonmark.NewCommonmarkPlugin())
		return c
	}, []string{"smart", "disabled", "x", " "}},
}

func escFirst[T ~string, R ~func(*converter.Converter) error](f func(T) R, v string) *converter.Converter {
	return converter.NewConverter(f(T(v)), converter.WithPlugins(strikethrough.NewStrikethroughPlugin()))
}

// valueJudge: "<option>\x1f<value>".
func valueJudge() eng.Judge {
	return func(state string) *eng.Fail {
		k, v, _ := strings.Cut(state, sep)
		o := optionKinds[k]
		cv := o.make(v)
		if o.valid(v) {
			return mustWork(cv)
		}
		says := []string{strconv.Quote(v)}
		if o.key != "" {
			says = append(says, o.key)
		}
		return mustFail(cv, says)
	}
}

// besideJudge: "<option>\x1f<valid value>\x1f<other option>\x1f<invalid value>",
// in both orders. The other valid value makes no wrong value right.
func besideJudge() eng.Judge {
	opts := map[string]func(v string) commonmark.OptionFunc{
		"em":      func(v string) commonmark.OptionFunc { return commonmark.WithEmDelimiter(v) },
		"strong":  func(v string) commonmark.OptionFunc { return commonmark.WithStrongDelimiter(v) },
		"bullet":  func(v string) commonmark.OptionFunc { return commonmark.WithBulletListMarker(v) },
		"fence":   func(v string) commonmark.OptionFunc { return commonmark.WithCodeBlockFence(v) },
		"rule":    func(v string) commonmark.OptionFunc { return commonmark.WithHorizontalRule(v) },
		"heading": func(v string) commonmark.OptionFunc { return as1(commonmark.WithHeadingStyle, v) },
		"href":    func(v string) commonmark.OptionFunc { return as1(commonmark.WithLinkEmptyHrefBehavior, v) },
		"content": func(v string) commonmark.OptionFunc { return as1(commonmark.WithLinkEmptyContentBehavior, v) },
	}
	return func(state string) *eng.Fail {
		f := strings.Split(state, sep)
		k1, good, k2, bad := f[0], f[1], f[2], f[3]
		for _, first := range []bool{true, false} {
			var cv *converter.Converter
			a, b := k1, k2
			va, vb := good, bad
			if !first {
				a, b, va, vb = b, a, vb, va
			}
			if opts[k1] == nil {
				cv = newConv(Conf{Extra: func() []converter.Plugin {
					x, y := table.WithSpanCellBehavior(table.SpanCellBehavior(va)), table.WithSpanCellBehavior(table.SpanCellBehavior(vb))
					switch a {
					case "newline":
						x = table.WithNewlineBehavior(table.NewlineBehavior(va))
					case "padding":
						x = table.WithCellPaddingBehavior(table.CellPaddingBehavior(va))
					}
					switch b {
					case "newline":
						y = table.WithNewlineBehavior(table.NewlineBehavior(vb))
					case "padding":
						y = table.WithCellPaddingBehavior(table.CellPaddingBehavior(vb))
					}
					return []converter.Plugin{table.NewTablePlugin(x, y)}
				}})
			} else {
				cv = cmWith(opts[a](va), opts[b](vb))
			}
			says := []string{strconv.Quote(bad)}
			if key := optionKinds[k2].key; key != "" {
				says = append(says, key)
			}
			if fl := mustFail(cv, says); fl != nil {
				return fl
			}
		}
		return nil
	}
}

func as1[T ~string](f func(T) commonmark.OptionFunc, v string) commonmark.OptionFunc { return f(T(v)) }

func besides() (l []string) {
	good := map[string][]string{"em": {"*", "_"}, "strong": {"**", "__"}, "bullet": {"-", "+", "*"}, "fence": {"```", "~~~"}, "rule": {"* * *", "---", "___"}, "heading": {"atx", "setext"}, "href": {"render", "skip"}, "content": {"render", "skip"},
		"span": {"empty", "mirror"}, "newline": {"skip", "preserve"}, "padding": {"aligned", "minimal", "none"}}
	bad := []string{"x", "none", "Skip", "skipped", "*** x", "**_", "•", "1.", "````", "SETEXT", "**", "--", "mirrored", "atx ", "renders", "keep"}
	for _, group := range []string{"em strong bullet fence rule heading href content", "span newline padding"} {
		for _, k1 := range strings.Fields(group) {
			for _, k2 := range strings.Fields(group) {
				if k1 == k2 {
					continue
				}
				for _, g := range good[k1] {
					for _, b := range bad {
						if !optionKinds[k2].valid(b) {
							l = append(l, strings.Join([]string{k1, g, k2, b}, sep))
						}
					}
				}
			}
		}
	}
	return l
}

type testPlugin struct {
	name string
	init func(*converter.Converter) error
}

func (p testPlugin) Name() string                         { return p.name }
func (p testPlugin) Init(conv *converter.Converter) error { return p.init(conv) }

var errPlugin = errors.New("my plugin failure")

func pluginOf(ev string) converter.Plugin {
	switch ev {
	case "base":
		return base.NewBasePlugin()
	case "cm":
		return commonmark.NewCommonmarkPlugin()
	case "cm-bad":
		return commonmark.NewCommonmarkPlugin(commonmark.WithEmDelimiter("x"))
	case "cm-bad-2":
		return commonmark.NewCommonmarkPlugin(commonmark.WithEmDelimiter("_"), commonmark.WithHorizontalRule("+++"), commonmark.WithBulletListMarker("*"))
	case "strike":
		return strikethrough.NewStrikethroughPlugin()
	case "table":
		return table.NewTablePlugin()
	case "table-bad":
		return table.NewTablePlugin(table.WithNewlineBehavior("x"))
	case "noname":
		return testPlugin{"", func(*converter.Converter) error { return nil }}
	case "fails":
		return testPlugin{"mine", func(*converter.Converter) error { return errPlugin }}
	case "fails-late":
		return testPlugin{"mine", func(c *converter.Converter) error {
			c.Register.Plugin(strikethrough.NewStrikethroughPlugin())
			c.Register.Renderer(func(converter.Context, converter.Writer, *html.Node) converter.RenderStatus {
				return converter.RenderTryNext
			}, 1)
			return errPlugin
		}}
	case "nested-bad":
		return testPlugin{"outer", func(c *converter.Converter) error {
			c.Register.Plugin(table.NewTablePlugin(table.WithNewlineBehavior("x")))
			return nil
		}}
	case "ok":
		return testPlugin{"mine", func(*converter.Converter) error { return nil }}
	}
	return nil
}

// pluginsJudge: events, "|" ends the constructor's options.
func pluginsJudge() eng.Judge {
	return func(state string) *eng.Fail {
		var errsSay [][]string
		var hasBase, hasCM, hasRenderer bool
		note := func(ev string) {
			switch ev {
			case "base":
				hasBase = true
			case "cm":
				hasCM, hasRenderer = true, true
			case "cm-bad":
				hasCM = true
				errsSay = append(errsSay, []string{"commonmark", "EmDelimiter", `"x"`})
			case "cm-bad-2":
				hasCM = true
				errsSay = append(errsSay, []string{"commonmark", "HorizontalRule", `"+++"`})
			case "strike", "table", "rend":
				hasRenderer = true
			case "table-bad", "nested-bad":
				errsSay = append(errsSay, []string{"table", `"x"`})
			case "noname":
				errsSay = append(errsSay, []string{"name"})
			case "fails", "fails-late":
				hasRenderer = hasRenderer || ev == "fails-late"
				errsSay = append(errsSay, []string{"mine", errPlugin.Error()})
			case "esc-bad":
				errsSay = append(errsSay, []string{`"x"`})
			}
		}
		check := func(cv *converter.Converter) *eng.Fail {
			switch {
			case len(errsSay) == 1:
				return mustFail(cv, errsSay[0])
			case len(errsSay) > 1:
				return mustFail(cv, nil)
			case !hasRenderer:
				return mustFail(cv, []string{"no render handlers"})
			case hasCM && !hasBase:
				return mustFail(cv, []string{`"base"`})
			}
			return mustWork(cv)
		}
		before, after, _ := strings.Cut(state, "|")
		cv := construct(converter.WithPlugins, converter.WithEscapeMode, strings.Fields(before), note)
		if f := check(cv); f != nil {
			return f
		}
		for _, ev := range strings.Fields(after) {
			if ev == "rend" {
				cv.Register.Renderer(func(converter.Context, converter.Writer, *html.Node) converter.RenderStatus {
					return converter.RenderTryNext
				}, 1)
			} else if p := pluginOf(ev); p != nil {
				cv.Register.Plugin(p)
			} else {
				return nil // not an operation of a constructed converter
			}
			note(ev)
			if f := check(cv); f != nil {
				return f
			}
		}
		return nil
	}
}

func construct[T ~string, R ~func(*converter.Converter) error](plugins func(...converter.Plugin) R, esc func(T) R, evs []string, note func(string)) *converter.Converter {
	var opts []func(*converter.Converter) error
	broken := false
	for _, ev := range evs {
		switch ev {
		case "esc-bad":
			opts = append(opts, esc("x"))
		case "esc":
			opts = append(opts, esc("disabled"))
		case "rend":
			continue
		default:
			opts = append(opts, plugins(pluginOf(ev)))
		}
		// Nothing after an invalid option counts, also not its errors.
		if !broken {
			note(ev)
		}
		broken = broken || ev == "esc-bad"
	}
	return converter.NewConverter(opts...)
}

func init() {
	values := func(n int) eng.Space {
		return eng.Space{Name: "values", Bound: fmt.Sprintf("every option with all strings of at most %d tokens", n), NewJudge: valueJudge, Enum: func(emit func(string) bool) {
			for _, k := range []string{"em", "strong", "bullet", "fence", "heading", "href", "content", "span", "newline", "padding", "span-first", "escape", "escape-first"} {
				Strings(optionKinds[k].toks, n, []string{k + sep + "@"})(emit)
			}
			Strings(optionKinds["rule"].toks, n+2, []string{"rule" + sep + "@"})(emit)
			Strings([]string{"*", "-", " "}, n+5, []string{"rule" + sep + "@"})(emit)
		}}
	}
	evs := []string{"base ", "cm ", "cm-bad ", "cm-bad-2 ", "strike ", "table ", "table-bad ", "noname ", "fails ", "fails-late ", "nested-bad ", "ok ", "esc ", "esc-bad ", "rend ", "| "}
	few := []string{"base ", "cm ", "cm-bad ", "table-bad ", "noname ", "fails ", "ok ", "esc-bad ", "| "}
	events := func(name string, toks []string, n int) eng.Space {
		return eng.Space{Name: name, Bound: boundStr(toks, n, []string{"@"}), Enum: func(emit func(string) bool) {
			Strings(toks, n, []string{"@"})(func(s string) bool { return strings.Count(s, "|") > 1 || emit(s) })
		}}
	}
	eng.Register(&eng.Check{
		ID: "C16", NewJudge: pluginsJudge,
		Rule: "the accepted values are exactly the documented ones; a rejected value or failing plugin makes every entry point fail for good, with an error that names it, and without output",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{values(t.N(3, 4)), {Name: "beside", Bound: "every wrong value of every option next to every value of every other option, in both orders", NewJudge: besideJudge, Enum: list(besides())}, events("plugins", evs, t.N(3, 4)), events("plugins-few", few, t.N(4, 5))}
		},
	})
}

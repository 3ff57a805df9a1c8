package props

import (
	"fmt"
	"strconv"
	"strings"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

// What the names are without any registration of the user ("" is unknown).
var defaultTypes = map[string]string{
	"div": "block", "section": "block", "p": "block", "span": "inline", "b": "inline", "x-y": "",
	"x:div": "", "svg:p": "", "o:p": "", "div:x": "", "x.div": "", "x-div": "", "divx": "", "xdiv": "", "x-span": "", "span-x": "", "script-x": "", "x:script": "", "x-script": "",
	"script": "remove", "iframe": "remove", "noscript": "remove", "style": "remove", "h2": "block", "kbd": "inline",
}

type typeReg struct {
	name, typ string
	prio      int
}

func modelType(regs []typeReg, name string) string {
	best, typ, found := 0, defaultTypes[name], false
	if typ == "remove" {
		// registered by the base plugin
		best, found = converter.PriorityStandard, true
	}
	for _, r := range regs {
		if r.name == name && (!found || r.prio < best) {
			best, typ, found = r.prio, r.typ, true
		}
	}
	return typ
}

// nearOf are names that have nothing to do with the name.
func nearOf(n string) []string {
	return []string{"x:" + n, n + ":x", "x-" + n, n + "-x", n + "x", "x." + n, n + "_", n + "1"}
}

func typesJudge() eng.Judge { return typesJudgeOf(false) }
func nearJudge() eng.Judge  { return typesJudgeOf(true) }

// typesJudgeOf: the state is a sequence of "name=type@prio" (block+ and inline+
// come with a renderer).
func typesJudgeOf(near bool) eng.Judge {
	return func(state string) *eng.Fail {
		for _, every := range []bool{false, true} {
			if every && strings.Count(state, " ") > 6 {
				continue
			}
			cv := newConv(Conf{})
			ask := map[string]string{}
			note := func(ctx converter.Context, where string) *eng.Fail { return nil }
			var regs []typeReg
			var bad *eng.Fail
			note = func(ctx converter.Context, where string) *eng.Fail {
				for n := range ask {
					t, ok := ctx.GetTagType(n)
					want := modelType(regs, n)
					if string(t) != want || ok != (want != "") {
						bad = &eng.Fail{What: fmt.Sprintf("GetTagType(%q) in the %s phase", n, where), Expected: want, Got: fmt.Sprint(t, " ", ok)}
					}
				}
				return nil
			}
			cv.Register.PreRenderer(func(ctx converter.Context, _ *html.Node) { note(ctx, "pre-render") }, converter.PriorityEarly-1)
			cv.Register.TextTransformer(func(ctx converter.Context, s string) string { note(ctx, "text"); return s }, converter.PriorityEarly)
			cv.Register.Renderer(func(ctx converter.Context, _ converter.Writer, n *html.Node) converter.RenderStatus {
				if n.Data == "body" {
					note(ctx, "render")
				}
				return converter.RenderTryNext
			}, converter.PriorityEarly)
			cv.Register.PostRenderer(func(ctx converter.Context, b []byte) []byte { note(ctx, "post-render"); return b }, converter.PriorityLate)
			ops := strings.Fields(state)
			for i, op := range ops {
				name, rest, _ := strings.Cut(op, "=")
				typ, p, _ := strings.Cut(rest, "@")
				prio, _ := strconv.Atoi(p)
				r := typeReg{name, strings.TrimSuffix(typ, "+"), prio}
				switch typ {
				case "block":
					cv.Register.TagType(name, converter.TagTypeBlock, prio)
				case "inline":
					cv.Register.TagType(name, converter.TagTypeInline, prio)
				case "remove":
					cv.Register.TagType(name, converter.TagTypeRemove, prio)
				case "block+":
					cv.Register.RendererFor(name, converter.TagTypeBlock, asType, prio)
				case "inline+":
					cv.Register.RendererFor(name, converter.TagTypeInline, asType, prio)
				}
				regs = append(regs, r)
				ask[name] = ""
				if near {
					for _, n := range nearOf(name) {
						ask[n] = ""
					}
				}
				if !every && i+1 < len(ops) {
					continue
				}
				for n := range ask {
					if near && n == name {
						continue // (the parser does not let all of them stand everywhere)
					}
					for _, d := range []string{"a<N>t</N>c", "a <N> t </N> c", "<body><N>t</N>", "<i>a<N>t</N></i>c", "<ul><li>a<N>t</N></ul>"} {
						md, err := convert(cv, strings.ReplaceAll(d, "N", n))
						if err != nil {
							return &eng.Fail{What: "error: " + err.Error()}
						}
						if bad != nil {
							return bad
						}
						md = strings.ReplaceAll(md, "\n  \n", "\n\n") // the blank line of the item may be indented
						exp := expectedOf(d, n, modelType(regs, n))
						if exp != "?" && md != exp {
							return &eng.Fail{What: fmt.Sprintf("%q with %s as %q (after %d registrations)", strings.ReplaceAll(d, "N", n), n, modelType(regs, n), i+1), Expected: exp, Got: md}
						}
					}
				}
			}
		}
		return nil
	}
}

// asType leaves it to the next renderer.
func asType(converter.Context, converter.Writer, *html.Node) converter.RenderStatus {
	return converter.RenderTryNext
}

// expectedOf: what the documents look like by the type of N ("?": not said).
func expectedOf(d, name, typ string) string {
	content := "t"
	switch name {
	case "b":
		content = "**t**"
	case "kbd":
		content = "`t`"
	case "p", "h2":
		if typ != "block" && typ != "remove" {
			return "?" // the renderer writes a block whatever the type says
		}
		if name == "h2" {
			content = "## t"
		}
	}
	raw := name == "script" || name == "style" || name == "iframe" || name == "noscript"
	switch d {
	case "a<N>t</N>c":
		switch typ {
		case "block":
			if name == "b" || name == "kbd" {
				return "?"
			}
			return "a\n\n" + content + "\n\nc"
		case "remove":
			return "ac"
		}
		if name == "b" || name == "kbd" {
			return "a" + content + "c"
		}
		return "atc"
	case "a <N> t </N> c":
		if raw {
			return "?"
		}
		switch typ {
		case "block":
			if name == "b" || name == "kbd" {
				return "?"
			}
			return "a\n\n" + content + "\n\nc"
		case "remove":
			return "a c"
		}
		if name == "kbd" {
			return "?"
		}
		return "a " + content + " c"
	case "<body><N>t</N>":
		if typ == "remove" {
			return ""
		}
		return content
	case "<i>a<N>t</N></i>c":
		if typ == "remove" {
			return "*a*c"
		}
	case "<ul><li>a<N>t</N></ul>":
		switch typ {
		case "remove":
			return "- a"
		case "block":
			if name == "b" || name == "kbd" {
				return "?"
			}
			return "- a\n\n  " + content
		}
		if name == "b" || name == "kbd" {
			return "- a" + content
		}
		return "- at"
	}
	return "?"
}

func init() {
	regs := func(names, prios string) []string {
		var l []string
		for _, n := range strings.Fields(names) {
			for _, t := range []string{"block", "inline", "remove"} {
				for _, p := range strings.Fields(prios) {
					l = append(l, " "+n+"="+t+"@"+p)
				}
			}
		}
		return l
	}
	with := func(names, prios string) []string {
		l := regs(names, prios)
		for _, n := range strings.Fields(names) {
			for _, p := range strings.Fields(prios) {
				l = append(l, " "+n+"=block+@"+p, " "+n+"=inline+@"+p)
			}
		}
		return l
	}
	seq := func(name string, toks []string, n int) eng.Space {
		return eng.Space{Name: name, Bound: boundStr(toks, n, []string{"@"}), Enum: func(emit func(string) bool) {
			Strings(toks, n, []string{"@"})(func(s string) bool { return emit(strings.TrimSpace(s)) })
		}}
	}
	eng.Register(&eng.Check{
		ID: "C15", NewJudge: typesJudge,
		Rule: "the earliest-priority registration, the first among equals, decides; the base plugin's and the HTML default otherwise; every phase is told the same, and removal, block separation and whitespace follow it",
		Spaces: func(t eng.Tier) []eng.Space {
			l := []eng.Space{
				seq("names", regs("div section p span b x-y script iframe h2 kbd noscript style", "100 500 1000"), 2),
				seq("near-names", regs("div x:div o:p svg:p div:x x.div x-div divx xdiv x:script x-script script-x x-span span-x p span script", "100 500"), 2),
				{Name: "names-near", Bound: "each type of each of 32 names, and what 8 names similar to it are then", Enum: list(strings.Fields(strings.Join(regs("div section p span b x-y script iframe h2 kbd noscript style a em h1 blockquote pre code table td img br hr svg math template select option title button label", "100 500"), " "))), NewJudge: nearJudge},
				seq("two-names", regs("div x-y", "100 500 1000"), t.N(3, 4)),
				seq("renderer-for", with("x-y div span", "-5 0 50 99 100 101 1000"), 2),
				seq("renderer-for-3", with("x-y", "0 50 100 500"), t.N(3, 4)),
				seq("removed", regs("script", "-1 100 499 500 501 1000"), t.N(3, 4)),
				seq("extreme", regs("x-y script", "-9223372036854775808 -4294967297 0 499 2147483648 4294967296 9223372036854775807"), t.N(2, 3)),
				seq("extreme-known", regs("div p span section h2 kbd aside", "-1001 -1 0 99 1001 5000 2147483648"), 2),
				seq("extreme-one", regs("x-y", "-9223372036854775808 -4294967297 0 499 2147483648 4294967296 9223372036854775807"), t.N(3, 4)),
				seq("unknown", regs("x-y", "100 500"), t.N(4, 6)),
				seq("inline", regs("span", "100 500"), t.N(4, 6)),
			}
			for _, k := range []int{0, 1, 2} {
				n := t.N(13, 14)
				l = append(l, eng.Space{Name: fmt.Sprint("many-", k), Bound: fmt.Sprintf("all patterns of two priorities for %d registrations of changing types", n), Enum: func(emit func(string) bool) {
					for m := 0; m < 1<<n; m++ {
						var f []string
						for i := range n {
							p := 500
							if m&(1<<i) != 0 {
								p = 100
							}
							// the first of the early ones differs from all
							// its neighbours
							f = append(f, fmt.Sprintf("x-y=%s@%d", []string{"block", "inline", "remove"}[(i+k)%3], p))
						}
						if !emit(strings.Join(f, " ")) {
							return
						}
					}
				}})
			}
			return l
		},
	})
}

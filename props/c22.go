package props

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"vmc/eng"

	htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

// A state is the number of a document, "pipe" or "tty", and the arguments.

var flagDocs = []string{
	`<p>1 <b>2</b> <del>3</del> <a href="/a">4</a> <img src="i.png" alt="5"></p>` +
		`<table><tr><td colspan="2">6</td><td>7</td></tr><tr><td></td><td></td><td></td></tr><tr><td>long text</td><td>9</td><td>10</td></tr></table>` +
		`<table role="presentation"><tr><th>11</th></tr><tr><td>12</td></tr></table>` +
		`<table><tr><th>13</th><th>14</th></tr><tr><td><p>15</p><p>16</p></td><td>17<br>18</td></tr></table>`,
	`<table><tr><th rowspan="2">a</th><th>b</th></tr><tr><td><b>c</b></td></tr></table>`,
	`<b>**</b>~~x~~ __ |`,
	``,
}

// The flags as documented: "bool", "text" (any value, the last one counts),
// "once" (not empty, only once).
var cliFlags = map[string]string{
	"version": "bool", "v": "bool",
	"input": "once", "output": "once", "output-overwrite": "bool",
	"domain": "text", "include-selector": "css", "exclude-selector": "css",
	"opt-strong-delimiter": "text",
	"plugin-strikethrough": "bool", "plugin-table": "bool",
	"opt-table-skip-empty-rows": "bool", "opt-table-header-promotion": "bool", "opt-table-presentation-tables": "bool",
	"opt-table-span-cell-behavior": "text", "opt-table-newline-behavior": "text", "opt-table-cell-padding-behavior": "text",
}

type flagModel struct {
	val     map[string]string
	help    bool
	bad     string
	rest    []string
	unclear bool // a plugin option that is switched off without its plugin
}

func modelFlags(args []string) (m flagModel) {
	m.val = map[string]string{}
	for len(args) > 0 && m.bad == "" {
		a := args[0]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		args = args[1:]
		if a == "--" {
			break
		}
		name := strings.TrimPrefix(a[1:], "-")
		if name == "" || name[0] == '-' || name[0] == '=' {
			m.bad = a
			break
		}
		name, value, given := strings.Cut(name, "=")
		kind := cliFlags[name]
		if name == "v" {
			name = "version"
		}
		switch {
		case name == "h" || name == "help":
			m.help = true
			return m
		case kind == "":
			m.bad = a
		case kind == "bool":
			if !given {
				value = "true"
			}
			b, err := strconv.ParseBool(value)
			if err != nil {
				m.bad = a
			}
			m.val[name] = fmt.Sprint(b)
		default:
			if !given {
				if len(args) == 0 {
					m.bad = a
					break
				}
				value, args = args[0], args[1:]
			}
			if kind == "once" {
				value = strings.TrimSpace(value)
				if _, again := m.val[name]; again || value == "" {
					m.bad = a
				}
			}
			m.val[name] = value
		}
	}
	m.rest = args
	for name, v := range m.val {
		if strings.HasPrefix(name, "opt-table-") && m.val["plugin-table"] != "true" {
			if v == "" || v == "false" {
				m.unclear = true
			} else {
				m.bad = name
			}
		}
	}
	return m
}

// libraryFor builds what the flags stand for.
func libraryFor(v map[string]string) (*converter.Converter, []converter.ConvertOptionFunc) {
	var cm []commonmark.OptionFunc
	if d, ok := v["opt-strong-delimiter"]; ok {
		cm = append(cm, commonmark.WithStrongDelimiter(d))
	}
	pl := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(cm...)}
	if v["plugin-strikethrough"] == "true" {
		pl = append(pl, strikethrough.NewStrikethroughPlugin())
	}
	if v["plugin-table"] == "true" {
		pl = append(pl, tableFor(v))
	}
	var opts []converter.ConvertOptionFunc
	if d, ok := v["domain"]; ok {
		opts = append(opts, converter.WithDomain(d))
	}
	return converter.NewConverter(converter.WithPlugins(pl...)), opts
}

func flagJudge() eng.Judge {
	return func(state string) *eng.Fail {
		f := strings.Split(state, sep)
		n, _ := strconv.Atoi(f[0])
		doc, args := flagDocs[n], f[2:]
		var r cliRun
		fromFile, toFile := f[1] == "file" || f[1] == "files", f[1] == "out" || f[1] == "files"
		if f[1] == "tty" || fromFile {
			r = newCLIRun(nil)
		} else {
			r = newCLIRun(strings.NewReader(doc))
		}
		r.out.terminal = f[1] == "screen"
		all, outFile := args, ""
		if fromFile || toFile {
			dir, err := os.MkdirTemp("", "vmc-")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			if fromFile {
				if err := os.WriteFile(dir+"/doc.html", []byte(doc), 0o600); err != nil {
					panic(err)
				}
				all = append([]string{"--input", dir + "/doc.html"}, all...)
			}
			if toFile {
				outFile = dir + "/result.md"
				all = append([]string{"--output=" + outFile}, all...)
			}
		}
		r.run(all...)
		if c := eng.Current(); c != nil {
			c.Outcome(fmt.Sprint(r.code, r.stdout()))
		}
		got := fmt.Sprintf("exit %d\nstdout: %s\nstderr: %s", r.code, r.stdout(), r.stderr())
		m := modelFlags(args)
		rejected := r.code == 1 && r.stdout() == "" && strings.TrimSpace(r.stderr()) != ""
		if m.help {
			if r.code != 0 || !strings.Contains(r.stdout()+r.stderr(), "--plugin-table") {
				return &eng.Fail{What: "the help is not shown", Got: got}
			}
			return nil
		}
		if m.bad != "" || len(m.rest) > 0 {
			if !rejected {
				return &eng.Fail{What: fmt.Sprintf("not rejected: %q %q", m.bad, m.rest), Got: got}
			}
			return nil
		}
		if m.unclear && rejected {
			return nil
		}
		if m.val["version"] == "true" {
			if r.code != 0 || r.stderr() != "" || !strings.Contains(r.stdout(), "1.2.3") {
				return &eng.Fail{What: "the version is not shown", Got: got}
			}
			return nil
		}
		if f[1] == "tty" || m.val["input"] != "" {
			// the inputs of this check do not exist
			if !rejected {
				return &eng.Fail{What: "no input, not rejected", Got: got}
			}
			return nil
		}
		cv, opts := libraryFor(m.val)
		md, err := convert(cv, doc, opts...)
		if err != nil {
			if !rejected {
				return &eng.Fail{What: "the library says: " + err.Error(), Got: got}
			}
			return nil
		}
		if r.code != 0 || r.stderr() != "" {
			return &eng.Fail{What: "the tool does not convert", Expected: md, Got: got}
		}
		if toFile {
			b, err := os.ReadFile(outFile)
			if err != nil || string(b) != md || r.stdout() != "" {
				return &eng.Fail{What: fmt.Sprint("the file of the tool and the library say different things ", err), Expected: md, Got: string(b)}
			}
			return nil
		}
		if r.stdout() != md+"\n" {
			return &eng.Fail{What: "the tool and the library say different things", Expected: md + "\n", Got: r.stdout()}
		}
		if len(args) == 0 {
			if md2, err := htmltomarkdown.ConvertString(doc); err != nil || md2 != md {
				return &eng.Fail{What: "the function of the package says something else", Expected: md2, Got: md}
			}
		}
		return nil
	}
}

func listOf[T any](l ...T) []T { return l }

func tableFor(v map[string]string) converter.Plugin {
	o := listOf(table.WithSkipEmptyRows(false))[:0]
	if x, ok := v["opt-table-skip-empty-rows"]; ok {
		o = append(o, table.WithSkipEmptyRows(x == "true"))
	}
	if x, ok := v["opt-table-header-promotion"]; ok {
		o = append(o, table.WithHeaderPromotion(x == "true"))
	}
	if x, ok := v["opt-table-presentation-tables"]; ok {
		o = append(o, table.WithPresentationTables(x == "true"))
	}
	if x, ok := v["opt-table-span-cell-behavior"]; ok && x != "" {
		o = append(o, table.WithSpanCellBehavior(table.SpanCellBehavior(x)))
	}
	if x, ok := v["opt-table-newline-behavior"]; ok && x != "" {
		o = append(o, table.WithNewlineBehavior(table.NewlineBehavior(x)))
	}
	if x, ok := v["opt-table-cell-padding-behavior"]; ok && x != "" {
		o = append(o, table.WithCellPaddingBehavior(table.CellPaddingBehavior(x)))
	}
	return table.NewTablePlugin(o...)
}

func init() {
	productOf := func(docs []int, modes []string, dims [][]string, reverse bool) func(func(string) bool) {
		return func(emit func(string) bool) {
			stop := false
			var rec func(i int, args []string)
			rec = func(i int, args []string) {
				if stop {
					return
				}
				if i == len(dims) {
					l := args
					if reverse {
						l = nil
						for k := range args {
							l = append(l, args[len(args)-1-k])
						}
					}
					for _, d := range docs {
						for _, m := range modes {
							if !emit(strings.Join(append([]string{strconv.Itoa(d), m}, l...), sep)) {
								stop = true
								return
							}
						}
					}
					return
				}
				for _, v := range dims[i] {
					if v == "" {
						rec(i+1, args)
					} else {
						rec(i+1, append(args[:len(args):len(args)], v))
					}
				}
			}
			rec(0, nil)
		}
	}
	product := func(docs []int, dims [][]string, reverse bool) func(func(string) bool) {
		return productOf(docs, []string{"pipe"}, dims, reverse)
	}
	// values next to the documented ones
	var near []string
	for name, values := range map[string][]string{
		"opt-strong-delimiter":            {"**", "__"},
		"opt-table-span-cell-behavior":    {"empty", "mirror"},
		"opt-table-newline-behavior":      {"skip", "preserve"},
		"opt-table-cell-padding-behavior": {"aligned", "minimal", "none"},
	} {
		for _, v := range values {
			for _, w := range []string{v, " " + v, v + " ", v + "\n", "\t" + v, strings.ToUpper(v), strings.ToUpper(v[:1]) + v[1:], v + v, v[:1], v[:len(v)-1], v + "," + v, "\"" + v + "\"", "'" + v + "'", "=" + v, v + ";", "\\" + v, v + "\x00", v[:len(v)-1] + "é"} {
				near = append(near, "--"+name+"="+w)
			}
		}
	}
	sortStrings(near)
	dims := [][]string{
		{"", "--opt-strong-delimiter=__", "--opt-strong-delimiter=**", "--opt-strong-delimiter=*"},
		{"", "--plugin-strikethrough"},
		{"", "--plugin-table"},
		{"", "--opt-table-skip-empty-rows"},
		{"", "--opt-table-header-promotion"},
		{"", "--opt-table-presentation-tables"},
		{"", "--opt-table-span-cell-behavior=empty", "--opt-table-span-cell-behavior=mirror", "--opt-table-span-cell-behavior=Mirror"},
		{"", "--opt-table-newline-behavior=skip", "--opt-table-newline-behavior=preserve", "--opt-table-newline-behavior=x"},
		{"", "--opt-table-cell-padding-behavior=aligned", "--opt-table-cell-padding-behavior=minimal", "--opt-table-cell-padding-behavior=none", "--opt-table-cell-padding-behavior=mirror"},
		{"", "--domain=https://e.com/x/"},
	}
	on := [][]string{{"--plugin-table"}, {"", "--plugin-table=false"}}
	for _, d := range dims[3:9] {
		var o []string
		for _, v := range d {
			o = append(o, v)
		}
		if !strings.Contains(o[1], "=") {
			o = append(o, o[1]+"=false", o[1]+"=true")
		} else {
			n, _, _ := strings.Cut(o[1], "=")
			o = append(o, n+"=")
		}
		on = append(on, o)
	}
	some := [][]string{
		{"", "--opt-strong-delimiter=__", "--opt-strong-delimiter=x"}, {"", "--plugin-strikethrough"}, {"", "--plugin-table"},
		{"", "--opt-table-header-promotion"}, {"", "--opt-table-skip-empty-rows"}, {"", "--opt-table-presentation-tables"}, {"", "--opt-table-span-cell-behavior=mirror"}, {"", "--opt-table-newline-behavior=preserve"}, {"", "--opt-table-cell-padding-behavior=none", "--opt-table-cell-padding-behavior=x"}, {"", "--domain=https://e.com/x/"},
	}
	// selectors that change nothing
	neutral := append([][]string{{"", "--include-selector=html", "--include-selector=*"}, {"", "--exclude-selector=x-none", "--exclude-selector=head"}}, some...)
	words := []string{
		"--plugin-table", "-plugin-strikethrough", "--plugin-table=false", "--plugin-table=T", "--plugin-table=maybe", "--plugin-table=", "--version", "-v", "-v=false", "--help", "-h", "-help=x",
		"--", "x", "", "-", "---v", "-=v", "--=v", "--domain", "--domain=https://d.e/", "https://d.e/f", "--opt-strong-delimiter", "__", "--opt-strong-delimiter=__", "--opt-strong-delimiter=", "--opt-strong-delimiter=*_",
		"--unknown", "--plugin-tabel", "--Plugin-table", "--output-overwrite", "--input", "--input=nope", "--input= ", "--output=", "--opt-table-header-promotion", "--opt-table-header-promotion=0", "--opt-table-span-cell-behavior", "mirror", "--opt-table-newline-behavior=preserve", "--opt-table-cell-padding-behavior= none", "--opt-table-presentation-tables",
	}
	eng.Register(&eng.Check{
		ID:       "C22",
		Rule:     "a model of the command line (which flags exist, their kinds and their dependencies) says whether the arguments mean help, the version, a rejection, or a conversion with certain plugins and options; the tool's streams and exit status are compared with it and with the library",
		NewJudge: flagJudge,
		Assumptions: []string{
			"An option of a plugin that is switched off explicitly (--opt-table-x=false or an empty value) without the plugin may be accepted or rejected.",
		},
		Spaces: func(t eng.Tier) []eng.Space {
			n := t.N(3, 4)
			docs := []int{0, 1}
			if t.Thorough {
				docs = []int{0, 1, 2, 3}
			}
			seq := func(toks []string, n int) func(func(string) bool) {
				return func(emit func(string) bool) {
					for d := 0; d <= n; d++ {
						idx := make([]int, d)
						for {
							l := []string{"2", "pipe"}
							for _, i := range idx {
								l = append(l, toks[i])
							}
							if !emit(strings.Join(l, sep)) {
								return
							}
							l[1], l[0] = "tty", "0"
							if !emit(strings.Join(l, sep)) {
								return
							}
							l[1] = "pipe"
							if !emit(strings.Join(l, sep)) {
								return
							}
							k := d - 1
							for ; k >= 0; k-- {
								idx[k]++
								if idx[k] < len(toks) {
									break
								}
								idx[k] = 0
							}
							if k < 0 {
								break
							}
						}
					}
				}
			}
			sp := []eng.Space{
				{Name: "near-values", Bound: fmt.Sprintf("%d values next to documented ones, with and without the plugin, 3 documents", len(near)), Enum: product([]int{0, 1, 2}, [][]string{{"", "--plugin-table"}, near}, false)},
				{Name: "files", Bound: "10 flags with their values; from a file, to a file, both, and to a terminal", Enum: productOf(docs, []string{"file", "out", "files", "screen"}, some, false)},
				{Name: "neutral", Bound: "10 flags with their values, and selectors that select everything or nothing", Enum: product(docs[:1], neutral, false)},
				{Name: "words", Bound: fmt.Sprintf("all command lines of up to %d of %d words", n, len(words)), Enum: seq(words, n)},
				{Name: "domains", Bound: "3 words, 14 domains", Enum: seq([]string{"--domain", "--domain=", "--domain=e.com", "--domain=https://e.com", "--domain= https://e.com", "--domain=https://e.com/a?b#c", "--domain=//e.com", "--domain=:", "--domain=https://ü.e/ x", "https://f.g", "--domain=%zz", "--plugin-strikethrough"}, 3)},
				{Name: "product", Bound: "all combinations of 10 flags with all their values, valid and invalid", Enum: product(docs, dims, false)},
				{Name: "reversed", Bound: "the same flags the other way round, one document", Enum: product(docs[:1], dims, true)},
				{Name: "explicit", Bound: "all combinations of table flags, with explicit true, false and empty values", Enum: product([]int{0}, on, false)},
			}
			return sp
		},
	})
}

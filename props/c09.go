package props

import (
	"fmt"
	"regexp"
	"slices"
	"strings"
	"unicode/utf8"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

// variousConfs: configurations that between them use every documented option.
func variousConfs() []Conf {
	return []Conf{
		{Name: "default"},
		{Name: "setext", Cm: []commonmark.OptionFunc{commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext), commonmark.WithBulletListMarker("*"), commonmark.WithEmDelimiter("_"), commonmark.WithStrongDelimiter("__"), commonmark.WithHorizontalRule("---"), commonmark.WithCodeBlockFence("~~~")}},
		{Name: "plugins", Strike: true, Table: true},
		{Name: "skip", Cm: []commonmark.OptionFunc{commonmark.WithListEndComment(false), commonmark.WithLinkEmptyHrefBehavior(commonmark.LinkBehaviorSkip), commonmark.WithLinkEmptyContentBehavior(commonmark.LinkBehaviorSkip), commonmark.WithBulletListMarker("+"), commonmark.WithHorizontalRule("_ _ _ _")}, Strike: true},
		{Name: "table-preserve", Extra: func() []converter.Plugin {
			return []converter.Plugin{table.NewTablePlugin(table.WithNewlineBehavior(table.NewlineBehaviorPreserve), table.WithPresentationTables(true), table.WithHeaderPromotion(true), table.WithSpanCellBehavior(table.SpanBehaviorMirror))}
		}},
		{Name: "noescape", NoEsc: true, Strike: true, Table: true},
	}
}

var (
	fenceRe = regexp.MustCompile("^[> \\d.)*+-]*?(```+|~~~+)([^`]*)$")
	blankRe = regexp.MustCompile(`^[> \t]*$`)
)

// shape checks the invariants of every output.
func shape(in, md string, opaque bool) string {
	if md == "" {
		return ""
	}
	if strings.TrimSpace(md) != md {
		return "blank space at the start or the end"
	}
	if strings.ContainsRune(md, '\a') && !strings.ContainsRune(in, '\a') || strings.ContainsRune(md, '\uF002') && !strings.ContainsRune(in, '\uF002') {
		return "an internal mark"
	}
	if !utf8.ValidString(md) {
		return "not valid UTF-8"
	}
	if opaque {
		return ""
	}
	code, blanks := "", 0
	lines := strings.Split(md, "\n")
	for i, l := range lines {
		if m := fenceRe.FindStringSubmatch(l); m != nil && (code == "" || strings.HasPrefix(m[1], code) && strings.TrimSpace(m[2]) == "") {
			if code == "" {
				code = m[1]
			} else {
				code = ""
			}
			blanks = 0
			continue
		}
		if code != "" {
			continue
		}
		if blankRe.MatchString(l) {
			if blanks++; blanks > 1 {
				return fmt.Sprintf("more than one blank line before line %d", i+1)
			}
			continue
		}
		blanks = 0
		t := strings.TrimRight(l, " \t")
		if extra := l[len(t):]; extra != "" {
			if extra != "  " || i+1 == len(lines) || blankRe.MatchString(lines[i+1]) {
				return fmt.Sprintf("trailing blanks on line %d", i+1)
			}
		}
	}
	if code != "" {
		return "a code block without an end"
	}
	return ""
}

func shapeJudge(c Conf) func() eng.Judge {
	return func() eng.Judge {
		a, b := newConv(c), newConv(c)
		return func(in string) *eng.Fail {
			md, err := convert(a, in)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			again, _ := convert(b, in)
			if again != md {
				return &eng.Fail{What: "two conversions of the same input differ", Expected: md, Got: again}
			}
			if s := shape(in, md, false); s != "" {
				return &eng.Fail{What: s, Output: md}
			}
			return nil
		}
	}
}

// noBlockInDel: strikethrough holds no blocks.
func noBlockInDel(stack []string, tok string) bool {
	return !slices.Contains(stack, "del") || phrasing([]string{"b"}, tok)
}

func init() {
	inl := []string{"a", " ", "<b>", "<em>", `<a href="/u">`, "<code>", "<span>", "<br>", `<img src="/u">`, "<!--c-->", "&nbsp;", "\n", "</>"}
	blk := []string{"a", "\n", "<p>", "<div>", "<ul>", "<li>", "<ol>", "<h2>", "<blockquote>", "<hr>", "<br>", "<pre>b\n\n\n c\n</pre>", "<b>", "</>"}
	wide := []string{"a", " ", "\n\n", "<p>", "<div>", "<ul>", "<li>", "<ol>", "<h1>", "<h4>", "<blockquote>", "<hr>", "<br>", "<pre>", "<b>", "<em>", `<a href="/u">`, "<a>", "<code>", "<del>", "<span>", "<table>", "<tr>", "<td>", "<th>", "<caption>", `<img src="/u">`, "<dl>", "<dt>", "<x-y>", "<script>s</script>", "<!--c-->", "&nbsp;", "*", "</>"}
	eng.Register(&eng.Check{
		ID: "C09", NewJudge: shapeJudge(Conf{}),
		Rule: "trimmed; at most one blank line in a row outside code blocks; trailing blanks only as hard breaks and in the blank lines of containers; no internal marks; equal bytes on repetition",
		Spaces: func(t eng.Tier) []eng.Space {
			l := []eng.Space{
				SizeSpace("sizes", append(append(append(append([]string{}, sizeTexts...), sizeInlines...), sizeBlocks...), sizeCode...), t.N(130, 1100), nil),
				TreeSpace("inline", inl, t.N(5, 6), []string{"<p>@</p>"}, nil),
				TreeSpace("inline-ctx", inl, t.N(4, 5), []string{"<ul><li>@</li></ul>", "<h2>@</h2>", "<blockquote>@</blockquote>", "a@<p>b</p>"}, nil),
				TreeSpace("blocks", blk, t.N(5, 6), []string{"@"}, nil),
			}
			l = append(l, StrSpace("addresses", W("a=1 b c= &amp; /x # a"), t.N(6, 7), []string{`<a href="/u?a=1&amp;b=2&amp;@&amp;c=3&amp;d=4">x</a>`, `<img src="?@&amp;z" alt="y">`}, nil))
			l = append(l, TreeSpace("inline-twice", inl, t.N(4, 5), []string{"<p>@</p><p>@</p>", "<p>@</p>a<p>@</p>", "<ul><li>@</li><li>@</li></ul>", "<h2>@</h2><blockquote>@</blockquote>"}, nil),
				TreeSpace("blocks-twice", blk, t.N(4, 5), []string{"<div>@</div><div>@</div>", "<ul><li>@</li><li>@</li></ul>", "@<p>a</p>@"}, nil))
			for _, c := range variousConfs() {
				l = append(l, TreeSpaceF("wide-"+c.Name, wide, t.N(3, 4), []string{"@"}, noBlockInDel, shapeJudge(c)))
			}
			return l
		},
	})
}

package props

import (
	"fmt"
	"strings"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/collapse"
	"golang.org/x/net/html"
)

// The elements of the default predicates, from the documentation of the
// algorithm (every other element is inline).
var (
	wsBlocks = split("address article aside audio blockquote body canvas center dd dir div dl dt fieldset figcaption figure footer form frameset h1 h2 h3 h4 h5 h6 header hgroup hr html isindex li main menu nav noframes noscript ol output p pre section table tbody td tfoot th thead tr ul")
	wsVoids  = split("area base br col command embed hr img input keygen link meta param track wbr")
	wsPres   = split("pre code")
)

func named(l ...string) func(*html.Node) bool {
	m := map[string]bool{}
	for _, n := range l {
		m[n] = true
	}
	return func(n *html.Node) bool { return n.Type == html.ElementNode && m[n.Data] }
}

type wsConf struct {
	name string
	fns  *collapse.DomFuncs
	// what the model uses
	block, void, pre func(*html.Node) bool
}

func wsConfs() []wsConf {
	b, v, p := named(wsBlocks...), named(wsVoids...), named(wsPres...)
	xb, xv, xp := named("x-b", "div"), named("x-v", "img"), named("x-p", "code")
	return []wsConf{
		{"nil", nil, b, v, p},
		{"empty", &collapse.DomFuncs{}, b, v, p},
		{"block", &collapse.DomFuncs{IsBlockNode: xb}, xb, v, p},
		{"void", &collapse.DomFuncs{IsVoidNode: xv}, b, xv, p},
		{"pre", &collapse.DomFuncs{IsPreformattedNode: xp}, b, v, xp},
		{"all", &collapse.DomFuncs{IsBlockNode: xb, IsVoidNode: xv, IsPreformattedNode: xp}, xb, xv, xp},
	}
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// modelCollapse says what every text of the tree has to be, from the rules for
// whitespace between inline content:
//   - a run of whitespace, over the borders of inline elements and comments, is
//     one space where it starts;
//   - a run at the border of a block, at a line break or at the start or end of
//     the tree is nothing;
//   - a run next to an object (void element, preformatted content) stays.
func modelCollapse(root *html.Node, c wsConf) map[*html.Node]string {
	out := map[*html.Node]string{}
	if root.FirstChild == nil || c.pre(root) {
		return out
	}
	type char struct {
		n *html.Node
		b byte // 0: object, 1: border
	}
	seq := []char{{nil, 1}}
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			switch k.Type {
			case html.TextNode:
				out[k] = ""
				for i := 0; i < len(k.Data); i++ {
					seq = append(seq, char{k, k.Data[i]})
				}
			case html.ElementNode:
				hard := c.block(k) || k.Data == "br"
				switch {
				case hard:
					seq = append(seq, char{nil, 1})
				case c.void(k) || c.pre(k):
					seq = append(seq, char{nil, 0})
				}
				if !c.pre(k) {
					walk(k)
				}
				if hard {
					seq = append(seq, char{nil, 1})
				}
			}
		}
	}
	walk(root)
	seq = append(seq, char{nil, 1})
	text := map[*html.Node][]byte{}
	for i := 0; i < len(seq); i++ {
		if seq[i].n == nil {
			continue
		}
		if !isWS(seq[i].b) {
			text[seq[i].n] = append(text[seq[i].n], seq[i].b)
			continue
		}
		j := i
		for seq[j].n != nil && isWS(seq[j].b) {
			j++
		}
		if !(seq[i-1].n == nil && seq[i-1].b == 1) && !(seq[j].n == nil && seq[j].b == 1) {
			text[seq[i].n] = append(text[seq[i].n], ' ')
		}
		i = j - 1
	}
	for n, b := range text {
		out[n] = string(b)
	}
	return out
}

// wsDump writes a tree down, with the given texts (or the own ones). Texts
// without content and doctypes are not there.
func wsDump(root *html.Node, texts map[*html.Node]string) string {
	var b strings.Builder
	var f func(n *html.Node)
	f = func(n *html.Node) {
		switch n.Type {
		case html.DoctypeNode:
			return
		case html.TextNode:
			s, ok := texts[n]
			if !ok {
				s = n.Data
			}
			if s != "" {
				fmt.Fprintf(&b, "%q", s)
			}
			return
		case html.CommentNode:
			fmt.Fprintf(&b, "<!%q>", n.Data)
			return
		}
		fmt.Fprintf(&b, "<%s%v>", n.Data, n.Attr)
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			f(k)
		}
		b.WriteString("</>")
	}
	f(root)
	return b.String()
}

func collapseJudge() eng.Judge {
	confs := wsConfs()
	return func(s string) *eng.Fail {
		for _, c := range confs {
			root := buildNodes(s)
			full := false // (what stands inside of a void element is left open)
			preorder(root, func(n *html.Node) { full = full || n.FirstChild != nil && c.void(n) })
			if full {
				continue
			}
			exp := wsDump(root, modelCollapse(root, c))
			ImplRuns.Add(1)
			collapse.Collapse(root, c.fns)
			got := wsDump(root, nil)
			if got != exp {
				return &eng.Fail{What: "the whitespace is not collapsed as in a browser (predicates: " + c.name + ")", Expected: exp, Got: got}
			}
			if strings.Contains(dumpPage(root), "broken links") {
				return &eng.Fail{What: "the tree is damaged (predicates: " + c.name + ")", Got: dumpPage(root)}
			}
			collapse.Collapse(root, c.fns)
			if again := wsDump(root, nil); again != got {
				return &eng.Fail{What: "collapsing again changes the tree (predicates: " + c.name + ")", Expected: got, Got: again}
			}
			if r := eng.Current(); r != nil {
				r.Outcome(got)
			}
		}
		// Only the part of the tree that was asked for.
		count := 0
		preorder(buildNodes(s), func(*html.Node) { count++ })
		for _, c := range []wsConf{confs[0], confs[5]} {
			for i := 1; i < count; i++ {
				root := buildNodes(s)
				var part *html.Node
				k := 0
				preorder(root, func(n *html.Node) {
					if k == i {
						part = n
					}
					k++
				})
				full := false
				preorder(part, func(n *html.Node) { full = full || n.FirstChild != nil && c.void(n) })
				if part.FirstChild == nil || full {
					continue
				}
				exp := wsDump(root, modelCollapse(part, c))
				ImplRuns.Add(1)
				collapse.Collapse(part, c.fns)
				if got := wsDump(root, nil); got != exp {
					return &eng.Fail{What: fmt.Sprintf("the whitespace of node %d (%s) is not collapsed on its own (predicates: %s)", i, part.Data, c.name), Expected: exp, Got: got}
				}
			}
		}
		return nil
	}
}

func init() {
	inline := []string{"[t:a]", "[t: ]", "[t: b]", "[t:c ]", "[t:\n]", "<b>", "<br>", "<img>", "<div>", "[c:x]", "</>"}
	odd := []string{"[t:a]", "[t: ]", "[t:\t\r\n d]", "[t:]", "[t:\u00a0]", "<i a=b>", "<x-b>", "<x-v>", "<x-p>", "<pre>", "[c: ]", "[d:html]", "</>"}
	chars := func(emit func(string) bool) {
		Strings([]string{"a", " ", "\t", "\n", "\r", "\u00a0", "é", "\f", "b"}, 6, []string{"[t:@]", "[t:x]<b>[t:@]</b>[t:y]"})(emit)
	}
	var names []string
	names = append(append(append(names, wsBlocks...), wsVoids...), split("a b i em strong span u s del ins small sub sup q cite abbr time label button source video picture svg x-y details summary select option")...)
	each := func(emit func(string) bool) {
		for _, n := range names {
			for _, in := range []string{"", "[t: e ]", "[t: ]", "<img>"} {
				if in != "" && (n == "br" || n == "img" || n == "hr") {
					continue
				}
				el := "<_" + n + ">" + in + "</" + n + ">"
				if n == "br" || n == "img" || n == "hr" {
					el = "<" + n + ">"
				}
				for _, l := range []string{"", "[t:a]", "[t:a ]", "[t: ]", "<i>[t:a ]</i>", "<img>", "<br>"} {
					for _, r := range []string{"", "[t:b]", "[t: b]", "[t: ]", "<i>[t: b]</i>", "<img>", "<br>"} {
						if !emit(l + el + r) {
							return
						}
					}
				}
			}
		}
	}
	eng.Register(&eng.Check{
		ID: "C29", NewJudge: collapseJudge,
		Rule: "the tree after collapse.Collapse, with every combination of given and default predicates, is the original with the texts that a model of inline whitespace assigns to the text nodes; every link between the nodes is intact; a second run changes nothing",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				TreeSpace("inline", inline, t.N(5, 6), []string{"@"}, nil),
				TreeSpace("odd", odd, t.N(4, 5), []string{"@", "[t:a ]<b>@</b>[t: b]"}, nil),
				{Name: "texts", Bound: "every text of up to 6 characters of letters, blanks, tabs, newlines, carriage returns, no-break spaces and form feeds, alone and within an inline element", Enum: chars},
				{Name: "elements", Bound: fmt.Sprintf("each of %d elements with 4 contents, between 7 things on the left and 7 on the right", len(names)), Enum: each},
			}
		},
	})
}

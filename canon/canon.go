// Package canon is the observation function of the model checker: it maps an
// HTML document to a canonical description of what a reader sees (blocks,
// styled text runs, links, images, code). It knows nothing about the code
// under test. Two HTML documents with the same canonical form are "the same
// document" for the fidelity properties.
package canon

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/net/html"
)

const (
	sEm = 1 << iota
	sStrong
	sCode
	sDel
)

type atom struct {
	ch    rune   // 0 for an object (image), '\n' for a hard break
	obj   string // image description
	style int
	link  string
	lid   int    // identity of the link element
	ids   [3]int // identity of the em, strong, del element
}

// Block is a node of the canonical tree.
type Block struct {
	Kind string
	Attr string
	Text string // canonical inline content (leaf blocks) or raw code
	Kids []*Block
}

// Options tune the observation.
type Options struct {
	// BreakIsSpace: inside headings a line break is observed as a space.
	HeadingBreakIsSpace bool
	// Tables: observe <table> as a grid instead of flattening it.
	Tables bool
	// IgnoreStyle drops em/strong/code/link/del (text-only observation).
	IgnoreStyle bool
	// Flat drops the block structure and observes the text only.
	Flat bool
	// KeepListEnd keeps the separator comment visible.
	KeepRawHTML bool
	// NormAttr normalises attribute values: kind is "href", "src", "title",
	// "alt" or "lang".
	NormAttr func(kind, val string) string
	// EmUnderscore and StrongUnderscore: the delimiter is "_" / "__".
	EmUnderscore, StrongUnderscore bool
}

type builder struct {
	opt   Options
	stack []*Block
	runs  []atom
	unrep bool
	// odd: there are inline elements without content or line breaks at the
	// edge of a paragraph.
	odd bool
	seq int
	lid int
	ids [3]int
}

func (b *builder) top() *Block { return b.stack[len(b.stack)-1] }

func isSpaceRune(r rune) bool {
	return r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == '\f'
}

func (b *builder) inItem() bool {
	for _, s := range b.stack {
		if s.Kind == "li" {
			return true
		}
	}
	return false
}

// splitParas splits atoms at two or more consecutive hard breaks.
func (b *builder) flush(kind string) {
	runs := b.runs
	b.runs = nil
	// hard break runs split paragraphs
	var paras [][]atom
	cur := []atom{}
	i := 0
	for i < len(runs) {
		if runs[i].ch == '\n' {
			j := i
			n := 0
			for j < len(runs) && (runs[j].ch == '\n' || runs[j].ch == ' ') {
				if runs[j].ch == '\n' {
					n++
				}
				j++
			}
			if n >= 2 && kind == "p" {
				for _, x := range runs[i:j] {
					if x.style != 0 {
						b.odd = true
					}
					if x.style != 0 && x.link != "" {
						b.unrep = true
					}
				}
				paras = append(paras, cur)
				cur = []atom{}
			} else {
				cur = append(cur, runs[i])
			}
			i = j
			continue
		}
		cur = append(cur, runs[i])
		i++
	}
	paras = append(paras, cur)
	for _, p := range paras {
		s := b.render(p, kind)
		if s == "" {
			continue
		}
		b.top().Kids = append(b.top().Kids, &Block{Kind: kind, Text: s})
	}
}

func (b *builder) render(in []atom, kind string) string {
	// 1. headings: break -> space
	var a []atom
	for _, x := range in {
		if x.ch == '\n' && kind != "p" && b.opt.HeadingBreakIsSpace {
			x = atom{ch: ' '}
		}
		a = append(a, x)
	}
	// 2. collapse whitespace; whitespace next to a break disappears
	var out []atom
	for _, x := range a {
		if unicode.IsSpace(x.ch) && x.ch != '\n' {
			if len(out) == 0 {
				continue
			}
			l := out[len(out)-1]
			if l.ch == '\n' || (l.ch == ' ' && x.ch == ' ') {
				continue
			}
			out = append(out, atom{ch: x.ch})
			continue
		}
		if x.ch == '\n' {
			for len(out) > 0 && out[len(out)-1].ch != '\n' && unicode.IsSpace(out[len(out)-1].ch) {
				out = out[:len(out)-1]
			}
			if len(out) == 0 || out[len(out)-1].ch == '\n' {
				b.odd = true
				continue
			}
			out = append(out, atom{ch: '\n', style: x.style, link: x.link})
			continue
		}
		out = append(out, x)
	}
	for len(out) > 0 && unicode.IsSpace(out[len(out)-1].ch) {
		if out[len(out)-1].ch == '\n' {
			b.odd = true
		}
		out = out[:len(out)-1]
	}
	// 3. whitespace carries the style shared by its neighbours
	for i := range out {
		if unicode.IsSpace(out[i].ch) && i > 0 && i < len(out)-1 {
			l, r := out[i-1], out[i+1]
			if out[i].ch == '\n' && out[i].style != l.style&r.style {
				b.odd = true
			}
			out[i].style = l.style & r.style
			out[i].link = ""
			if l.link == r.link {
				out[i].link = l.link
				out[i].lid = l.lid
			}
			out[i].ids = l.ids
		}
	}
	if !b.representable(out) {
		b.unrep = true
	}
	if b.opt.IgnoreStyle {
		for i := range out {
			out[i].style = 0
			out[i].link = ""
		}
	}
	// 4. print
	var sb strings.Builder
	prev := atom{style: -1}
	open := false
	for _, x := range out {
		if x.style != prev.style || x.link != prev.link {
			if open {
				sb.WriteString("}")
				open = false
			}
			if x.style != 0 || x.link != "" {
				sb.WriteString("{")
				if x.style&sStrong != 0 {
					sb.WriteString("S")
				}
				if x.style&sEm != 0 {
					sb.WriteString("E")
				}
				if x.style&sCode != 0 {
					sb.WriteString("C")
				}
				if x.style&sDel != 0 {
					sb.WriteString("D")
				}
				if x.link != "" {
					sb.WriteString("L(" + x.link + ")")
				}
				sb.WriteString(":")
				open = true
			}
			prev = x
		}
		switch {
		case x.obj != "":
			sb.WriteString("⟦" + x.obj + "⟧")
		case x.ch == '\n':
			sb.WriteString("⏎")
		default:
			sb.WriteRune(x.ch)
		}
	}
	if open {
		sb.WriteString("}")
	}
	return sb.String()
}

var removed = map[string]bool{
	"head": true, "script": true, "style": true, "link": true, "meta": true,
	"iframe": true, "noscript": true, "input": true, "textarea": true,
}

func attr(n *html.Node, k string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == k {
			return a.Val, true
		}
	}
	return "", false
}

func (b *builder) text(s string, style int, link string) {
	for _, r := range s {
		if isSpaceRune(r) {
			r = ' '
		}
		b.runs = append(b.runs, atom{ch: r, style: style, link: link, lid: b.lid, ids: b.ids})
	}
}

func rawText(n *html.Node, sb *strings.Builder) {
	if n.Type == html.TextNode {
		sb.WriteString(n.Data)
	}
	if n.Type == html.ElementNode && (n.Data == "br" || n.Data == "div") {
		sb.WriteString("\n")
	}
	if n.Type == html.ElementNode && (n.Data == "code" || n.Data == "tt") && !hasText(n) {
		return // code without any text is nothing
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		rawText(c, sb)
	}
}

func hasText(n *html.Node) bool {
	if n.Type == html.TextNode && n.Data != "" {
		return true
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if hasText(c) {
			return true
		}
	}
	return false
}

func codeLang(n *html.Node) string {
	lang := ""
	var f func(*html.Node)
	f = func(n *html.Node) {
		if lang != "" {
			return
		}
		if n.Type == html.ElementNode && (n.Data == "code" || n.Data == "pre") {
			cl, _ := attr(n, "class")
			for _, p := range strings.Fields(cl) {
				if strings.HasPrefix(p, "language-") {
					lang = strings.TrimPrefix(p, "language-")
					return
				}
				if strings.HasPrefix(p, "lang-") {
					lang = strings.TrimPrefix(p, "lang-")
					return
				}
			}
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			f(c)
		}
	}
	f(n)
	return lang
}

func (b *builder) norm(kind, v string) string {
	if b.opt.NormAttr == nil {
		return v
	}
	return b.opt.NormAttr(kind, v)
}

func (b *builder) linkKey(n *html.Node) string {
	h, ok := attr(n, "href")
	if !ok {
		h = ""
	}
	t, _ := attr(n, "title")
	if h == "" {
		// A title needs an address.
		t = ""
	}
	h, t = b.norm("href", h), b.norm("title", t)
	return fmt.Sprintf("%s|%s", h, t)
}

func (b *builder) walkKids(n *html.Node, style int, link string, leaf string) {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		b.walk(c, style, link, leaf)
	}
}

var bits = [3]int{sEm, sStrong, sDel}

// inline visits an emphasis element.
func (b *builder) inline(n *html.Node, style int, link string, leaf string) {
	before := len(b.runs)
	save := b.ids
	b.seq++
	for i, bit := range bits {
		// nested elements of the same kind are one element
		if style&bit != 0 && b.ids[i] == 0 {
			b.ids[i] = b.seq
		}
	}
	b.walkKids(n, style, link, leaf)
	b.ids = save
	if len(b.runs) < before {
		return
	}
	for _, x := range b.runs[before:] {
		if x.obj != "" || !unicode.IsSpace(x.ch) {
			return
		}
	}
	b.odd = true
}

// walk visits a node; leaf is the kind of the leaf block that inline content
// currently belongs to.
func (b *builder) walk(n *html.Node, style int, link string, leaf string) {
	switch n.Type {
	case html.TextNode:
		b.text(n.Data, style, link)
		return
	case html.CommentNode:
		if b.opt.KeepRawHTML {
			b.flush(leaf)
			b.top().Kids = append(b.top().Kids, &Block{Kind: "comment", Text: n.Data})
		}
		return
	case html.DoctypeNode:
		return
	case html.DocumentNode:
		b.walkKids(n, style, link, leaf)
		return
	}
	name := n.Data
	if removed[name] {
		return
	}
	container := func(kind, at string) {
		b.flush(leaf)
		blk := &Block{Kind: kind, Attr: at}
		b.stack = append(b.stack, blk)
		b.walkKids(n, style, link, "p")
		b.flush("p")
		b.stack = b.stack[:len(b.stack)-1]
		if len(blk.Kids) == 0 {
			return
		}
		b.top().Kids = append(b.top().Kids, blk)
	}
	switch name {
	case "strong", "b":
		b.inline(n, style|sStrong, link, leaf)
	case "em", "i":
		b.inline(n, style|sEm, link, leaf)
	case "code", "kbd", "samp", "tt", "var":
		// Markup inside a code span is not representable: text only.
		var sb strings.Builder
		rawText(n, &sb)
		// Whitespace at the edges of a code span is not observed.
		b.text(strings.TrimSpace(sb.String()), style|sCode, link)
	case "del", "s", "strike":
		before, kids := len(b.runs), len(b.top().Kids)
		b.inline(n, style|sDel, link, leaf)
		if len(b.runs) == before && len(b.top().Kids) == kids {
			// Nothing in it: what it separates may come together.
			b.unrep = true
		}
	case "a":
		before := len(b.runs)
		kids := len(b.top().Kids)
		slid := b.lid
		b.seq++
		b.lid = b.seq
		b.walkKids(n, style, b.linkKey(n), leaf)
		b.lid = slid
		if len(b.top().Kids) == kids && len(b.runs) >= before {
			empty := true
			for _, x := range b.runs[before:] {
				if x.obj != "" || !unicode.IsSpace(x.ch) {
					empty = false
				}
			}
			if empty {
				// A link without content is visible in the source, but
				// where it stands is not part of the claims.
				b.unrep = true
				b.runs = append(b.runs, atom{obj: "link " + b.linkKey(n), style: style})
			}
		}
	case "br":
		b.runs = append(b.runs, atom{ch: '\n', style: style, link: link})
	case "img":
		src, _ := attr(n, "src")
		alt, _ := attr(n, "alt")
		title, _ := attr(n, "title")
		if src == "" {
			return
		}
		src, alt, title = b.norm("src", src), b.norm("alt", alt), b.norm("title", title)
		b.runs = append(b.runs, atom{obj: src + "|" + alt + "|" + title, style: style, link: link, lid: b.lid, ids: b.ids})
	case "h1", "h2", "h3", "h4", "h5", "h6":
		b.flush(leaf)
		b.walkKids(n, style, link, name)
		b.flush(name)
	case "p", "div", "section", "article", "main", "header", "footer", "nav", "aside", "figure", "figcaption", "address", "center", "form", "fieldset", "dl", "dt", "dd", "details", "summary":
		b.flush(leaf)
		b.walkKids(n, style, link, leaf)
		b.flush(leaf)
	case "hr":
		b.flush(leaf)
		b.top().Kids = append(b.top().Kids, &Block{Kind: "hr"})
	case "pre":
		b.flush(leaf)
		var sb strings.Builder
		rawText(n, &sb)
		s := strings.TrimSuffix(strings.ReplaceAll(strings.ReplaceAll(sb.String(), "\r\n", "\n"), "\r", "\n"), "\n")
		if b.inItem() {
			// The spaces of a line with nothing else are not observed in an item.
			l := strings.Split(s, "\n")
			for i := range l {
				if strings.TrimSpace(l[i]) == "" {
					l[i] = ""
				}
			}
			s = strings.Join(l, "\n")
		}
		b.top().Kids = append(b.top().Kids, &Block{Kind: "pre", Attr: b.norm("lang", codeLang(n)), Text: s})
	case "blockquote":
		container("bq", "")
	case "ul":
		b.list(n, "", style, link, leaf)
	case "ol":
		st := 1
		if v, ok := attr(n, "start"); ok {
			v = strings.TrimLeft(v, " \t\n\f\r")
			end := 0
			for end < len(v) && (v[end] >= '0' && v[end] <= '9' || end == 0 && strings.ContainsRune("+-", rune(v[0]))) {
				end++
			}
			if k, err := strconv.Atoi(v[:end]); err == nil {
				st = k
			}
		}
		b.list(n, strconv.Itoa(st), style, link, leaf)
	case "li":
		// outside of a list
		b.flush(leaf)
		b.walkKids(n, style, link, leaf)
		b.flush(leaf)
	case "table":
		if b.opt.Tables {
			b.flush(leaf)
			b.table(n)
			return
		}
		b.flush(leaf)
		b.walkKids(n, style, link, leaf)
		b.flush(leaf)
	case "span":
		if style != 0 {
			// The delimiter stays outside of a link in the span.
			b.odd = true
		}
		b.walkKids(n, style, link, leaf)
	default:
		b.walkKids(n, style, link, leaf)
	}
}

// list visits a list. Content between the items belongs to the item before.
func (b *builder) list(n *html.Node, start string, style int, link, leaf string) {
	b.flush(leaf)
	blk := &Block{Kind: n.Data, Attr: start}
	var cur *Block
	end := func() {
		if cur == nil {
			return
		}
		b.flush("p")
		b.stack = b.stack[:len(b.stack)-1]
		if len(cur.Kids) > 0 {
			blk.Kids = append(blk.Kids, cur)
		}
		cur = nil
	}
	begin := func() {
		end()
		cur = &Block{Kind: "li"}
		b.stack = append(b.stack, cur)
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		switch {
		case c.Type == html.ElementNode && c.Data == "li":
			begin()
			b.walkKids(c, style, link, "p")
		case c.Type == html.TextNode && strings.TrimSpace(c.Data) == "", c.Type == html.CommentNode:
		default:
			if cur == nil {
				begin()
			}
			b.walk(c, style, link, "p")
		}
	}
	end()
	if len(blk.Kids) == 0 {
		return
	}
	if blk.Attr != "" {
		// Markdown has no numbers below zero or above 999999999.
		if k, _ := strconv.Atoi(blk.Attr); k < 0 || k+len(blk.Kids)-1 > 999_999_999 {
			blk.Attr = "1"
		}
	}
	b.top().Kids = append(b.top().Kids, blk)
}

func (b *builder) table(n *html.Node) {
	t := &Block{Kind: "table"}
	var rows func(*html.Node)
	rows = func(n *html.Node) {
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			if c.Type != html.ElementNode {
				continue
			}
			switch c.Data {
			case "tr":
				r := &Block{Kind: "tr"}
				for d := c.FirstChild; d != nil; d = d.NextSibling {
					if d.Type == html.ElementNode && (d.Data == "td" || d.Data == "th") {
						al, _ := attr(d, "align")
						if st, ok := attr(d, "style"); ok && al == "" {
							al = strings.TrimPrefix(strings.TrimSuffix(strings.ReplaceAll(st, " ", ""), ";"), "text-align:")
						}
						cell := &Block{Kind: d.Data, Attr: al}
						b.stack = append(b.stack, cell)
						b.walkKids(d, 0, "", "p")
						b.flush("p")
						b.stack = b.stack[:len(b.stack)-1]
						r.Kids = append(r.Kids, cell)
					}
				}
				t.Kids = append(t.Kids, r)
			default:
				rows(c)
			}
		}
	}
	rows(n)
	b.top().Kids = append(b.top().Kids, t)
}

const (
	clSpace = iota
	clPunct
	clWord
)

func class(r rune) int {
	if r == 0 || unicode.IsSpace(r) {
		return clSpace
	}
	if unicode.IsPunct(r) || unicode.IsSymbol(r) {
		return clPunct
	}
	return clWord
}

// representable reports whether CommonMark is able to express all emphasis
// boundaries of the run: a delimiter between a word character on the outside
// and punctuation on the inside is not recognised (flanking rules), and an
// underscore delimiter is not recognised next to a word character at all.
func (b *builder) representable(out []atom) bool {
	none := atom{}
	get := func(i int) atom {
		if i < 0 || i >= len(out) {
			return none
		}
		return out[i]
	}
	// simple: the link at i covers exactly the same atoms as the emphasis, so
	// that the delimiter may be placed inside of the link.
	simple := func(i, bit int) bool {
		if b.odd {
			return false
		}
		style := out[i].style
		if style != bit {
			return false
		}
		s, e := i, i
		for s > 0 && out[s-1].lid == out[i].lid {
			s--
		}
		for e < len(out)-1 && out[e+1].lid == out[i].lid {
			e++
		}
		for k := s; k <= e; k++ {
			if out[k].style != style {
				return false
			}
		}
		return get(s-1).style&bit == 0 && get(e+1).style&bit == 0
	}
	// fam: which delimiters are written with the same character.
	fam := [3]int{0, 0, 2}
	if b.opt.EmUnderscore {
		fam[0] = 1
	}
	if b.opt.StrongUnderscore {
		fam[1] = 1
	}
	// check the delimiter between outside o and inside n (at index ni).
	check := func(o, n atom, ni int, k int, under bool) bool {
		bit := bits[k]
		if n.style&bit == 0 {
			return true
		}
		if o.style&bit != 0 && (o.ids[k] == n.ids[k] || o.style == n.style) {
			return true
		}
		var oc, nc int
		switch {
		case o.obj != "" || o.style&sCode != 0:
			oc = clPunct
		case o.link != "" && o.link != n.link:
			oc = clPunct
		default:
			oc = class(o.ch)
		}
		if n.link != "" && n.link != o.link && n.obj == "" {
			// The delimiter is inside or outside of the link.
			nc = clPunct
			if bit != sDel && n.style&sCode == 0 && simple(ni, bit) {
				nc = class(n.ch)
			}
		} else if n.obj != "" || n.style&sCode != 0 {
			nc = clPunct
		} else {
			nc = class(n.ch)
		}
		if n.style&sCode != 0 && o.style&sCode == 0 && oc != clSpace {
			// Code at the edge of emphasis is set apart from its neighbour.
			return false
		}
		if under && oc == clWord {
			return false
		}
		// Delimiters of different kinds next to each other.
		for k2, bit2 := range bits {
			if fam[k2] != fam[k] && n.style&bit2 != 0 && (o.style&bit2 == 0 || o.ids[k2] != n.ids[k2]) && oc == clWord {
				return false
			}
		}
		return nc != clPunct || oc != clWord
	}
	under := [3]bool{b.opt.EmUnderscore, b.opt.StrongUnderscore, false}
	if under[0] == under[1] && !unambiguous(out) {
		return false
	}
	for i := 0; i <= len(out); i++ {
		l, r := get(i-1), get(i)
		for k := range bits {
			if !check(l, r, i, k, under[k]) || !check(r, l, i-1, k, under[k]) {
				return false
			}
		}
		if !b.separable(out, l, r, under) {
			return false
		}
		// A line break inside a link inside emphasis.
		if r.ch == '\n' && r.link != "" {
			for _, bit := range bits {
				if r.style&bit != 0 && !simple(i, bit) {
					return false
				}
			}
		}
	}
	return true
}

// separable: where one emphasis ends and another one begins with nothing in
// between, their delimiters form one run. CommonMark reads it as meant only
// if neither of the two contains other emphasis of the same delimiter.
func (b *builder) separable(out []atom, l, r atom, under [3]bool) bool {
	const emph = sEm | sStrong
	var closes, opens [3]bool
	for k, bit := range bits {
		cont := l.style&bit != 0 && r.style&bit != 0 && (l.ids[k] == r.ids[k] || l.style == r.style)
		closes[k] = l.style&bit != 0 && !cont
		opens[k] = r.style&bit != 0 && !cont
	}
	flat := func(x atom, k int) bool {
		for _, y := range out {
			if y.style&bits[k] != 0 && y.ids[k] == x.ids[k] && y.style&emph != bits[k] {
				return false
			}
		}
		return true
	}
	for i := 0; i < 2; i++ {
		for k := 0; k < 2; k++ {
			if closes[i] && opens[k] && under[i] == under[k] {
				if !flat(l, i) || !flat(r, k) {
					return false
				}
			}
		}
	}
	return true
}

// unambiguous: bold inside italic (or the reverse) whose delimiters touch
// characters on both sides is read as meant only if there is one inner piece.
func unambiguous(out []atom) bool {
	const emph = sEm | sStrong
	for i := 0; i < len(out); {
		if out[i].style&emph == 0 {
			i++
			continue
		}
		j := i
		nested, touching := 0, false
		outer := atom{}
		mixed := false
		for j < len(out) && out[j].style&emph != 0 {
			x := out[j]
			first := j == i || out[j-1].style&emph != x.style&emph || out[j-1].ids[0] != x.ids[0] || out[j-1].ids[1] != x.ids[1]
			if first && j > i && class(out[j-1].ch) != clSpace && class(x.ch) != clSpace {
				touching = true
			}
			if first && j > i && visibleClass(out[j-1]) == clPunct && visibleClass(x) == clPunct {
				touching = true
			}
			if x.style&emph == emph {
				if first {
					nested++
				}
			} else if first {
				if outer.style == 0 {
					outer = x
				} else if outer.style&emph != x.style&emph || outer.ids[0] != x.ids[0] || outer.ids[1] != x.ids[1] {
					mixed = true
				}
			}
			j++
		}
		if touching && (nested > 1 || nested == 1 && mixed) {
			return false
		}
		i = j
	}
	return true
}

// visibleClass is the class of what is written for the atom.
func visibleClass(a atom) int {
	if a.obj != "" {
		return clPunct
	}
	return class(a.ch)
}

// Observe returns the canonical form and whether CommonMark can express it.
func Observe(s string, opt Options) (string, bool) {
	n, err := html.Parse(strings.NewReader(s))
	if err != nil {
		panic(err)
	}
	b := &builder{opt: opt}
	root := &Block{Kind: "doc"}
	b.stack = []*Block{root}
	b.walk(n, 0, "", "p")
	b.flush("p")
	return root.String(), !b.unrep
}

// Of returns the canonical tree of an HTML node.
func Of(n *html.Node, opt Options) *Block {
	b := &builder{opt: opt}
	root := &Block{Kind: "doc"}
	b.stack = []*Block{root}
	b.walk(n, 0, "", "p")
	b.flush("p")
	return root
}

// OfString parses and canonicalises.
func OfString(s string, opt Options) *Block {
	n, err := html.Parse(strings.NewReader(s))
	if err != nil {
		panic(err)
	}
	return Of(n, opt)
}

func (b *Block) String() string {
	var sb strings.Builder
	b.write(&sb)
	return sb.String()
}
func (b *Block) write(sb *strings.Builder) {
	sb.WriteString("(" + b.Kind)
	if b.Attr != "" {
		sb.WriteString("[" + b.Attr + "]")
	}
	if b.Text != "" || b.Kind == "pre" {
		sb.WriteString(" " + fmt.Sprintf("%q", b.Text))
	}
	for _, k := range b.Kids {
		sb.WriteString(" ")
		k.write(sb)
	}
	sb.WriteString(")")
}

// Words returns the sorted multiset of words, used by conservation checks.
func Words(s string) []string {
	w := strings.Fields(s)
	sort.Strings(w)
	return w
}

package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"

	"vmc/eng"

	h2m "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

// pieces delivers the text in pieces that end at the given offsets. An empty
// piece is a read of nothing. The end (EOF or a fault) comes with the last
// piece or after it.
type pieces struct {
	s        string
	pos      int
	cuts     []int
	end      error
	withData bool
	empty    int // reads of nothing before every piece
	empties  int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if p.empties < p.empty {
		p.empties++
		return 0, nil
	}
	p.empties = 0
	if p.pos >= len(p.s) {
		return 0, p.end
	}
	next := len(p.s)
	for _, c := range p.cuts {
		if c > p.pos && c < next {
			next = c
		}
	}
	n := copy(b, p.s[p.pos:next])
	p.pos += n
	if p.pos == len(p.s) && p.withData {
		return n, p.end
	}
	return n, nil
}

type myErr struct{ code int }

func (e *myErr) Error() string { return "fault " + strconv.Itoa(e.code) }

var faults = []error{&myErr{7}, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), os.ErrDeadlineExceeded, context.Canceled, io.ErrClosedPipe}

var optSets = []func() []converter.ConvertOptionFunc{
	func() []converter.ConvertOptionFunc { return nil },
	func() []converter.ConvertOptionFunc {
		return []converter.ConvertOptionFunc{converter.WithDomain("https://h.de/x/")}
	},
	func() []converter.ConvertOptionFunc {
		return []converter.ConvertOptionFunc{converter.WithDomain("http://x.de"), converter.WithDomain("https://h.de/x/"), converter.WithContext(context.WithValue(context.Background(), "k", "v"))}
	},
}

// entryJudge: all entry points say the same.
func entryJudge() eng.Judge {
	ref, other := newConv(Conf{}), newConv(Conf{})
	return func(in string) *eng.Fail {
		for i, o := range optSets {
			exp, err := convert(ref, in, o()...)
			if err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			parse := func() *html.Node {
				n, err := html.Parse(strings.NewReader(in))
				if err != nil {
					panic(err)
				}
				return n
			}
			type entry struct {
				name string
				f    func() (string, error)
			}
			str := func(b []byte, err error) (string, error) { return string(b), err }
			for _, e := range []entry{
				{"Converter.ConvertReader", func() (string, error) { return str(other.ConvertReader(strings.NewReader(in), o()...)) }},
				{"Converter.ConvertNode", func() (string, error) { return str(other.ConvertNode(parse(), o()...)) }},
				{"htmltomarkdown.ConvertString", func() (string, error) { return h2m.ConvertString(in, o()...) }},
				{"htmltomarkdown.ConvertReader", func() (string, error) { return str(h2m.ConvertReader(strings.NewReader(in), o()...)) }},
				{"htmltomarkdown.ConvertNode", func() (string, error) { return str(h2m.ConvertNode(parse(), o()...)) }},
			} {
				ImplRuns.Add(1)
				got, err := e.f()
				if err != nil {
					return &eng.Fail{What: e.name + ": error: " + err.Error()}
				}
				if got != exp {
					return &eng.Fail{What: fmt.Sprintf("%s and Converter.ConvertString differ (options %d)", e.name, i), Expected: exp, Got: got}
				}
			}
		}
		return nil
	}
}

// shownJudge: what depends on how the page is parsed is shown here, and the
// page is the same for every entry point and with any options.
func shownJudge() eng.Judge {
	cv := newConv(Conf{})
	for _, n := range W("noscript iframe noframes template textarea head svg") {
		cv.Register.RendererFor(n, converter.TagTypeBlock, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			w.WriteString("\n\n{" + n.Data)
			for c := n.FirstChild; c != nil; c = c.NextSibling {
				fmt.Fprintf(w, " %d:%s", c.Type, c.Data)
			}
			w.WriteString("}\n\n")
			return converter.RenderSuccess
		}, converter.PriorityEarly)
	}
	return func(in string) *eng.Fail {
		doc, err := html.Parse(strings.NewReader(in))
		if err != nil {
			return nil
		}
		ImplRuns.Add(1)
		exp, err := cv.ConvertNode(doc)
		if err != nil {
			return &eng.Fail{What: "error: " + err.Error()}
		}
		for i, o := range optSets {
			ImplRuns.Add(2)
			s, err1 := cv.ConvertString(in, o()...)
			b, err2 := cv.ConvertReader(strings.NewReader(in), o()...)
			if err1 != nil || err2 != nil {
				return &eng.Fail{What: fmt.Sprint("error: ", err1, err2)}
			}
			if s != string(exp) || string(b) != string(exp) {
				return &eng.Fail{What: fmt.Sprintf("the page is not parsed as html.Parse does (options %d)", i), Expected: string(exp), Got: s + " / " + string(b)}
			}
		}
		return nil
	}
}

// nodeJudge: every node of the page, as the root of a tree of its own, is the
// same for Converter.ConvertNode and htmltomarkdown.ConvertNode.
func nodeJudge() eng.Judge {
	ref := newConv(Conf{})
	return func(in string) *eng.Fail {
		root, err := html.Parse(strings.NewReader(in))
		if err != nil {
			return nil
		}
		var nodes []*html.Node
		preorder(root, func(n *html.Node) { nodes = append(nodes, n) })
		for i, n := range nodes {
			for j, o := range optSets {
				ImplRuns.Add(2)
				exp, err1 := ref.ConvertNode(cloneNode(n), o()...)
				got, err2 := h2m.ConvertNode(cloneNode(n), o()...)
				if err1 != nil || err2 != nil {
					return &eng.Fail{What: fmt.Sprint("error: ", err1, err2)}
				}
				if string(exp) != string(got) {
					return &eng.Fail{What: fmt.Sprintf("htmltomarkdown.ConvertNode and Converter.ConvertNode differ for node %d (%s, options %d)", i, n.Data, j), Expected: string(exp), Got: string(got)}
				}
			}
		}
		return nil
	}
}

// readJudge: the state is "<doc>\x1f<cuts>\x1f<kind>\x1f<fault>": kind 0 ends
// after the last piece, 1 with it, 2 as 0 with empty reads in between; fault
// is empty or "<number> <position>".
func readJudge() eng.Judge {
	cv := newConv(Conf{})
	var lastDoc, exp string
	first := true
	return func(state string) *eng.Fail {
		f := strings.Split(state, sep)
		if first || f[0] != lastDoc {
			var err error
			if exp, err = convert(cv, f[0]); err != nil {
				return &eng.Fail{What: "error: " + err.Error()}
			}
			lastDoc, first = f[0], false
		}
		for i := range 2 {
			r := &pieces{s: f[0], end: io.EOF, withData: f[2] == "1"}
			if f[2] == "2" {
				r.empty = 2
			}
			for _, c := range strings.Fields(f[1]) {
				n, _ := strconv.Atoi(c)
				r.cuts = append(r.cuts, n)
			}
			var fault error
			if f[3] != "" {
				var k, pos int
				fmt.Sscanf(f[3], "%d %d", &k, &pos)
				fault = faults[k]
				r.s, r.end = f[0][:pos], fault
			}
			ImplRuns.Add(1)
			var out []byte
			var err error
			name := "Converter.ConvertReader"
			if i == 0 {
				out, err = cv.ConvertReader(r)
			} else {
				name = "htmltomarkdown.ConvertReader"
				out, err = h2m.ConvertReader(r)
			}
			if fault != nil {
				if err == nil || len(out) > 0 {
					return &eng.Fail{What: name + ": a read fault is not reported", Expected: fault.Error(), Got: fmt.Sprint(err), Output: string(out)}
				}
				if !errors.Is(err, fault) {
					return &eng.Fail{What: name + ": not the error of the reader", Expected: fault.Error(), Got: err.Error()}
				}
				continue
			}
			if err != nil {
				return &eng.Fail{What: name + ": error: " + err.Error()}
			}
			if string(out) != exp {
				return &eng.Fail{What: name + ": the pieces the input arrives in matter", Expected: exp, Got: string(out)}
			}
		}
		return nil
	}
}

// hugeJudge: documents around a size where a limit could be. The state is
// "<unit>␟<size>": the unit is repeated up to that size, and the page ends
// with a paragraph and a word.
func hugeJudge() eng.Judge {
	ref := newConv(Conf{})
	return func(state string) *eng.Fail {
		f := strings.Split(state, sep)
		size, _ := strconv.Atoi(f[1])
		const end = "<p>last</p><p>omega</p>"
		doc := strings.Repeat(f[0], max(0, size-len(end))/len(f[0]))
		doc += strings.Repeat("z", max(0, size-len(end)-len(doc))) + end
		root, err := html.Parse(strings.NewReader(doc))
		if err != nil {
			return nil
		}
		ImplRuns.Add(6)
		exp, err := ref.ConvertNode(root)
		if err != nil {
			return &eng.Fail{What: "error: " + err.Error()}
		}
		if !strings.HasSuffix(string(exp), "last\n\nomega") {
			return &eng.Fail{What: "Converter.ConvertNode: the end of the page is missing"}
		}
		str := func(b []byte, err error) (string, error) { return string(b), err }
		for _, e := range []struct {
			name string
			f    func() (string, error)
		}{
			{"Converter.ConvertString", func() (string, error) { return ref.ConvertString(doc) }},
			{"Converter.ConvertReader", func() (string, error) { return str(ref.ConvertReader(strings.NewReader(doc))) }},
			{"htmltomarkdown.ConvertString", func() (string, error) { return h2m.ConvertString(doc) }},
			{"htmltomarkdown.ConvertReader", func() (string, error) { return str(h2m.ConvertReader(strings.NewReader(doc))) }},
			{"htmltomarkdown.ConvertReader, one chunk", func() (string, error) {
				return str(h2m.ConvertReader(&pieces{s: doc, end: io.EOF, withData: true, cuts: []int{size / 2}}))
			}},
		} {
			got, err := e.f()
			if err != nil {
				return &eng.Fail{What: e.name + ": error: " + err.Error()}
			}
			if got != string(exp) {
				return &eng.Fail{What: fmt.Sprintf("%s and Converter.ConvertNode differ: %d and %d bytes", e.name, len(got), len(exp))}
			}
		}
		return nil
	}
}

// splitSpace: every way to cut the documents into pieces.
func splitSpace(docs []string) eng.Space {
	return eng.Space{Name: "splits-all", Bound: fmt.Sprintf("every composition into pieces of each of %q, end with or after the last piece, with and without empty reads", docs), NewJudge: readJudge,
		Enum: func(emit func(string) bool) {
			for _, d := range docs {
				for m := 0; m < 1<<(len(d)-1); m++ {
					var c []string
					for i := 1; i < len(d); i++ {
						if m&(1<<(i-1)) != 0 {
							c = append(c, strconv.Itoa(i))
						}
					}
					for _, k := range []string{"0", "1", "2"} {
						if !emit(d + sep + strings.Join(c, " ") + sep + k + sep) {
							return
						}
					}
				}
			}
		}}
}

// cutSpace: one or two cuts anywhere.
func cutSpace(name string, gen func(func(string) bool), bound string, two bool) eng.Space {
	return eng.Space{Name: name, Bound: bound, NewJudge: readJudge, Enum: func(emit func(string) bool) {
		gen(func(d string) bool {
			for i := 1; i < len(d); i++ {
				if !emit(d + sep + strconv.Itoa(i) + sep + strconv.Itoa(i%3) + sep) {
					return false
				}
				for j := i + 1; two && j < len(d); j++ {
					if !emit(d + sep + strconv.Itoa(i) + " " + strconv.Itoa(j) + sep + "0" + sep) {
						return false
					}
				}
			}
			return true
		})
	}}
}

// faultSpace: a fault at every position.
func faultSpace(name string, gen func(func(string) bool), bound string, kinds int) eng.Space {
	return eng.Space{Name: name, Bound: bound, NewJudge: readJudge, Enum: func(emit func(string) bool) {
		gen(func(d string) bool {
			for pos := 0; pos <= len(d); pos++ {
				for k := range kinds {
					for _, w := range []string{"0", "1", "2"} {
						if !emit(d + sep + strconv.Itoa(pos/2) + sep + w + sep + fmt.Sprintf("%d %d", k, pos)) {
							return false
						}
					}
				}
			}
			return true
		})
	}}
}

func init() {
	wide := []string{"a", " ", "\n", "<p>", "<ul>", "<ol start=9>", "<li>", "<h1>", "<blockquote>", "<hr>", "<br>", "<pre>", "<b>", `<a href="u?x=y z">`, "<code>", "<table>", "<td>", `<img src="i" alt="é">`, "<script>s</script>", "<!--c-->", "&amp;", "*", "_", "1.", "é", "😀", "\uFEFF", "\r", "\x00", "\xff", "\uF002", "\a", "<", "</>"}
	docs := []string{"a", "é", "<b>a</b>b", "<p>é<p>*b*", "<i>é</i>&lt;c", "a\r\nb<br>\r\n", "<!--x-->a&#9;", "<li>a<li>b", "\uFEFFa<hr>b", "<pre>\r\n a", "<a href=é>b", "<h1>a</h1>b", "\xffa\x00b&eacute", "<u>😀</u>", "a  \n\n b"}
	small := []string{"a", "<p>", "<b>", "é", "&lt;", "\r\n", "<!--c-->", `<a href="/u">`, "</>"}
	long := func(emit func(string) bool) {
		for _, unit := range []string{"é", "<b>a</b>", "&lt;b ", "<p>a", "\r\n", "😀a"} {
			for pad := 4085; pad <= 4100; pad++ {
				d := strings.Repeat("x", pad) + unit + "y" + unit
				for _, cut := range []string{"", "4096", "4095 4097", strconv.Itoa(pad), strconv.Itoa(pad + 1)} {
					for _, k := range []string{"0", "1", "2"} {
						if !emit(d + sep + cut + sep + k + sep) {
							return
						}
					}
				}
				for _, pos := range []int{4095, 4096, 4097, len(d)} {
					if pos <= len(d) && !emit(d+sep+sep+"0"+sep+fmt.Sprintf("0 %d", pos)) {
						return
					}
				}
			}
		}
	}
	far := [][]int{{22}, {22, 23}}
	eng.Register(&eng.Check{
		ID: "C11", NewJudge: entryJudge,
		Rule: "equal bytes from all six entry points and for every delivery of the input; the reader's error and no output after a fault",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				TreeSpace("entry-points", wide, t.N(3, 4), []string{"@"}, nil),
				TreeSpaceF("entry-points-nodes", wide, t.N(3, 4), []string{"@"}, nil, nodeJudge),
				TreeSpace("entry-points-shown", W("a <p> <noscript> <iframe> <noframes> <template> <textarea> <select> <svg> <b> <br> <head> </>"), t.N(4, 5), []string{"@", "<p>x</p>@"}, shownJudge),
				splitSpace(docs),
				cutSpace("cuts", Trees(small, t.N(3, 5), []string{"@"}, nil), boundTree(small, t.N(3, 5), nil)+", one or two cuts anywhere", true),
				faultSpace("faults", Trees(small, t.N(3, 4), []string{"@"}, nil), boundTree(small, t.N(3, 4), nil)+", a fault at every position", len(faults)),
				{Name: "buffer-edges", Bound: "documents of about 4096 bytes, cut or failing around the size of the parser's buffer", NewJudge: readJudge, Enum: long},
				SizeList("huge", W("<p>word␠é</p> x <li>a <!--comment--><b>a</b>␠"), t.N(16, 20), far[t.N(0, 1)], hugeJudge),
			}
		},
	})
}

// SizeList: every unit, up to one byte around every power of two between 2^12
// and 2^top, and around the usual decimal limits.
func SizeList(name string, units []string, top int, far []int, nj func() eng.Judge) eng.Space {
	var sizes []int
	for e := 12; e <= top; e++ {
		sizes = append(sizes, 1<<e-1, 1<<e, 1<<e+1)
	}
	for e := 10000; e <= 1<<top; e *= 10 {
		sizes = append(sizes, e, e+1)
	}
	for _, e := range far {
		sizes = append(sizes, 1<<e+64)
	}
	return eng.Space{Name: name, Bound: fmt.Sprintf("every one of %q repeated up to 2^k-1, 2^k and 2^k+1 bytes, k from 12 to %d, up to 10^k and 10^k+1 bytes in that range, and up to 2^k+64 bytes for k of %v", units, top, far), NewJudge: nj,
		Enum: func(emit func(string) bool) {
			for _, u := range units {
				for _, n := range sizes {
					if !emit(u + sep + strconv.Itoa(n)) {
						return
					}
				}
			}
		}}
}

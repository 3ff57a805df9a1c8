package props

import (
	"strings"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"golang.org/x/net/html"
)

// addr is an address in the five components of RFC 3986.
type addr struct {
	scheme, auth, path, query, frag string
	hasAuth, hasQuery, hasFrag      bool
}

// splitAddr is appendix B of RFC 3986.
func splitAddr(s string) addr {
	var a addr
	if i := strings.IndexByte(s, '#'); i >= 0 {
		a.frag, a.hasFrag, s = s[i+1:], true, s[:i]
	}
	if i := strings.IndexByte(s, '?'); i >= 0 {
		a.query, a.hasQuery, s = s[i+1:], true, s[:i]
	}
	if i := strings.IndexAny(s, ":/"); i > 0 && s[i] == ':' && isScheme(s[:i]) {
		a.scheme, s = strings.ToLower(s[:i]), s[i+1:]
	}
	if strings.HasPrefix(s, "//") {
		a.hasAuth = true
		s = s[2:]
		i := strings.IndexByte(s, '/')
		if i < 0 {
			i = len(s)
		}
		a.auth, s = s[:i], s[i:]
	}
	a.path = s
	return a
}

func isScheme(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		alpha := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !alpha && (i == 0 || !(c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.')) {
			return false
		}
	}
	return s != ""
}

// removeDots is section 5.2.4 of RFC 3986.
func removeDots(in string) string {
	out := ""
	pop := func() {
		if i := strings.LastIndexByte(out, '/'); i >= 0 {
			out = out[:i]
		} else {
			out = ""
		}
	}
	for in != "" {
		switch {
		case strings.HasPrefix(in, "../"):
			in = in[3:]
		case strings.HasPrefix(in, "./"):
			in = in[2:]
		case strings.HasPrefix(in, "/./"):
			in = in[2:]
		case in == "/.":
			in = "/"
		case strings.HasPrefix(in, "/../"):
			in = in[3:]
			pop()
		case in == "/..":
			in = "/"
			pop()
		case in == "." || in == "..":
			in = ""
		default:
			i := strings.IndexByte(in[1:], '/')
			if i < 0 {
				out, in = out+in, ""
			} else {
				out, in = out+in[:i+1], in[i+1:]
			}
		}
	}
	return out
}

// resolve is section 5.2.2 of RFC 3986.
func resolve(b, r addr) addr {
	var t addr
	switch {
	case r.scheme != "":
		t = r
		if r.hasAuth || strings.HasPrefix(r.path, "/") {
			t.path = removeDots(r.path)
		}
	case r.hasAuth:
		t = r
		t.scheme = b.scheme
		t.path = removeDots(r.path)
	default:
		if r.path == "" {
			t.path = b.path
			if r.hasQuery {
				t.query, t.hasQuery = r.query, true
			} else {
				t.query, t.hasQuery = b.query, b.hasQuery
			}
		} else {
			if strings.HasPrefix(r.path, "/") {
				t.path = removeDots(r.path)
			} else {
				m := r.path
				if b.hasAuth && b.path == "" {
					m = "/" + r.path
				} else if i := strings.LastIndexByte(b.path, '/'); i >= 0 {
					m = b.path[:i+1] + r.path
				}
				t.path = removeDots(m)
			}
			t.query, t.hasQuery = r.query, r.hasQuery
		}
		t.auth, t.hasAuth = b.auth, b.hasAuth
		t.scheme = b.scheme
	}
	t.frag, t.hasFrag = r.frag, r.hasFrag
	return t
}

// same address: components with their escapes decoded; "+" is a space in a
// query; an empty fragment or query and an empty path after a host are the
// same as none.
func (a addr) norm() string {
	p := a.path
	if a.hasAuth {
		if p = removeDots(p); p == "" {
			p = "/"
		}
	}
	segs := strings.Split(p, "/")
	for i := range segs {
		segs[i] = pctDecode(segs[i])
	}
	if a.scheme == "data" {
		// There is no query in it, a question mark is part of the data.
		q := pctDecode(a.query)
		if a.hasQuery {
			q = "?" + q
		}
		return a.scheme + "\x02" + pctDecode(a.path) + q + "\x02" + pctDecode(a.frag)
	}
	var qs []string
	for _, part := range strings.Split(strings.ReplaceAll(a.query, "+", " "), "&") {
		k, v, _ := strings.Cut(part, "=")
		qs = append(qs, pctDecode(k)+"\x01"+pctDecode(v))
	}
	return a.scheme + "\x02" + strings.ToLower(pctDecode(a.auth)) + "\x02" + strings.Join(segs, "\x03") + "\x02" + strings.Join(qs, "\x04") + "\x02" + pctDecode(a.frag)
}

// badAddr: not a URI reference even after encoding blanks; such an address is
// only claimed to be kept.
func badAddr(s string) bool {
	a := splitAddr(s)
	for _, c := range []string{a.path, a.frag, a.auth} {
		for i := 0; i < len(c); i++ {
			if c[i] == '%' && (i+2 >= len(c) || !isHex(c[i+1]) || !isHex(c[i+2])) {
				return true
			}
		}
	}
	if a.scheme == "" && !a.hasAuth {
		seg, _, _ := strings.Cut(a.path, "/")
		if strings.Contains(seg, ":") {
			return true
		}
	}
	if a.hasAuth {
		if a.auth == "" {
			return true
		}
		for i := 0; i < len(a.auth); i++ {
			c := a.auth[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == '-' || c >= 0x80) {
				return true
			}
		}
	}
	// An empty segment may turn into a host.
	return strings.Contains(a.path, "//")
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// baseAddr: a domain is an address with a host, or a host (with a path).
func baseAddr(d string) (addr, bool) {
	a := splitAddr(d)
	if a.hasAuth && a.auth != "" {
		return a, true
	}
	if d == "" || a.hasAuth {
		return a, false
	}
	a = splitAddr("http://" + d)
	h, port, _ := strings.Cut(a.auth, ":")
	return a, h != "" && strings.Trim(port, "0123456789") == ""
}

const sep = "\x1f"

func judgeAddr() eng.Judge {
	cv := newConv(Conf{})
	gm := newGM()
	return func(state string) *eng.Fail {
		domain, in, _ := strings.Cut(state, sep)
		ref, attr := refOf(in)
		md, err := convert(cv, in, converter.WithDomain(domain))
		if err != nil {
			return &eng.Fail{What: "error: " + err.Error()}
		}
		back := strings.TrimSpace(render(gm, md))
		got, ok := "", false
		if attr == "href" {
			got, ok = cutAround(back, `<p><a href="`, `">x</a></p>`)
		} else {
			got, ok = cutAround(back, `<p><img src="`, `" alt="x"></p>`)
		}
		ref = strings.TrimSpace(ref)
		if ref == "" && attr == "src" {
			if md != "" {
				return &eng.Fail{What: "an image without an address", Output: md}
			}
			return nil
		}
		if md == "" && attr == "src" && badAddr(ref) {
			return nil
		}
		if !ok {
			return &eng.Fail{What: "the destination is not well formed", Got: back, Output: md}
		}
		got = html.UnescapeString(got)
		r := splitAddr(ref)
		if ref == "#" { // the top of the page the reader is on
			if got != "#" {
				return &eng.Fail{What: "different address", Expected: "#", Got: got, Output: md}
			}
			return nil
		}
		bad := badAddr(ref)
		if b, isBase := baseAddr(domain); isBase && !bad && r.scheme != "data" {
			r = resolve(b, r)
		}
		g := splitAddr(got)
		if bad {
			return nil // well formed is all that is claimed
		}
		if r.norm() != g.norm() {
			return &eng.Fail{What: "different address", Expected: r.norm(), Got: g.norm(), Output: md}
		}
		return nil
	}
}

func cutAround(s, pre, suf string) (string, bool) {
	if len(s) < len(pre)+len(suf) || !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, suf) {
		return "", false
	}
	s = s[len(pre) : len(s)-len(suf)]
	return s, !strings.Contains(s, `"`)
}

// refOf reads the address out of the one link or image of the input.
func refOf(in string) (string, string) {
	doc, _ := html.Parse(strings.NewReader(in))
	var ref, at string
	var f func(*html.Node)
	f = func(n *html.Node) {
		for _, a := range n.Attr {
			if a.Key == "href" || a.Key == "src" {
				ref, at = a.Val, a.Key
			}
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			f(c)
		}
	}
	f(doc)
	return ref, at
}

func init() {
	link, img := `<p><a href="@">x</a></p>`, `<p><img src="@" alt="x"></p>`
	few := []string{"", "d.io", "https://d.io/p/q?k=v"}
	many := []string{"http://d.io", "http://d.io/", "d.io/p", "d.io/p/", "https://d.io/p/q/", "//d.io/p", "localhost:80", "d.io:80/p", "http://d.io?k=v", "http://d.io/p/../q/./r", "https://d.io/%20p/é q", "mailto:m", "?", "/p", "http://u:8/p/q", "HTTP://D.io/P"}
	wr := func(bases []string, docs ...string) []string {
		var l []string
		for _, b := range bases {
			for _, d := range docs {
				l = append(l, b+sep+d)
			}
		}
		return l
	}
	tok := W("a / .. . ? # : //h.io %20 ␠ é & = http: https:// mailto: @ ( [ \\ ; + %2F")
	small := W("a / .. . ? # = & b")
	var forms []string
	for _, s := range W("http https HTTP hTTps ftp file mailto MAILTO tel sms data javascript about blob ws x+y.z-1 urn git 1a é") {
		for _, r := range W("://h.io/a ://H.io ://h.io:80/A?B#C ://u:p@h.io/a ://[::1]/a ://[::1]:80/a ://127.0.0.1/a ://é.io/a ://h.io/À%2Fà ://h.io/a%2Fb/../c ://h.io/%C3%80?%26 ://h.io?a ://h.io#a :a :/a :a@b.c?subject=d&amp;body=e%20f :+1(2)3 :image/png;base64,AA== :void(0) :// : ://h.io/a//b ://h.io/./a/.. ://h.io/~a/*b*_c_ ://h_i.o/a :///a") {
			forms = append(forms, s+r)
		}
	}
	forms = append(forms, W("À /À /À%2Fb À%2F?À /à%2Fb?À#À /a%2Fb%2fc /%E4 /%ff%00 /a?b=%26&amp;c=%3D#%23 ?%C3%80 #%C3%80 /%2E%2E/a /a/%2e/b /a:b a:b/c ./a:b /a//b // /// //h //h?a //h#a //u@h:1/a .. ../ ../.. ../../a ./ . ?a?b #a#b ?#a ?a# /?# a?b/../c#d/../e %41 /%7Ea~ /a;b;c=d /a,b /a@b /a$b /!a /'a' /(a) /*a* /a+b?c+d /a|b /a^b /{a} /[a] /a\b \\h\a /日本/語?日=本#語 /😀 /a&amp;amp;b /a&amp;copy=b ␠/a␠ /a␠b &#9;/a&#10;b /a&#13;b &nbsp;/a /\u00a0a /a%0Ab /a%5Bb%5D /a%28b%29 /a%3Cb%3E /%25 /%2525 /%252F")...)
	enc := W("a ␠ ( ) [ ] &lt; &gt; \\ &quot; ' * _ ` ~ | % %2 %20 %25 %2f + ; & = &amp;copy; &amp;#42; ! $ , @ &#9; &#10; &#13; &#12; &#1; &#127; é &nbsp; ^ { }")
	eng.Register(&eng.Check{
		ID: "C06", NewJudge: judgeAddr,
		Rule: "the destination after CommonMark parsing is the address RFC 3986 section 5 gives (components compared with their escapes decoded)",
		Spaces: func(t eng.Tier) []eng.Space {
			return []eng.Space{
				StrSpace("refs", tok, t.N(3, 4), wr(few, link), nil),
				SizeSpace("sizes", wr(append(few, "d.io/p/../q"), inEach([]string{link, img}, sizeRefs)...), t.N(2100, 9000), nil),
				StrSpace("forms", forms, 1, wr(append(append([]string{}, few...), many...), link, img), nil),
				StrSpace("refs-img", tok, t.N(2, 3), wr(few, img), nil),
				StrSpace("paths", small, t.N(5, 6), wr([]string{"d.io", "https://d.io/p/q?k=v"}, link), nil),
				StrSpace("bases", small, t.N(3, 4), wr(many, link, img), nil),
				StrSpace("bases-refs", tok, t.N(2, 3), wr(many, link), nil),
				StrSpace("long-queries", W("a=1 b c= &amp; d=%26 =e +"), t.N(5, 6), wr(few[:2], `<p><a href="/p?a=1&amp;b=2&amp;@&amp;c=3&amp;d=4#f">x</a></p>`), nil),
				StrSpace("encoding", enc, t.N(2, 3), wr([]string{"", "d.io/p"}, `<p><a href="@">x</a></p>`, `<p><a href="/p@q">x</a></p>`, `<p><a href="/p?q@=r">x</a></p>`, `<p><a href="/p#q@">x</a></p>`, `<p><a href="http://h.io/@">x</a></p>`, `<p><a href="mailto:a@">x</a></p>`, `<p><a href="data:,@">x</a></p>`, `<p><a href="data:,?@">x</a></p>`, `<p><a href="DaTA:,?q@">x</a></p>`, `<p><img src="/p@q" alt="x"></p>`), nil),
			}
		},
	})
}

package props

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
)

// The state is a file system and a history of events, joined by sep:
//
//	run INPUT > OUTPUT [!]   an invocation (! = --output-overwrite)
//	new FILE                 somebody (over)writes a file
//	bad FILE                 somebody writes a file that cannot be converted
//	del FILE                 somebody deletes a file
//	dir PATH                 somebody makes a folder
//	lnk PATH                 somebody makes a dangling symbolic link
//
// INPUT "-" is the standard input, "file+-" a file while the standard input
// is a pipe too. OUTPUT "-" is the standard output.

func hash10(rel string) string {
	return fmt.Sprintf("%x", sha256.Sum256([]byte(rel)))[:10]
}

// fileSystems are the arrangements the histories start with: files, and
// folders (with a slash at the end).
var fileSystems = map[string][]string{
	"one":     {"src/a.html"},
	"dup":     {"src/a.html", "src/b.html", "src/b/a.html", "src/sub/a.html"},
	"ext":     {"src/a", "src/a.htm", "src/a.html", "src/.html", "src/a.b.html"},
	"hash":    {"src/a.html", "src/sub/a.html", "src/a." + hash10("sub/a.html") + ".html"},
	"hash2":   {"src/a.html", "src/b/a.html", "src/z/a." + hash10("b/a.html") + ".html"},
	"pre":     {"src/a.html", "src/b.html", "out/a.md", "out/c.md", "out.md", "file.txt"},
	"dirs":    {"src/a.html", "src/b.html", "out.md/", "out/a.md/", "out/sub/keep.md"},
	"mixed":   {"src/a.html", "src/a.md", "src/sub/a.html", "src/sub/a.md"},
	"nothing": {"src/"},
	"names":   {"src/a b.html", "src/ü.html", "src/-x.html", "src/a.HTML", "src/[a].html", "src/*.html", "src/a.", "src/..a", "src/--output"},
	"many":    {"src/a.html", "src/a.htm", "src/b/a.html", "src/b/c/a.html", "src/c/a.html", "src/c/b/a.html"},
}

type cliInput struct {
	match func(p string) bool
	dir   string
}

func in(dir string, deep bool, ok func(base string) bool) func(string) bool {
	return func(p string) bool {
		d, b := path.Split(p)
		d = strings.TrimSuffix(d, "/")
		return (d == dir || deep && strings.HasPrefix(d, dir+"/")) && ok(b)
	}
}

func has(suffix string) func(string) bool {
	return func(b string) bool { return strings.HasSuffix(b, suffix) }
}

// cliInputs says which files an input pattern means.
var cliInputs = map[string]func(p string) bool{
	"src/a.html":     func(p string) bool { return p == "src/a.html" },
	"src/sub/a.html": func(p string) bool { return p == "src/sub/a.html" },
	"./src//a.html":  func(p string) bool { return p == "src/a.html" },
	"src/*.html":     in("src", false, has(".html")),
	"src/*":          in("src", false, has("")),
	"src/**/*.html":  in("src", true, has(".html")),
	"src/**":         in("src", true, has("")),
	"src/{a,b}.html": func(p string) bool { return p == "src/a.html" || p == "src/b.html" },
	"src/[ab].html":  func(p string) bool { return p == "src/a.html" || p == "src/b.html" },
	"src/?.html":     in("src", false, func(b string) bool { return utf8.RuneCountInString(b) == 6 && has(".html")(b) }),
	"{src,src/*}/a.html": func(p string) bool {
		return strings.HasPrefix(p, "src/") && strings.HasSuffix(p, "/a.html") && strings.Count(p, "/") < 3
	},
	"src":         func(p string) bool { return false },
	"src/":        func(p string) bool { return false },
	"nope/*.html": func(p string) bool { return false },
	"nope.html":   func(p string) bool { return false },
}

const stdinHTML = "<p>from <b>stdin</b></p>"

func fsContent(p, by string) string {
	return "<p><b>" + strings.ReplaceAll(p, "_", "") + "</b> " + by + "</p>"
}

type snapshot map[string]string // path -> content; folders end with /

func snap(root string) snapshot {
	s := snapshot{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(root, p)
		rel = filepath.ToSlash(rel)
		switch {
		case rel == ".":
		case d.IsDir():
			s[rel+"/"] = ""
		case d.Type()&fs.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s[rel] = "\x00link " + t
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			s[rel] = string(b)
		}
		return nil
	})
	return s
}

func (s snapshot) isDir(p string) bool {
	p = strings.TrimSuffix(path.Clean(p), "/")
	if p == "." {
		return true
	}
	_, ok := s[p+"/"]
	return ok
}

func (s snapshot) exists(p string) bool {
	if s.isDir(p) {
		return true
	}
	_, ok := s[path.Clean(p)]
	return ok
}

// canMkdir: every part of the path is a folder or does not exist yet.
func (s snapshot) canMkdir(p string) bool {
	p = path.Clean(p)
	for p != "." {
		if _, ok := s[p]; ok {
			return false
		}
		p = path.Dir(p)
	}
	return true
}

func stemOf(p string) string {
	b := path.Base(p)
	return strings.TrimSuffix(b, path.Ext(b))
}

// nameFor: may an input with this stem be written to this name?
func nameFor(stem, name string) (ok, plain bool) {
	if name == stem+".md" {
		return true, true
	}
	return strings.HasPrefix(name, stem+".") && strings.HasSuffix(name, ".md") && len(name) > len(stem)+4, false
}

type history struct {
	root  string
	conv  *converter.Converter
	abs   bool
	names map[string]string
}

func (h *history) md(html string) (string, bool) {
	s, err := h.conv.ConvertString(html)
	return s, err == nil
}

// invoke runs the tool once and compares with the specification.
// stdins are the other things that are piped into the tool.
var stdins = map[string]string{"-empty": "", "-blank": " \n", "-line": "\n\n<p>a</p>", "-big": strings.Repeat("<p>word</p>\n", 700)}

func (h *history) invoke(ev string) *eng.Fail {
	overwrite := strings.HasSuffix(ev, " !")
	ev = strings.TrimSuffix(ev, " !")
	inp, outp, _ := strings.Cut(ev, " > ")
	pre := snap(h.root)

	must := "" // reason for a refusal
	may := false
	// what the run has to do
	type job struct{ name, md string }
	var jobs []job
	pipe := inp == "-" || strings.HasSuffix(inp, "+-")
	inp = strings.TrimSuffix(inp, "+-")
	piped := stdinHTML
	if s, ok := stdins[inp]; ok {
		piped, pipe, inp = s, true, "-"
	}
	if inp == "-" {
		md, _ := h.md(piped)
		jobs = []job{{"output", md}}
	} else {
		m := cliInputs[inp]
		for p, c := range pre {
			if !strings.HasSuffix(p, "/") && !strings.HasPrefix(c, "\x00") && m(p) {
				md, ok := h.md(c)
				if !ok {
					must = "the input " + p + " cannot be converted"
				}
				jobs = append(jobs, job{p, md})
			}
		}
	}
	sort.Slice(jobs, func(i, j int) bool { return jobs[i].name < jobs[j].name })
	toDir := strings.HasSuffix(outp, "/")
	switch {
	case must != "":
	case len(jobs) == 0:
		must = "there is no input"
	case len(jobs) > 1 && !toDir:
		must = "several inputs need a folder"
	case outp == "-":
	case toDir:
		if !pre.canMkdir(outp) {
			must = "the output folder cannot exist"
			break
		}
		for p := range pre {
			if path.Dir(strings.TrimSuffix(p, "/")) != path.Clean(outp) {
				continue
			}
			for _, j := range jobs {
				ok, plain := nameFor(stemOf(j.name), path.Base(p))
				if !ok {
					continue
				}
				taken := !overwrite || strings.HasSuffix(p, "/") || strings.HasPrefix(pre[p], "\x00")
				if taken && plain {
					must = "the file " + p + " cannot be replaced"
				} else if taken {
					may = true
				}
			}
		}
	default:
		_, isFile := pre[outp]
		switch {
		case pre.isDir(outp):
			must = "the output is a folder"
		case isFile && !overwrite:
			must = "the output exists already"
		case !pre.canMkdir(path.Dir(outp)):
			must = "the output folder cannot exist"
		}
	}

	// the run
	prefix := ""
	if h.abs {
		prefix = h.root + "/"
	} else {
		prefix = filepath.Base(h.root) + "/"
	}
	var args []string
	if inp != "-" {
		if strings.HasPrefix(inp, "./") && !h.abs {
			prefix = "./" + prefix
		}
		args = append(args, "--input", prefix+inp)
	}
	if outp != "-" {
		args = append(args, "--output", prefix+outp)
	}
	if overwrite {
		args = append(args, "--output-overwrite")
	}
	r := newCLIRun(nil)
	if pipe {
		r = newCLIRun(strings.NewReader(piped))
	}
	r.run(args...)
	post := snap(h.root)
	if c := eng.Current(); c != nil {
		c.Outcome(fmt.Sprint(r.code, r.stdout(), post))
	}

	show := func() string {
		return fmt.Sprintf("exit %d\nstdout: %s\nstderr: %s\nbefore: %s\nafter: %s", r.code, r.stdout(), r.stderr(), pre.text(), post.text())
	}
	fail := func(what string) *eng.Fail {
		return &eng.Fail{What: what, Expected: fmt.Sprintf("inputs %v, refusal: %q", jobs, must), Got: show()}
	}
	// what changed
	changed := map[string]bool{}
	for p, c := range post {
		if o, ok := pre[p]; !ok || o != c {
			if !strings.HasSuffix(p, "/") {
				changed[p] = true
			} else if outp == "-" || !strings.HasPrefix(path.Clean(outp)+"/", p) {
				return fail("the folder " + p + " appeared")
			}
		}
	}
	for p := range pre {
		if _, ok := post[p]; !ok {
			return fail(p + " disappeared")
		}
		if changed[p] && !overwrite {
			return fail(p + " was replaced without --output-overwrite")
		}
	}
	same := func(got, md string) bool { return strings.TrimRight(got, "\n") == strings.TrimRight(md, "\n") }
	if r.code != 0 {
		if must == "" && !may {
			return fail("the tool refused without a reason")
		}
		if r.code != 1 {
			return fail(fmt.Sprintf("the exit status is %d", r.code))
		}
		if strings.TrimSpace(r.stderr()) == "" {
			return fail("the refusal is silent")
		}
		if r.stdout() != "" {
			return fail("a refusal with something on the standard output")
		}
		// what was written before the error is what had to be written
		for p := range changed {
			ok := false
			for _, j := range jobs {
				if toDir && path.Dir(p) == path.Clean(outp) {
					if n, _ := nameFor(stemOf(j.name), path.Base(p)); n && same(post[p], j.md) {
						ok = true
					}
				}
			}
			if !ok {
				return fail(p + " was written by a run that refused")
			}
		}
		return nil
	}
	if must != "" {
		return fail("the tool did not refuse although " + must)
	}
	if r.stderr() != "" {
		return fail("success with a message on the standard error stream")
	}
	if outp == "-" {
		if r.stdout() != jobs[0].md+"\n" {
			return fail("the standard output is not the conversion")
		}
		if len(changed) != 0 {
			return fail("files changed although the output is the standard output")
		}
		return nil
	}
	if r.stdout() != "" {
		return fail("something on the standard output although the output is a file")
	}
	if !toDir {
		if !same(post[outp], jobs[0].md) {
			return fail("the output file is not the conversion of the input")
		}
		delete(changed, path.Clean(outp))
		for p := range changed {
			return fail(p + " is not the output file but changed")
		}
		return nil
	}
	// One file for every input: a perfect matching that uses the plain name
	// of every stem and every changed file.
	var files []string
	for p := range post {
		if !strings.HasSuffix(p, "/") && path.Dir(p) == path.Clean(outp) {
			files = append(files, p)
		}
	}
	sort.Strings(files)
	stems := map[string]bool{}
	for _, j := range jobs {
		stems[stemOf(j.name)] = true
	}
	used := map[string]int{}
	var match func(i int) bool
	match = func(i int) bool {
		if i == len(jobs) {
			for s := range stems {
				if _, ok := used[path.Join(outp, s+".md")]; !ok {
					return false
				}
			}
			for p := range changed {
				if _, ok := used[p]; !ok {
					return false
				}
			}
			return true
		}
		for _, f := range files {
			if _, ok := used[f]; ok {
				continue
			}
			if _, isNew := pre[f]; isNew && !overwrite {
				continue
			}
			if ok, _ := nameFor(stemOf(jobs[i].name), path.Base(f)); !ok || !same(post[f], jobs[i].md) {
				continue
			}
			used[f] = i
			if match(i + 1) {
				return true
			}
			delete(used, f)
		}
		return false
	}
	if !match(0) {
		return fail("the files in the output folder are not one conversion for every input")
	}
	// The same inputs are written to the same names every time.
	key := ev
	for _, j := range jobs {
		key += sep + j.name
	}
	var l []string
	for f, i := range used {
		l = append(l, jobs[i].name+"->"+f)
	}
	sort.Strings(l)
	names := strings.Join(l, " ")
	distinct := true
	for i := range jobs {
		for k := range jobs[:i] {
			distinct = distinct && jobs[i].md != jobs[k].md
		}
	}
	if o, ok := h.names[key]; ok && o != names && distinct {
		return &eng.Fail{What: "the same run wrote to other names", Expected: o, Got: names, Output: show()}
	}
	if distinct {
		h.names[key] = names
	}
	return nil
}

func (s snapshot) text() string {
	var l []string
	for p, c := range s {
		l = append(l, fmt.Sprintf("%s=%q", p, c))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

var histories atomic.Int64

func cliHistoryJudge(abs bool) func() eng.Judge {
	return func() eng.Judge {
		base := filepath.Join(eng.Current().Scratch, "cli")
		if err := os.MkdirAll(base, 0o755); err != nil {
			panic(err)
		}
		// files that no run may read
		for _, n := range W("output output.md output.html - stdin input html2markdown") {
			if err := os.WriteFile(filepath.Join(base, n), []byte("<p>not this</p>"), 0o644); err != nil {
				panic(err)
			}
		}
		if !abs {
			if err := os.Chdir(base); err != nil {
				panic(err)
			}
		}
		h := &history{conv: newConv(Conf{}), abs: abs}
		return func(state string) *eng.Fail {
			h.root = filepath.Join(base, fmt.Sprint("h", histories.Add(1)))
			h.names = map[string]string{}
			evs := strings.Split(state, sep)
			defer os.RemoveAll(h.root)
			put := func(p, by string) {
				f := filepath.Join(h.root, p)
				os.MkdirAll(filepath.Dir(f), 0o755)
				// an event that is not possible does not happen
				os.WriteFile(f, []byte(fsContent(p, by)), 0o644)
			}
			os.MkdirAll(h.root, 0o755)
			for _, p := range fileSystems[evs[0]] {
				if strings.HasSuffix(p, "/") {
					os.MkdirAll(filepath.Join(h.root, p), 0o755)
				} else {
					put(p, "first")
				}
			}
			for i, ev := range evs[1:] {
				kind, arg, _ := strings.Cut(ev, " ")
				switch kind {
				case "run":
					if f := h.invoke(arg); f != nil {
						f.What = fmt.Sprintf("event %d (%s): %s", i+1, ev, f.What)
						return f
					}
				case "new":
					put(arg, fmt.Sprint("new", i))
				case "bad":
					// nested too deep for the parser
					put(arg, "bad")
					os.WriteFile(filepath.Join(h.root, arg), []byte(strings.Repeat("<div>", 600)), 0o644)
				case "empty", "blank", "big", "huge", "lines":
					put(arg, kind)
					os.WriteFile(filepath.Join(h.root, arg), []byte(map[string]string{"empty": "", "blank": "<p> </p>\n", "big": strings.Repeat("<p>word</p>\n", 300), "huge": strings.Repeat("<p>word</p>\n", 100_000), "lines": "<pre>\n\na\n\n</pre>"}[kind]), 0o644)
				case "many":
					// many KIND N: many files at once
					how, num, _ := strings.Cut(arg, " ")
					n, _ := strconv.Atoi(num)
					for i := range n {
						switch how {
						case "names":
							put(fmt.Sprintf("src/f%d.html", i), "one of many")
						case "dirs":
							put(fmt.Sprintf("src/d%d/a.html", i), "one of many")
						case "types":
							put(fmt.Sprintf("src/a.x%d", i), "one of many")
						case "deep":
							put("src/"+strings.Repeat("d/", i)+"a.html", "one of many")
						case "long":
							if i+1 == n {
								put("src/"+strings.Repeat("n", n)+".html", "long")
								put("src/sub/"+strings.Repeat("n", n)+".html", "long too")
							}
						case "outputs":
							put(fmt.Sprintf("out/f%d.md", i), "one of many")
						}
					}
				case "del":
					os.Remove(filepath.Join(h.root, arg))
				case "dir":
					os.MkdirAll(filepath.Join(h.root, arg), 0o755)
				case "lnk":
					os.MkdirAll(filepath.Join(h.root, filepath.Dir(arg)), 0o755)
					os.Symlink("target", filepath.Join(h.root, arg))
				}
			}
			return nil
		}
	}
}

func runEvents(ins, outs []string, ow ...string) []string {
	var l []string
	for _, i := range ins {
		for _, o := range outs {
			for _, w := range ow {
				l = append(l, "run "+i+" > "+o+w)
			}
		}
	}
	return l
}

func historySpace(name string, fss, events []string, n int) eng.Space {
	return eng.Space{
		Name:  name,
		Bound: fmt.Sprintf("%d file systems, histories of up to %d of %d events", len(fss), n, len(events)),
		Enum: func(emit func(string) bool) {
			stop := false
			for d := 1; d <= n && !stop; d++ {
				var rec func(s string, left int, ran bool)
				rec = func(s string, left int, ran bool) {
					if stop {
						return
					}
					if left == 0 {
						if ran && !emit(s) {
							stop = true
						}
						return
					}
					for _, e := range events {
						// a history ends with a run
						rec(s+sep+e, left-1, strings.HasPrefix(e, "run"))
					}
				}
				for _, f := range fss {
					rec(f, d, false)
				}
			}
		},
	}
}

// manyFiles: histories with many files.
func manyFiles(max int) eng.Space {
	return eng.Space{Name: "many-files", Bound: fmt.Sprintf("up to %d files of 6 kinds, written once and again", max), Enum: func(emit func(string) bool) {
		for _, n := range sizes(max) {
			for _, how := range W("names dirs types deep long outputs") {
				for _, in := range []string{"src/**", "src/**/*.html"} {
					for _, more := range []string{"", sep + "run " + in + " > out/ !", sep + "new src/f1.html" + sep + "run " + in + " > out/ !", sep + "many outputs 2" + sep + "run " + in + " > out/"} {
						if !emit("one" + sep + fmt.Sprintf("many %s %d", how, n) + sep + "run " + in + " > out/" + more) {
							return
						}
					}
				}
			}
		}
	}}
}

func init() {
	allFS := []string{"one", "dup", "ext", "hash", "hash2", "pre", "dirs", "mixed", "nothing", "names", "many"}
	var allIn []string
	for k := range cliInputs {
		allIn = append(allIn, k)
	}
	sort.Strings(allIn)
	allIn = append([]string{"-", "src/a.html+-"}, allIn...)
	allOut := []string{"-", "out.md", "out/", "out", "deep/er/x.md", "deep/er/", "deep//er/./", "src/", "src/a.html", "src/a.md", "src/sub/", "file.txt/", "file.txt", "file.txt/x.md", "out/../out/", "./"}
	ow := []string{"", " !"}
	env := []string{"new src/a.html", "new src/sub/a.html", "new out/a.md", "new out.md", "new file.txt", "new src/c/b.html", "bad src/a.html", "bad src/z.html", "del src/a.html", "del out/a.md", "del out.md", "dir out.md", "dir out/a.md", "dir out"}
	abs := func(s eng.Space) eng.Space { s.NewJudge = cliHistoryJudge(true); return s }
	eng.Register(&eng.Check{
		ID:       "C20",
		Rule:     "a specification of one run (which files a pattern means, when the tool has to refuse, which file every input has to be written to) is stepped along every history; after every event the whole scratch file system, the streams and the exit status are compared with it",
		NewJudge: cliHistoryJudge(false),
		Assumptions: []string{
			"The tool is run in the process of the check through cmd.Run; the exit function is replaced by a stand-in. Everything happens in a scratch folder.",
			"A refused run may have written the outputs that came before the error. Second and later inputs with the same stem may get any name of the form stem.*.md.",
			"File systems with case insensitive names are not covered.",
		},
		Spaces: func(t eng.Tier) []eng.Space {
			sp := []eng.Space{
				historySpace("runs", allFS, runEvents(allIn, allOut, ow...), 1),
				abs(historySpace("runs-absolute", allFS, runEvents(allIn, allOut, ow...), 1)),
				historySpace("pairs", allFS, append(runEvents([]string{"-", "src/a.html", "src/*.html", "src/**"}, []string{"-", "out.md", "out/", "out", "src/"}, ow...), env...), 2),
				historySpace("triples", []string{"one", "dup", "mixed", "hash"}, append(runEvents([]string{"src/a.html", "src/**"}, []string{"out/", "out"}, ow...), "run src/**/*.html > src/ !", "new src/a.html", "new src/sub/a.html", "new out/a.md", "del src/a.html"), 3),
				historySpace("contents", []string{"one", "dup", "pre"}, append(runEvents([]string{"-", "src/a.html", "src/*.html"}, []string{"-", "out/", "out.md", "out/a.md"}, ow...), "empty src/a.html", "blank src/a.html", "big src/a.html", "lines src/a.html", "empty out/a.md", "big out/a.md", "big out.md", "empty out.md", "blank src/z.html"), t.N(2, 3)),
				historySpace("contents-huge", []string{"one", "pre"}, append(runEvents([]string{"-", "src/a.html", "src/*.html"}, []string{"out/", "out.md", "out/a.md"}, ow...), "huge src/a.html", "huge out/a.md", "huge out.md", "huge out/output.md"), 2),
				manyFiles(t.N(34, 130)),
				historySpace("piped", []string{"one", "pre", "dirs"}, append(runEvents([]string{"-empty", "-blank", "-line", "-big", "-", "src/a.html"}, []string{"-", "out/", "out.md", "file.txt"}, ow...), "new out/output.md", "dir out/output.md"), 2),
				historySpace("links", []string{"one", "dup"}, append(runEvents([]string{"-", "src/a.html", "src/*.html"}, []string{"out/", "out/a.md", "out.md"}, ""), "lnk out/a.md", "lnk out.md", "lnk out/b.md", "lnk out/output.md"), 2),
			}
			if t.Thorough {
				sp = append(sp,
					historySpace("pairs-wide", allFS, append(runEvents(allIn, allOut, ow...), env...), 2),
					historySpace("triples-wide", allFS, append(runEvents([]string{"-", "src/a.html", "src/*.html", "src/**"}, []string{"out.md", "out/", "out", "src/"}, ow...), env...), 3),
					abs(historySpace("quads", []string{"one", "dup", "mixed", "hash"}, append(runEvents([]string{"src/a.html", "src/**"}, []string{"out/", "out"}, ow...), "run src/**/*.html > src/ !", "new src/a.html", "new out/a.md", "del src/a.html"), 4)),
				)
			}
			return sp
		},
	})
}

package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"vmc/eng"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
)

var faultDocs = []string{
	"<p>a *b* ä€ <b>c</b></p>",
	"<h1>x</h1><table><tr><td>y</td></tr></table>",
	"<ul><li>1</li><li>2<p>3</p></li></ul>\n",
	strings.Repeat("<p>0123456789 <i>abcdefghij</i></p>\n", 1200),
	"",
	"x",
	"<b>ü",
}

// chunks delivers the text in pieces and ends with the error. With joined the
// error comes together with the last piece, with empty there are reads that
// deliver nothing.
type chunks struct {
	pieces        []string
	end           error
	joined, empty bool
	n             int
}

func (c *chunks) Read(p []byte) (int, error) {
	if c.empty && len(p) > 0 {
		c.n++
		if c.n%2 == 1 {
			return 0, nil
		}
	}
	if len(c.pieces) == 0 {
		return 0, c.end
	}
	n := copy(p, c.pieces[0])
	c.pieces[0] = c.pieces[0][n:]
	if c.pieces[0] == "" {
		c.pieces = c.pieces[1:]
	}
	if c.joined && len(c.pieces) == 0 {
		return n, c.end
	}
	return n, nil
}

// faultErrors: what a stream of the operating system or of another program may
// fail with; none of them means that the work is done.
var faultErrors = []error{
	errInjected,
	io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress,
	os.ErrClosed, os.ErrDeadlineExceeded, os.ErrPermission, os.ErrNotExist, os.ErrExist, os.ErrInvalid,
	context.Canceled, context.DeadlineExceeded,
	syscall.EPIPE, syscall.EIO, syscall.ENOSPC, syscall.EAGAIN, syscall.EINTR, syscall.EBADF, syscall.ECONNRESET, syscall.EISDIR, syscall.EDQUOT, syscall.ETIMEDOUT, syscall.EINVAL,
	&os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EPIPE},
	&os.PathError{Op: "read", Path: "/dev/stdin", Err: syscall.EIO},
	&os.PathError{Op: "read", Path: "/dev/stdin", Err: os.ErrClosed},
	fmt.Errorf("wrapped: %w", io.EOF), errors.New("EOF"), errors.New(""),
}

var faultArgs = [][]string{
	{},
	{"--output", "out/x.md"},
	{"--output", "out/", "--plugin-table"},
	{"--output", "old.md", "--output-overwrite"},
	{"--plugin-table", "--plugin-strikethrough", "--include-selector", "p,table,ul,b", "--exclude-selector", "i"},
}

type faultBox struct {
	base string
	n    int
	id   int
	conv *converter.Converter
}

var faultWorkers sync.Mutex
var faultCount int

func newFaults() *faultBox {
	faultWorkers.Lock()
	faultCount++
	f := &faultBox{id: faultCount}
	faultWorkers.Unlock()
	f.base = filepath.Join(eng.Current().Scratch, fmt.Sprint("faults", f.id))
	f.conv = newConv(Conf{})
	return f
}

// fresh makes an empty folder.
func (f *faultBox) fresh() string {
	f.n++
	d := filepath.Join(f.base, fmt.Sprint(f.n))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func at(dir string, args []string) []string {
	o := append([]string{}, args...)
	for i := range o {
		if i > 0 && (o[i-1] == "--output" || o[i-1] == "--input") {
			// the slash at the end has to stay
			o[i] = dir + "/" + o[i]
		}
	}
	return o
}

func (r cliRun) text() string {
	return fmt.Sprintf("exit %d\nstdout: %q\nstderr: %q", r.code, clipText(r.stdout(), 400), clipText(r.stderr(), 400))
}

func (r cliRun) reported(what string) *eng.Fail {
	if c := eng.Current(); c != nil {
		c.Outcome(fmt.Sprint(r.code, r.stdout()))
	}
	switch {
	case r.code != 1:
		return &eng.Fail{What: what + ": the exit status says success", Got: r.text()}
	case strings.TrimSpace(r.stderr()) == "" && !r.err.failed:
		return &eng.Fail{What: what + ": there is no message", Got: r.text()}
	}
	return nil
}

// the states: "KIND number number ...", see the comments.
func faultJudge() eng.Judge {
	f := newFaults()
	var once sync.Once
	whole := map[string]string{}
	return func(state string) (fail *eng.Fail) {
		w := strings.Fields(state)
		num := func(i int) int { n, _ := strconv.Atoi(w[i]); return n }
		dir := ""
		defer func() {
			if dir != "" {
				os.RemoveAll(dir)
			}
		}()
		result := func(args []string, stdin io.Reader) (cliRun, string) {
			if dir != "" {
				os.RemoveAll(dir)
			}
			if len(args) == 0 {
				r := newCLIRun(stdin)
				r.run()
				return r, ""
			}
			dir = f.fresh()
			os.WriteFile(filepath.Join(dir, "old.md"), []byte("old"), 0o644)
			r := newCLIRun(stdin)
			r.run(at(dir, args)...)
			return r, snap(dir).text()
		}
		switch w[0] {
		case "read": // document, arguments, position, way
			doc, args, k, way := faultDocs[num(1)], faultArgs[num(2)], num(3), w[4]
			c := &chunks{end: errInjected}
			if k > 0 {
				c.pieces = []string{doc[:k]}
			}
			switch way {
			case "bytes":
				c.pieces = strings.Split(doc[:k], "")
			case "joined":
				c.joined = true
			case "empty":
				c.empty = true
			case "short":
				c.end = io.ErrUnexpectedEOF
			case "kind":
				c.end = faultErrors[num(5)]
			}
			r, files := result(args, c)
			if x := r.reported("reading failed"); x != nil {
				return x
			}
			if r.stdout() != "" || len(args) > 0 && (files != (snapshot{"old.md": "old"}).text() && strings.Contains(strings.ReplaceAll(files, "old.md", ""), ".md") || !strings.Contains(files, `old.md="old"`)) {
				return &eng.Fail{What: "reading failed but there is output", Got: r.text() + files}
			}
		case "split": // document, arguments, where to cut (a bit per byte), way
			doc, args, cut, way := faultDocs[num(1)], faultArgs[num(2)], num(3), w[4]
			key := w[1] + " " + w[2]
			if _, ok := whole[key]; !ok {
				r, files := result(args, strings.NewReader(doc))
				if r.code != 0 {
					return &eng.Fail{What: "no conversion", Got: r.text()}
				}
				whole[key] = r.text() + files
			}
			c := &chunks{end: io.EOF, joined: way == "joined", empty: way == "empty"}
			last := 0
			for i := 1; i < len(doc); i++ {
				if cut&(1<<(i-1)) != 0 {
					c.pieces = append(c.pieces, doc[last:i])
					last = i
				}
			}
			if last < len(doc) {
				c.pieces = append(c.pieces, doc[last:])
			}
			r, files := result(args, c)
			if r.text()+files != whole[key] {
				return &eng.Fail{What: "the way the input arrives makes a difference", Expected: whole[key], Got: r.text() + files}
			}
		case "cut": // document, piece size
			doc, n := faultDocs[num(1)], num(2)
			c := &chunks{end: io.EOF}
			for s := doc; s != ""; {
				k := min(n, len(s))
				c.pieces = append(c.pieces, s[:k])
				s = s[k:]
			}
			a, _ := result(nil, strings.NewReader(doc))
			b, _ := result(nil, c)
			if a.text() != b.text() || a.stdout() != b.stdout() || a.code != 0 {
				return &eng.Fail{What: "the way the input arrives makes a difference", Expected: a.text(), Got: b.text()}
			}
		case "write": // document, arguments, room on the standard output, way
			doc, args, room, way := faultDocs[num(1)], faultArgs[num(2)], num(3), w[4]
			full, _ := result(args, strings.NewReader(doc))
			if full.code != 0 {
				return &eng.Fail{What: "no conversion", Got: full.text()}
			}
			r := newCLIRun(strings.NewReader(doc))
			fault := errInjected
			if way == "kind" {
				fault = faultErrors[num(5)]
			}
			r.out.write = func(n, already int) (int, error) {
				if already+n <= room && (way != "once" || !r.out.failed) {
					return n, nil
				}
				if way == "whole" || r.out.failed {
					return 0, fault
				}
				return max(0, room-already), fault
			}
			r.run(at(dir, args)...)
			if room >= len(full.stdout()) {
				if r.code != 0 || r.stdout() != full.stdout() {
					return &eng.Fail{What: "there was room", Expected: full.text(), Got: r.text()}
				}
				return nil
			}
			if x := r.reported("writing to the standard output failed"); x != nil {
				return x
			}
			if !strings.HasPrefix(full.stdout(), r.stdout()) {
				return &eng.Fail{What: "something else was written", Expected: full.text(), Got: r.text()}
			}
		case "mute": // scenario, room on the standard error stream
			room := num(2)
			var stdin io.Reader = strings.NewReader("<p>a</p>")
			var args []string
			outFails := false
			switch w[1] {
			case "flag":
				args = []string{"--unknown"}
			case "input":
				args = []string{"--input", "nope"}
			case "read":
				stdin = &chunks{end: errInjected}
			case "exists":
				args = []string{"--output", "old.md"}
			case "write":
				outFails = true
			case "tty":
				stdin = nil
			}
			dir = f.fresh()
			os.WriteFile(filepath.Join(dir, "old.md"), []byte("old"), 0o644)
			r := newCLIRun(stdin)
			r.err.write = func(n, already int) (int, error) {
				if already+n <= room {
					return n, nil
				}
				return max(0, room-already), errInjected
			}
			if outFails {
				r.out.write = func(n, already int) (int, error) { return 0, errInjected }
			}
			r.run(at(dir, args)...)
			return r.reported("an error that cannot be shown completely")
		case "full": // inputs, bits of the outputs without room, output kind
			n, bits := num(1), num(2)
			dir = f.fresh()
			os.Mkdir(filepath.Join(dir, "src"), 0o755)
			os.Mkdir(filepath.Join(dir, "out"), 0o755)
			for i := 0; i < n; i++ {
				os.WriteFile(filepath.Join(dir, "src", fmt.Sprintf("%d.html", i)), []byte(fmt.Sprintf("<p>text *%d*</p>", i)), 0o644)
				if bits&(1<<i) != 0 {
					os.Symlink("/dev/full", filepath.Join(dir, "out", fmt.Sprintf("%d.md", i)))
				}
			}
			args := []string{"--input", "src/*.html", "--output", "out/", "--output-overwrite"}
			if w[3] == "file" {
				args[3] = "out/0.md"
			}
			r := newCLIRun(nil)
			r.run(at(dir, args)...)
			if bits != 0 {
				if x := r.reported("an output file could not be written"); x != nil {
					return x
				}
			} else if r.code != 0 {
				return &eng.Fail{What: "no conversion", Got: r.text()}
			}
			for i := 0; i < n; i++ {
				if bits&(1<<i) != 0 {
					continue
				}
				b, err := os.ReadFile(filepath.Join(dir, "out", fmt.Sprintf("%d.md", i)))
				if bits != 0 && err != nil {
					continue
				}
				want, _ := f.conv.ConvertString(fmt.Sprintf("<p>text *%d*</p>", i))
				if string(b) != want {
					return &eng.Fail{What: "an output is not complete", Got: string(b)}
				}
			}
		case "unreadable": // inputs, bits of the inputs that cannot be read, output
			n, bits := num(1), num(2)
			dir = f.fresh()
			os.Mkdir(filepath.Join(dir, "src"), 0o755)
			for i := 0; i < n; i++ {
				p := filepath.Join(dir, "src", fmt.Sprintf("%d.html", i))
				if bits&(1<<i) != 0 {
					os.Symlink("/proc/self/mem", p)
				} else {
					os.WriteFile(p, []byte(fmt.Sprintf("<p>text *%d*</p>", i)), 0o644)
				}
			}
			args := []string{"--input", "src/*.html"}
			if n == 1 {
				args[1] = "src/0.html"
			}
			switch w[3] {
			case "dir":
				args = append(args, "--output", "out/")
			case "file":
				args = append(args, "--output", "out/0.md")
			}
			r := newCLIRun(nil)
			r.run(at(dir, args)...)
			if bits != 0 {
				if x := r.reported("an input could not be read"); x != nil {
					return x
				}
				for i := 0; i < n; i++ {
					if _, err := os.Stat(filepath.Join(dir, "out", fmt.Sprintf("%d.md", i))); err == nil && bits&(1<<i) != 0 {
						return &eng.Fail{What: "an output for an input that could not be read", Got: r.text()}
					}
				}
			} else if r.code != 0 {
				return &eng.Fail{What: "no conversion", Got: r.text()}
			}
		case "path": // an output path that is not possible
			dir = f.fresh()
			os.WriteFile(filepath.Join(dir, "file"), []byte("old"), 0o644)
			os.Symlink("loop", filepath.Join(dir, "loop"))
			os.Symlink("nowhere/x", filepath.Join(dir, "dangling"))
			args := []string{"--output", strings.ReplaceAll(w[1], "LONG", strings.Repeat("x", 300))}
			if w[2] == "overwrite" {
				args = append(args, "--output-overwrite")
			}
			r := newCLIRun(strings.NewReader("<p>a</p>"))
			r.run(at(dir, args)...)
			if x := r.reported("the output path is not possible"); x != nil {
				return x
			}
			if b, _ := os.ReadFile(filepath.Join(dir, "file")); string(b) != "old" || r.stdout() != "" {
				return &eng.Fail{What: "something was written", Got: r.text()}
			}
		case "torn": // document, arguments, room in every file
			doc, args, room := faultDocs[num(1)], faultArgs[num(2)], num(3)
			once.Do(func() { signal.Ignore(syscall.SIGXFSZ) })
			full, files := result(args, strings.NewReader(doc))
			if full.code != 0 {
				return &eng.Fail{What: "no conversion", Got: full.text()}
			}
			size := 0
			for p, c := range snap(dir) {
				if strings.HasSuffix(p, ".md") && c != "old" {
					size = len(c)
				}
			}
			os.RemoveAll(dir)
			dir = f.fresh()
			os.WriteFile(filepath.Join(dir, "old.md"), []byte("old"), 0o644)
			r := newCLIRun(strings.NewReader(doc))
			limit(room, func() { r.run(at(dir, args)...) })
			if room >= size {
				if r.code != 0 || snap(dir).text() != files {
					return &eng.Fail{What: "there was room", Expected: files, Got: r.text() + snap(dir).text()}
				}
				return nil
			}
			return r.reported("an output file was truncated")
		case "process": // document, streams
			return processRun(faultDocs[num(1)], w[2:], f)
		}
		return nil
	}
}

// limit makes every write beyond the first n bytes of a file fail.
func limit(n int, do func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	set := func(l syscall.Rlimit) {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
			panic(err)
		}
	}
	set(syscall.Rlimit{Cur: uint64(n), Max: old.Max})
	defer set(old)
	do()
}

var (
	binOnce sync.Once
	binPath string
)

// toolBinary builds the real tool.
func toolBinary() string {
	binOnce.Do(func() {
		p := filepath.Join(eng.Current().Scratch, "html2markdown")
		c := exec.Command("go", "build", "-o", p, "github.com/JohannesKaufmann/html-to-markdown/v2/cli/html2markdown")
		c.Dir = eng.Current().Root
		if out, err := c.CombinedOutput(); err != nil {
			panic(fmt.Sprintf("go build: %v\n%s", err, out))
		}
		binPath = p
	})
	return binPath
}

func processRun(doc string, way []string, f *faultBox) *eng.Fail {
	dir := f.fresh()
	defer os.RemoveAll(dir)
	want, err := f.conv.ConvertString(doc)
	if err != nil {
		return nil
	}
	want += "\n"
	c := exec.Command(toolBinary())
	c.Dir = dir
	var out, errOut bytes.Buffer
	c.Stderr = &errOut
	wantFail := false
	switch way[0] {
	case "ok":
		c.Stdin, c.Stdout = strings.NewReader(doc), &out
	case "pieces":
		n, _ := strconv.Atoi(way[1])
		r, w, _ := os.Pipe()
		defer r.Close()
		go func() {
			for s := doc; s != ""; {
				k := min(n, len(s))
				w.WriteString(s[:k])
				s = s[k:]
				time.Sleep(time.Millisecond)
			}
			w.Close()
		}()
		c.Stdin, c.Stdout = r, &out
	case "full":
		x, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return nil
		}
		defer x.Close()
		// a character device is not a pipe, the input still is
		c.Stdin, c.Stdout = strings.NewReader(doc), x
		wantFail = true
	case "closed": // nobody reads the output
		r, w, _ := os.Pipe()
		r.Close()
		c.Stdin, c.Stdout = strings.NewReader(doc), w
		defer w.Close()
		wantFail = true
	case "file": // the standard input and output are files
		os.WriteFile(filepath.Join(dir, "in"), []byte(doc), 0o644)
		i, _ := os.Open(filepath.Join(dir, "in"))
		defer i.Close()
		c.Stdin, c.Stdout = i, &out
	case "directory": // the standard input cannot be read
		i, _ := os.Open(dir)
		defer i.Close()
		c.Stdin, c.Stdout = i, &out
		wantFail = true
	case "writeonly":
		i, _ := os.OpenFile(filepath.Join(dir, "w"), os.O_WRONLY|os.O_CREATE, 0o644)
		defer i.Close()
		c.Stdin, c.Stdout = i, &out
		wantFail = true
	case "flag":
		c.Args = append(c.Args, "--unknown")
		c.Stdin, c.Stdout = strings.NewReader(doc), &out
		wantFail = true
	case "version":
		c.Args = append(c.Args, "--version")
		c.Stdin, c.Stdout = strings.NewReader(doc), &out
		want = ""
	}
	ImplRuns.Add(1)
	err = c.Run()
	got := fmt.Sprintf("%v\nstdout: %q\nstderr: %q", err, clipText(out.String(), 400), clipText(errOut.String(), 400))
	eng.Current().Outcome(got)
	if wantFail {
		if err == nil || out.Len() > 0 {
			return &eng.Fail{What: "the process reports success", Got: got}
		}
		return nil
	}
	if err != nil || want != "" && out.String() != want || errOut.Len() > 0 {
		return &eng.Fail{What: "the process does not convert", Expected: want, Got: got}
	}
	return nil
}

func init() {
	small := []int{0, 1, 2, 4, 5, 6}
	eng.Register(&eng.Check{
		ID:       "C23",
		Rule:     "every position of a fault on every stream and file is enumerated; a run with a fault has to end with exit status 1 and a message, a run without one with the complete output",
		NewJudge: faultJudge,
		Assumptions: []string{
			"Faults of output files: the size limit of the process (the write fails after n bytes), and links to /dev/full. A fault when a file is closed cannot be made here.",
			"Writers that accept less than they were given without an error break the contract of io.Writer and are not covered.",
			"The output of --help and --version is not covered.",
		},
		Spaces: func(t eng.Tier) []eng.Space {
			list := func(name, bound string, serial bool, gen func(add func(format string, a ...any))) eng.Space {
				return eng.Space{Name: name, Bound: bound, Serial: serial, Enum: func(emit func(string) bool) {
					ok := true
					gen(func(format string, a ...any) {
						if ok {
							ok = emit(fmt.Sprintf(format, a...))
						}
					})
				}}
			}
			big := len(faultDocs[3])
			return []eng.Space{
				list("read-faults", "every position in 6 documents, block borders of a large one, 5 kinds of faults, 5 command lines", false, func(add func(string, ...any)) {
					for a := range faultArgs {
						for _, way := range []string{"once", "bytes", "joined", "empty", "short"} {
							for _, d := range small {
								for k := 0; k <= len(faultDocs[d]); k++ {
									add("read %d %d %d %s", d, a, k, way)
								}
							}
							for _, k := range []int{1, 511, 512, 513, 4095, 4096, 4097, 32768, 65535, 65536, 65537, big - 1, big} {
								if k <= big {
									add("read 3 %d %d %s", a, k, way)
								}
							}
						}
					}
				}),
				list("kinds", "30 kinds of errors at every position of short documents, reading and writing", false, func(add func(string, ...any)) {
					for e := range faultErrors {
						for _, d := range small {
							for k := 0; k <= len(faultDocs[d]); k++ {
								for a := range faultArgs {
									add("read %d %d %d kind %d", d, a, k, e)
								}
								add("write %d 0 %d kind %d", d, k, e)
								add("write %d 4 %d kind %d", d, k, e)
							}
						}
						for _, k := range []int{1, 4096, 32768, big - 1} {
							add("read 3 0 %d kind %d", k, e)
							add("read 3 1 %d kind %d", k, e)
							add("write 3 0 %d kind %d", k-1, e)
						}
					}
				}),
				list("splits", "every way to cut the short documents, all single and double cuts of the others", false, func(add func(string, ...any)) {
					n := t.N(11, 17)
					for _, way := range []string{"plain", "joined", "empty"} {
						for _, d := range small {
							l := len(faultDocs[d])
							for a := range faultArgs {
								if l <= 1 {
									add("split %d %d 0 %s", d, a, way)
									continue
								}
								// cuts at the end of every part of the document
								for i := 0; i < l-1; i++ {
									for k := 0; k < l-1; k++ {
										add("split %d %d %d %s", d, a, 1<<i|1<<k, way)
									}
								}
								add("split %d %d %d %s", d, a, 1<<(l-1)-1, way)
							}
							for off := 0; off < l-1; off += n - 1 {
								for m := 0; m < 1<<min(n, l-1-off); m++ {
									add("split %d 0 %d %s", d, m<<off, way)
								}
							}
						}
					}
					for _, d := range []int{0, 2, 3} {
						for n := 1; n < 70; n++ {
							add("cut %d %d", d, n)
						}
						for _, n := range []int{511, 512, 513, 4096, 65536} {
							add("cut %d %d", d, n)
						}
					}
				}),
				list("write-faults", "every room on the standard output, 3 kinds of faults", false, func(add func(string, ...any)) {
					for _, way := range []string{"partial", "whole", "once"} {
						for _, a := range []int{0, 4} {
							for _, d := range small {
								for k := 0; k < len(faultDocs[d])+4; k++ {
									add("write %d %d %d %s", d, a, k, way)
								}
							}
							for k := 0; k < big; k += t.N(2999, 61) {
								add("write 3 %d %d %s", a, k, way)
							}
							for k := 4095; k < big; k += 4096 {
								add("write 3 %d %d %s", a, k, way)
								add("write 3 %d %d %s", a, k+1, way)
								add("write 3 %d %d %s", a, k+2, way)
							}
						}
					}
				}),
				list("mute", "6 errors, every room on the standard error stream", false, func(add func(string, ...any)) {
					for _, s := range []string{"flag", "input", "read", "exists", "write", "tty"} {
						for k := 0; k < 300; k++ {
							add("mute %s %d", s, k)
						}
					}
				}),
				list("files", "up to 5 inputs and every set of outputs or inputs that fail", false, func(add func(string, ...any)) {
					for n := 1; n <= 5; n++ {
						for b := 0; b < 1<<n; b++ {
							add("full %d %d dir", n, b)
							add("unreadable %d %d dir", n, b)
						}
					}
					for b := 0; b < 2; b++ {
						add("full 1 %d file", b)
						add("unreadable 1 %d file", b)
						add("unreadable 1 %d stdout", b)
					}
				}),
				list("paths", "output paths that are not possible", false, func(add func(string, ...any)) {
					for _, p := range []string{"file/", "file/x.md", "file/x/", "LONG", "LONG/", "LONG/x.md", "x/LONG.md", "loop", "loop/", "loop/x.md", "dangling/", "dangling/x.md", "dangling"} {
						add("path %s plain", p)
						add("path %s overwrite", p)
					}
				}),
				list("torn", "every room in the output file", true, func(add func(string, ...any)) {
					for a := 1; a <= 3; a++ {
						for _, d := range small {
							for k := 0; k < len(faultDocs[d])+4; k++ {
								add("torn %d %d %d", d, a, k)
							}
						}
						for k := 0; k < big+8192; k += 4096 {
							add("torn 3 %d %d", a, k)
							add("torn 3 %d %d", a, k+1)
						}
					}
				}),
				list("processes", "the real tool with real streams", false, func(add func(string, ...any)) {
					for d := range faultDocs {
						for _, way := range []string{"ok", "full", "closed", "file", "directory", "writeonly", "flag", "version"} {
							add("process %d %s", d, way)
						}
					}
					for _, d := range small {
						for n := 1; n <= len(faultDocs[d]); n++ {
							add("process %d pieces %d", d, n)
						}
					}
					for _, n := range []int{4095, 4096, 65535, 65537} {
						add("process 3 pieces %d", n)
					}
				}),
			}
		},
	})
}

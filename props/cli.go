package props

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"os"
	"sync"
	"time"

	"github.com/JohannesKaufmann/html-to-markdown/v2/cli/html2markdown/cmd"
)

// The command line tool runs inside the process of the check: its three
// streams are stand-ins and its exit is a panic that is caught again.

type cliExit int

var cliOnce sync.Once

func cliSetup() {
	cliOnce.Do(func() { cmd.OsExiter = func(code int) { panic(cliExit(code)) } })
}

// stream stands for a standard stream.
type stream struct {
	terminal bool
	r        io.Reader
	buf      bytes.Buffer
	// write is asked before every write: how many bytes are taken and the error.
	write  func(n, already int) (int, error)
	failed bool
	reads  int
}

func (s *stream) Read(p []byte) (int, error) {
	s.reads++
	if s.r == nil {
		return 0, io.EOF
	}
	return s.r.Read(p)
}

func (s *stream) Write(p []byte) (int, error) {
	if s.write != nil {
		n, err := s.write(len(p), s.buf.Len())
		s.buf.Write(p[:n])
		if err != nil {
			s.failed = true
		}
		return n, err
	}
	return s.buf.Write(p)
}

func (s *stream) Stat() (fs.FileInfo, error) { return streamInfo{s.terminal}, nil }

type streamInfo struct{ terminal bool }

func (i streamInfo) Name() string { return "stream" }
func (i streamInfo) Size() int64  { return 0 }
func (i streamInfo) Mode() fs.FileMode {
	if i.terminal {
		return os.ModeDevice | os.ModeCharDevice | 0o620
	}
	return os.ModeNamedPipe | 0o600
}
func (i streamInfo) ModTime() time.Time { return time.Time{} }
func (i streamInfo) IsDir() bool        { return false }
func (i streamInfo) Sys() any           { return nil }

// cliRun is one run of the tool.
type cliRun struct {
	in, out, err *stream
	code         int // -1: returned without exiting
}

func (r cliRun) stdout() string { return r.out.buf.String() }
func (r cliRun) stderr() string { return r.err.buf.String() }

func newCLIRun(stdin io.Reader) cliRun {
	return cliRun{in: &stream{r: stdin, terminal: stdin == nil}, out: &stream{}, err: &stream{}, code: -1}
}

func (r *cliRun) run(args ...string) {
	cliSetup()
	ImplRuns.Add(1)
	defer func() {
		if x := recover(); x != nil {
			c, ok := x.(cliExit)
			if !ok {
				panic(x)
			}
			r.code = int(c)
		}
	}()
	cmd.Run(r.in, r.out, r.err, append([]string{"html2markdown"}, args...), cmd.Release{Version: "1.2.3", Commit: "c0ffee", Date: "2026-01-01T00:00:00Z"})
}

var errInjected = errors.New("injected fault")

package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"vmc/eng"
)

const h2mPath = "github.com/JohannesKaufmann/html-to-markdown/v2"

// syncOverlay replaces the synchronisation packages by the ones with
// scheduling points in every source file of the code under test.
func syncOverlay(dir string) (string, int, error) {
	cmd := exec.Command("go", "list", "-deps", "-f", `{{with .Module}}{{if eq .Path "`+h2mPath+`"}}{{$.Dir}}{{range $.GoFiles}}|{{.}}{{end}}{{end}}{{end}}`, "./cmd/mc13")
	out, err := cmd.Output()
	if err != nil {
		return "", 0, err
	}
	replace := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.Split(strings.TrimSpace(l), "|")
		for _, name := range f[1:] {
			path := filepath.Join(f[0], name)
			src, err := os.ReadFile(path)
			if err != nil {
				return "", 0, err
			}
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, path, src, parser.ImportsOnly)
			if err != nil {
				return "", 0, err
			}
			text, changed := string(src), false
			for i := len(file.Imports) - 1; i >= 0; i-- {
				im := file.Imports[i]
				to := map[string]string{`"sync"`: `"vmc/vsync"`, `"sync/atomic"`: `"vmc/vatomic"`}[im.Path.Value]
				if to == "" {
					continue
				}
				o := fset.Position(im.Path.Pos()).Offset
				text = text[:o] + to + text[o+len(im.Path.Value):]
				changed = true
			}
			if changed {
				to := filepath.Join(dir, fmt.Sprintf("f%d.go", len(replace)))
				if err := os.WriteFile(to, []byte(text), 0o600); err != nil {
					return "", 0, err
				}
				replace[path] = to
			}
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	p := filepath.Join(dir, "overlay.json")
	return p, len(replace), os.WriteFile(p, b, 0o600)
}

type schedReport struct {
	Scenario  string
	Schedules int64
	Points    int64
	MaxPoints int
	Complete  bool
	Bound     int
	Free      int64
	What      string
	Schedule  string
}

func schedules(r *eng.Run) {
	dir := r.Scratch
	over, files, err := syncOverlay(dir)
	if err != nil {
		panic(fmt.Sprintf("overlay: %v", err))
	}
	bin := filepath.Join(dir, "mc13")
	build := func(args ...string) error {
		cmd := exec.Command("go", append(append([]string{"build", "-race"}, args...), "-o", bin, "./cmd/mc13")...)
		b, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("%v: %s", err, b)
		}
		return nil
	}
	controlled := "every synchronisation operation of the code under test is a scheduling point"
	if err := build("-overlay", over); err != nil {
		// Something the replacement does not offer: whole threads one after
		// the other, races are still found.
		controlled = "synchronisation operations could not be replaced (" + err.Error() + "): threads in all orders without preemption"
		if err := build(); err != nil {
			panic(err)
		}
	}
	out, err := exec.Command(bin, "list").Output()
	if err != nil {
		panic(err)
	}
	var jobs []string
	for _, sc := range strings.Fields(string(out)) {
		if only := os.Getenv("VMC_SPACE"); only == "" || strings.Contains(sc, only) {
			jobs = append(jobs, sc)
		}
	}
	first := len(jobs)
	if r.Tier.Thorough {
		jobs = append(jobs, jobs...)
	}
	var mu sync.Mutex
	next := 0
	complete := map[string]int{}
	total, maxPoints := int64(0), 0
	var wg sync.WaitGroup
	for w := range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(jobs) || r.Stopped() {
					mu.Unlock()
					return
				}
				sc := jobs[next]
				next++
				// The thorough tier first covers what the quick tier covers,
				// then goes one preemption further as long as time allows.
				deeper := next > first
				mu.Unlock()

				threads := strings.Split(sc, "+")
				regs := strings.Count(sc, "reg-")
				bound := 1
				if len(threads) == 2 && (regs == 2 || regs == 1 && slices.Contains([]string{"text", "nested", "registers", "custom"}, threads[0])) {
					bound = 2
				}
				secs := 60
				if deeper {
					bound++
					if regs == 2 {
						bound = 5
					}
					mu.Lock()
					secs = max(2, int(time.Until(r.Deadline).Seconds()-10)*8/(len(jobs)-next+8))
					mu.Unlock()
				}
				secs = max(1, min(secs, int(time.Until(r.Deadline).Seconds())))
				journal := filepath.Join(dir, "schedule-"+strconv.Itoa(w))
				cmd := exec.Command(bin, "run", sc, strconv.Itoa(bound), strconv.Itoa(secs), journal)
				cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
				var so, se bytes.Buffer
				cmd.Stdout, cmd.Stderr = &so, &se
				t0 := time.Now()
				if err := cmd.Start(); err != nil {
					panic(err)
				}
				timer := time.AfterFunc(time.Duration(secs+60)*time.Second, func() { cmd.Process.Kill() })
				err := cmd.Wait()
				timer.Stop()
				var rep schedReport
				if err != nil {
					var ee *exec.ExitError
					what := "the process ended abnormally: " + err.Error()
					if errors.As(err, &ee) && ee.ExitCode() == 66 {
						what = "data race"
					}
					sched := ""
					if b, err := os.ReadFile(journal); err == nil && len(b) >= 8 {
						n, _ := strconv.Atoi(strings.TrimSpace(string(b[:8])))
						sched = string(b[8 : 8+min(n, len(b)-8)])
					}
					r.Report("schedules", sc+sep+sched, &eng.Fail{What: what, Output: clipText(se.String(), 3000)}, "deterministic")
					r.Count(1, 1, 1)
					continue
				}
				if err := json.Unmarshal(so.Bytes(), &rep); err != nil {
					panic(fmt.Sprintf("%v: %s", err, so.String()))
				}
				mu.Lock()
				maxPoints = max(maxPoints, rep.MaxPoints)
				total += rep.Schedules
				if rep.Complete {
					complete[fmt.Sprintf("%d threads, all schedules of at most %d preemptions", len(threads), bound)]++
				} else if deeper {
					complete[fmt.Sprintf("%d threads, deeper run reached its time limit, complete up to %d of %d preemptions", len(threads), rep.Bound, bound)]++
				} else {
					complete[fmt.Sprintf("%d threads, complete only up to %d of %d preemptions", len(threads), rep.Bound, bound)]++
				}
				mu.Unlock()
				r.Count(rep.Schedules, rep.Points, rep.Schedules)
				if rep.What != "" {
					r.Report("schedules", sc+sep+rep.Schedule, &eng.Fail{What: rep.What}, "deterministic")
				}
				if os.Getenv("VMC_VERBOSE") != "" {
					fmt.Println(rep.Scenario, rep.Schedules, rep.MaxPoints, time.Since(t0))
				}
				r.Sample(fmt.Sprintf("%s: %d schedules, up to %d points", sc, rep.Schedules, rep.MaxPoints))
				r.Outcome(fmt.Sprint(sc, rep.Schedules, rep.Points))
			}
		}()
	}
	wg.Wait()
	for k := range complete {
		if strings.Contains(k, "only") {
			r.Capped()
		}
	}
	r.Extra["schedules"] = total
	r.Extra["scenarios"] = complete
	r.Extra["points_per_schedule_at_most"] = maxPoints
	r.Extra["control"] = controlled
	r.Extra["files_with_replaced_synchronisation"] = files
	r.AddSpace(map[string]any{"space": "schedules", "bound": fmt.Sprint(complete), "states": total, "transitions": "see transitions", "complete": next >= first, "seconds": 0})
}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func init() {
	eng.Register(&eng.Check{
		ID:     "C13",
		Custom: schedules,
		Rule:   "no data race (race detector, precise for every explored schedule), no deadlock, no panic; conversions give what they give alone, up to the visible effect of concurrent registrations; after the run every registration is in effect",
		Assumptions: []string{
			"between two synchronisation operations a thread is not interrupted; that loses no behaviour as long as there is no data race, which is checked in the same runs",
		},
	})
}

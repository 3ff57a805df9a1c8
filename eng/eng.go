// Package eng is the explicit-state explorer shared by the checks. A check
// supplies bounded state spaces (each enumerated completely, shortest states
// first) and a judge that runs the real implementation on one state and
// compares it with a reference model. The explorer owns the work
// distribution, the bookkeeping of what was covered, crash containment and
// the reporting.
package eng

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Fail describes one violation found in one state.
type Fail struct {
	What     string `json:"what"`
	Expected string `json:"expected,omitempty"`
	Got      string `json:"got,omitempty"`
	Output   string `json:"output,omitempty"`
}

// Judge runs the implementation on one state. A nil result means the property
// held. A Judge is used by one goroutine only.
type Judge func(state string) *Fail

// Space is a finite state space. Enum calls emit once per transition with the
// encoding of the state it leads to; emit returns false when the exploration
// has to stop.
type Space struct {
	Name  string
	Bound string
	Enum  func(emit func(state string) bool)
	// Judge overrides the check's judge for this space.
	NewJudge func() Judge
	// Serial spaces are judged by a single worker (they own a resource).
	Serial bool
}

// Check decides one property.
type Check struct {
	ID     string
	Spaces func(t Tier) []Space
	// NewJudge builds the judge of one worker.
	NewJudge func() Judge
	// Assumptions are copied to the evidence file.
	Assumptions []string
	// Rule is a short description of the oracle.
	Rule string
	// Custom replaces the whole exploration (schedules, histories).
	Custom func(r *Run)
	// Budget for the quick tier (0: default).
	Quick time.Duration
}

// Tier of a run.
type Tier struct {
	Thorough bool
	Small    bool // For trying out many variants of the code.
}

// N picks a bound by tier.
func (t Tier) N(quick, thorough int) int {
	if t.Thorough {
		return thorough
	}
	if t.Small {
		return min(quick, max(1, quick-1))
	}
	return quick
}

// Known findings: exact states per property.
type Known struct {
	Property string   `json:"property"`
	What     string   `json:"what"`
	Inputs   []string `json:"inputs,omitempty"`
	Fixed    string   `json:"fixed,omitempty"`
}

// Run is one execution of a check.
type Run struct {
	C        *Check
	Tier     Tier
	Seed     int
	Root     string // /verif
	Scratch  string // private scratch folder, removed by the parent
	Deadline time.Time
	start    time.Time

	mu        sync.Mutex
	fails     []failRec
	knownHit  map[string]string // state -> what
	known     map[string]string
	states    int64
	trans     int64
	traces    int64
	outcomes  map[uint64]struct{}
	samples   []string
	spaces    []map[string]any
	Extra     map[string]any
	capped    atomic.Bool
	stop      atomic.Bool
	judged    atomic.Int64
	mm        []byte
	began     [16]atomic.Int64
	outcomeMu sync.Mutex
}

type failRec struct {
	Space string `json:"space"`
	State string `json:"state"`
	Fail  *Fail  `json:"fail"`
	Repro string `json:"reproduced"`
}

var checks = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { checks[c.ID] = c }

// Get finds a check.
func Get(id string) *Check { return checks[id] }

// Sub holds helper programs that checks run in processes of their own.
var Sub = map[string]func(args []string) int{}

// IDs lists the registered checks.
func IDs() []string {
	var l []string
	for k := range checks {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

const slot = 1 << 16

// ImplRuns reports how often the implementation was executed.
var ImplRuns func() int64

var seed = maphash.MakeSeed()

// Hash of a string.
func Hash(s string) uint64 { return maphash.String(seed, s) }

// Outcome records a distinct observed behaviour of the implementation.
func (r *Run) Outcome(s string) {
	h := Hash(s)
	r.outcomeMu.Lock()
	if len(r.outcomes) < 4_000_000 {
		r.outcomes[h] = struct{}{}
	}
	r.outcomeMu.Unlock()
}

// ErrStop is panicked by Note-less aborts.
func (r *Run) expired() bool { return time.Now().After(r.Deadline) }

// Stopped tells a custom exploration to end.
func (r *Run) Stopped() bool {
	if r.stop.Load() {
		return true
	}
	if r.expired() {
		r.capped.Store(true)
		return true
	}
	return false
}

// Capped marks the exploration as incomplete.
func (r *Run) Capped() { r.capped.Store(true) }

// Count adds to the totals (custom explorations).
func (r *Run) Count(states, trans, traces int64) {
	r.mu.Lock()
	r.states += states
	r.trans += trans
	r.traces += traces
	r.mu.Unlock()
}

// Sample keeps a few explored cases.
func (r *Run) Sample(s string) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// AddSpace records a description of an explored space.
func (r *Run) AddSpace(m map[string]any) {
	r.mu.Lock()
	r.spaces = append(r.spaces, m)
	r.mu.Unlock()
}

// Report records a violation.
func (r *Run) Report(space, state string, f *Fail, repro string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if w, ok := r.known[state]; ok {
		r.knownHit[state] = w
		return
	}
	r.fails = append(r.fails, failRec{space, state, f, repro})
	if len(r.fails) >= maxFails() {
		r.stop.Store(true)
	}
}

func maxFails() int {
	if v, err := strconv.Atoi(os.Getenv("VMC_MAXFAILS")); err == nil {
		return v
	}
	return 8
}

// Guard runs f and turns a panic into a Fail.
func Guard(f func() *Fail) (res *Fail) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if len(st) > 4000 {
				st = st[:4000]
			}
			res = &Fail{What: fmt.Sprintf("panic: %v", p), Output: st}
		}
	}()
	return f()
}

type job struct {
	state string
}

func (r *Run) workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}

// note stores the state a worker is about to judge where the parent process
// can read it after a crash.
func (r *Run) note(w int, s string) {
	if r.mm == nil {
		return
	}
	b := r.mm[w*slot : (w+1)*slot]
	n := len(s)
	if n > slot-8 {
		n = slot - 8
	}
	b[0], b[1], b[2], b[3] = byte(n), byte(n>>8), byte(n>>16), 1
	copy(b[8:], s[:n])
	r.began[w].Store(time.Now().UnixNano())
}

// Exit codes of the watchdog.
const (
	exitHang   = 70
	exitMemory = 71
)

// watch ends the process when one state takes unreasonably long or the
// process unreasonably much memory; the parent finds out which state it was.
func (r *Run) watch(hang time.Duration, mem uint64) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for range time.Tick(200 * time.Millisecond) {
		now := time.Now().UnixNano()
		for w := range r.began {
			if t := r.began[w].Load(); t != 0 && now-t > int64(hang) {
				fmt.Fprintf(os.Stderr, "one state is being worked on for more than %v\n", hang)
				os.Exit(exitHang)
			}
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > mem {
			fmt.Fprintf(os.Stderr, "more than %d MB of memory in use\n", mem>>20)
			os.Exit(exitMemory)
		}
	}
}
func (r *Run) unnote(w int) {
	if r.mm != nil {
		r.mm[w*slot+3] = 0
		r.began[w].Store(0)
	}
}

// Note exposes the crash journal to custom explorations.
func (r *Run) Note(s string) { r.note(0, s) }

func (r *Run) exploreSpace(sp Space, seen map[uint64]struct{}) {
	newJudge := r.C.NewJudge
	if sp.NewJudge != nil {
		newJudge = sp.NewJudge
	}
	W := r.workers()
	if sp.Serial {
		W = 1
	}
	ch := make(chan []string, 4*W)
	var wg sync.WaitGroup
	for k := 0; k < W; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			judge := newJudge()
			for batch := range ch {
				for _, st := range batch {
					if r.stop.Load() {
						continue
					}
					r.note(k, sp.Name+"\x00"+st)
					f := Guard(func() *Fail { return judge(st) })
					r.judged.Add(1)
					if f != nil {
						n := 0
						for i := 0; i < 5; i++ {
							j2 := newJudge()
							if Guard(func() *Fail { return j2(st) }) != nil {
								n++
							}
						}
						r.Report(sp.Name, st, f, fmt.Sprintf("%d/5 with a fresh instance", n))
						judge = newJudge()
					}
				}
				r.unnote(k)
			}
		}(k)
	}
	var states, trans int64
	var batch []string
	t0 := time.Now()
	capped := false
	var firsts []string
	sp.Enum(func(st string) bool {
		trans++
		h := Hash(sp.Name) ^ Hash(st)
		if _, ok := seen[h]; !ok {
			seen[h] = struct{}{}
			states++
			// samples: states of growing index
			if states == 1 || states == 10 || states == 1000 || states == 50000 {
				firsts = append(firsts, sp.Name+": "+clip(st, 300))
			}
			batch = append(batch, st)
			if len(batch) >= 64 {
				ch <- batch
				batch = nil
			}
		}
		if r.stop.Load() {
			return false
		}
		if trans%256 == 0 && r.expired() {
			capped = true
			return false
		}
		return true
	})
	if len(batch) > 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	if capped {
		r.capped.Store(true)
	}
	r.mu.Lock()
	r.states += states
	r.trans += trans
	if len(r.samples) < 24 {
		r.samples = append(r.samples, firsts...)
	}
	r.spaces = append(r.spaces, map[string]any{
		"space": sp.Name, "bound": sp.Bound, "states": states, "transitions": trans,
		"complete": !capped && !r.stop.Load(), "seconds": round(time.Since(t0).Seconds()),
	})
	r.mu.Unlock()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
func round(f float64) float64 { return float64(int(f*100)) / 100 }

// Execute runs a check in this process and returns the exit code.
func Execute(c *Check, root string) int {
	tier := Tier{Thorough: os.Getenv("VERIF_TIER") == "thorough", Small: os.Getenv("VERIF_TIER") == "small"}
	sd, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := &Run{C: c, Tier: tier, Seed: sd, Root: root, start: time.Now(),
		known: map[string]string{}, knownHit: map[string]string{}, outcomes: map[uint64]struct{}{}, Extra: map[string]any{}}
	budget := 150 * time.Second
	if c.Quick != 0 {
		budget = c.Quick
	}
	if tier.Thorough {
		budget = 780 * time.Second
	}
	if v, err := time.ParseDuration(os.Getenv("VMC_BUDGET")); err == nil {
		budget = v
	}
	r.Deadline = r.start.Add(budget)
	r.Scratch = os.Getenv("VMC_SCRATCH")
	current = r
	for _, k := range LoadKnown(root) {
		if k.Property == c.ID && k.Fixed == "" {
			for _, in := range k.Inputs {
				r.known[in] = k.What
			}
		}
	}
	if p := os.Getenv("VMC_JOURNAL"); p != "" {
		if f, err := os.OpenFile(p, os.O_RDWR, 0o600); err == nil {
			mm, err := syscall.Mmap(int(f.Fd()), 0, slot*16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				r.mm = mm
			}
			f.Close()
		}
	}
	if one := os.Getenv("VMC_ONE"); one != "" {
		go r.watch(time.Hour, 6<<30)
		return r.one(one)
	}
	go r.watch(30*time.Second, 16<<30)
	if c.Custom != nil {
		c.Custom(r)
	} else {
		seen := map[uint64]struct{}{}
		for _, sp := range c.Spaces(tier) {
			if only := os.Getenv("VMC_SPACE"); only != "" && !strings.Contains(sp.Name, only) {
				continue
			}
			if r.stop.Load() || r.expired() {
				if r.expired() {
					r.capped.Store(true)
				}
				break
			}
			r.exploreSpace(sp, seen)
		}
	}
	return r.finish()
}

var current *Run

// Current run (for judges that record outcomes).
func Current() *Run { return current }

// one re-judges a single state (used after a crash and for replays).
func (r *Run) one(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println("cannot read", err)
		return 3
	}
	sp, st, _ := strings.Cut(string(b), "\x00")
	nj := r.C.NewJudge
	if r.C.Custom == nil {
		for _, s := range r.C.Spaces(r.Tier) {
			if s.Name == sp && s.NewJudge != nil {
				nj = s.NewJudge
			}
		}
		for _, s := range r.C.Spaces(Tier{Thorough: true}) {
			if s.Name == sp && s.NewJudge != nil {
				nj = s.NewJudge
			}
		}
	}
	if nj == nil {
		fmt.Println("this check has no single-state replay")
		return 3
	}
	f := Guard(func() *Fail { return nj()(st) })
	if f == nil {
		fmt.Println("replay: the property held on this state")
		return 0
	}
	j, _ := json.MarshalIndent(f, "", " ")
	fmt.Println("replay: violation\n" + string(j))
	return 1
}

// LoadKnown reads the committed known-findings file.
func LoadKnown(root string) []Known {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		panic("known_findings.json: " + err.Error())
	}
	return f.Findings
}

// WriteReplay stores a violation as an artefact and returns its path.
func WriteReplay(root, id, space, state string, v any) string {
	dir := filepath.Join(root, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	h := fmt.Sprintf("%08x", uint32(fnv(space+"\x00"+state)))
	p := filepath.Join(dir, id+"-"+h+".json")
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, b, 0o644)
	os.WriteFile(p+".state", []byte(space+"\x00"+state), 0o644)
	return p
}
func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (r *Run) finish() int {
	if ImplRuns != nil {
		r.traces += ImplRuns()
	}
	wall := time.Since(r.start).Seconds()
	cov := map[string]any{
		"states":                        r.states,
		"transitions":                   r.trans,
		"traces_validated_against_impl": r.traces,
		"samples":                       r.samples,
		"exhaustive":                    !r.capped.Load() && !r.stop.Load(),
		"spaces":                        r.spaces,
		"oracle":                        r.C.Rule,
	}
	if len(r.outcomes) > 0 {
		cov["distinct_observed_outcomes"] = len(r.outcomes)
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	tier := "quick"
	if r.Tier.Thorough {
		tier = "thorough"
	}
	ev := map[string]any{
		"property": r.C.ID, "tier": tier, "seed": r.Seed, "level": "model_checking",
		"coverage": cov, "assumptions": r.C.Assumptions, "wall_s": round(wall), "violations": len(r.fails),
	}
	WriteEvidence(r.Root, r.C.ID, ev)
	var hits []string
	for s, w := range r.knownHit {
		hits = append(hits, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", r.C.ID, w, strconv.Quote(clip(s, 200))))
	}
	sort.Strings(hits)
	for _, h := range hits {
		fmt.Println(h)
	}
	fmt.Printf("%s: states=%d transitions=%d outcomes=%d exhaustive=%v %.1fs\n", r.C.ID, r.states, r.trans, len(r.outcomes), cov["exhaustive"], wall)
	for _, s := range r.spaces {
		fmt.Printf("  %v: states=%v transitions=%v complete=%v %vs\n", s["space"], s["states"], s["transitions"], s["complete"], s["seconds"])
	}
	if len(r.fails) == 0 {
		return 0
	}
	sort.SliceStable(r.fails, func(i, j int) bool { return len(r.fails[i].State) < len(r.fails[j].State) })
	for _, f := range r.fails {
		p := WriteReplay(r.Root, r.C.ID, f.Space, f.State, map[string]any{"property": r.C.ID, "violation": f,
			"replay_with": "sh /verif/run.sh --replay " + r.C.ID + " <this file>.state"})
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.C.ID, p)
		fmt.Printf("    space=%s state=%q\n    %s\n    expected=%s\n    got     =%s\n    output  =%q\n    reproduced=%s\n", f.Space, clip(f.State, 600), f.Fail.What, clip(f.Fail.Expected, 1500), clip(f.Fail.Got, 1500), clip(f.Fail.Output, 1500), f.Repro)
	}
	return 1
}

// WriteEvidence writes evidence/<id>.json.
func WriteEvidence(root, id string, ev map[string]any) {
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}

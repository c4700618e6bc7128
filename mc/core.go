package main

// The exploration core: registered oracles (pure functions of an input and an argument), the
// enumeration runner (parallel, with crash slots and a watchdog), violation confirmation and
// replay files, and the evidence file.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"
)

// An oracle decides one case. It returns an outcome class (for the coverage count) and an error if
// the property does not hold.
type Oracle func(input []byte, arg string) (class string, err error)

var oracles = map[string]Oracle{}

func oracle(name string, f Oracle) { oracles[name] = f }

type Check struct {
	ID    string
	Level string // exploration, fault_enumeration, model_checking
	Rule  string
	Assum []string
	Run   func(r *R)
}

// A known finding: a genuine defect that is recorded rather than repaired. The probe runs the failing
// input against the code; while it fails as described and KNOWN-FINDINGS lists it, the check prints a
// KNOWN-FINDING line. The inputs it covers are outside the space of the check's other cases.
type Known struct {
	ID    string // as in KNOWN-FINDINGS
	What  string
	Probe func() error // an error while the defect is there
}

var knowns = map[string][]Known{}

func known(property string, k ...Known) { knowns[property] = append(knowns[property], k...) }

func listedFindings() string {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "KNOWN-FINDINGS"))
	return string(b)
}

func (r *R) probeKnown() {
	listed := listedFindings()
	for _, k := range knowns[r.check.ID] {
		err := func() (err error) {
			defer func() {
				if x := recover(); x != nil {
					err = fmt.Errorf("panic: %v", x)
				}
			}()
			return k.Probe()
		}()
		if err == nil {
			continue
		}
		if strings.Contains(listed, "known: property="+r.check.ID+" "+k.ID+" ") {
			fmt.Fprintf(real.out, "KNOWN-FINDING: property=%s %s %s\n", r.check.ID, k.ID, k.What)
			r.notes = append(r.notes, "known finding "+k.ID+": "+trim(err.Error(), 300))
		} else {
			r.violations = append(r.violations, Violation{Property: r.check.ID, Oracle: "known", Arg: k.ID, Error: err.Error()})
		}
	}
}

var checks = map[string]*Check{}

func check(c *Check) { checks[c.ID] = c }

const slotSize = 1 << 20

type Violation struct {
	Property string `json:"property"`
	Oracle   string `json:"oracle"`
	Arg      string `json:"arg"`
	Input    string `json:"input_hex"`
	Error    string `json:"error"`
	Note     string `json:"note,omitempty"`
}

type R struct {
	check    *Check
	tier     string
	deadline time.Time
	start    time.Time

	evals       atomic.Int64
	states      atomic.Int64
	transitions atomic.Int64
	traces      atomic.Int64
	capped      atomic.Bool
	stop        atomic.Bool

	mu         sync.Mutex
	classes    map[string]int64
	distinct   map[uint64]struct{}
	samples    []any
	spaces     []map[string]any
	violations []Violation
	notes      []string

	workers []*W
}

// A worker: one goroutine of the exploration.
type W struct {
	r       *R
	id      int
	slot    []byte // mmap'd: the case in progress, for the supervisor
	since   atomic.Int64
	classes map[string]int64
	hashes  map[uint64]struct{}
	n       int64
	current func() (string, []byte, string)
}

func (r *R) Thorough() bool { return r.tier == "thorough" }

func (r *R) Done() bool { return r.stop.Load() }

func (r *R) expired() bool {
	if time.Now().After(r.deadline) {
		r.capped.Store(true)
		r.stop.Store(true)
	}
	return r.stop.Load()
}

func newR(c *Check, tier string) *R {
	r := &R{check: c, tier: tier, start: time.Now(), classes: map[string]int64{}, distinct: map[uint64]struct{}{}}
	d := 420 * time.Second
	if tier == "thorough" {
		d = 3000 * time.Second
	}
	r.deadline = r.start.Add(d)
	n := runtime.NumCPU()
	if os.Getenv("MC_SINGLE") != "" {
		n = 1
	}
	if n > 8 {
		n = 8
	}
	if n < 2 && os.Getenv("MC_SINGLE") == "" {
		n = 2
	}
	for i := 0; i < n; i++ {
		r.workers = append(r.workers, newW(r, i))
	}
	return r
}

func slotFile(dir string, i int) string { return filepath.Join(dir, fmt.Sprintf("slot.%d", i)) }

func newW(r *R, id int) *W {
	w := &W{r: r, id: id, classes: map[string]int64{}, hashes: map[uint64]struct{}{}}
	if dir := os.Getenv("MC_SLOTS"); dir != "" {
		if f, err := os.OpenFile(slotFile(dir, id), os.O_RDWR|os.O_CREATE, 0600); err == nil {
			f.Truncate(slotSize)
			if m, err := syscall.Mmap(int(f.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				w.slot = m
			}
			f.Close()
		}
	}
	return w
}

// slot layout: 4 bytes length of name, arg, input; then the bytes; length 0 = idle
func (w *W) enter(name string, input []byte, arg string) {
	w.since.Store(time.Now().UnixNano())
	if w.slot == nil || 12+len(name)+len(arg)+len(input) > slotSize {
		return
	}
	p := w.slot
	put := func(o, v int) { p[o] = byte(v >> 24); p[o+1] = byte(v >> 16); p[o+2] = byte(v >> 8); p[o+3] = byte(v) }
	put(0, 0)
	put(4, len(arg))
	put(8, len(input))
	n := 12
	n += copy(p[n:], name)
	n += copy(p[n:], arg)
	copy(p[n:], input)
	put(0, len(name))
}

func (w *W) leave() {
	w.since.Store(0)
	if w.slot != nil {
		p := w.slot
		p[0], p[1], p[2], p[3] = 0, 0, 0, 0
	}
}

func readSlot(path string) (name string, input []byte, arg string, ok bool) {
	p, err := os.ReadFile(path)
	if err != nil || len(p) < 12 {
		return
	}
	get := func(o int) int { return int(p[o])<<24 | int(p[o+1])<<16 | int(p[o+2])<<8 | int(p[o+3]) }
	a, b, c := get(0), get(4), get(8)
	if a <= 0 || a > 100 || 12+a+b+c > len(p) {
		return
	}
	return string(p[12 : 12+a]), p[12+a+b : 12+a+b+c], string(p[12+a : 12+a+b]), true
}

// Runs an oracle, turning a panic into an error.
func eval(name string, input []byte, arg string) (class string, err error) {
	f := oracles[name]
	if f == nil {
		return "", fmt.Errorf("unknown oracle %v", name)
	}
	defer func() {
		if x := recover(); x != nil {
			class, err = "panic", fmt.Errorf("panic: %v\n%s", x, trim(string(debug.Stack()), 2500))
		}
	}()
	return f(input, arg)
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Evaluates one case and records the outcome. Returns false if the exploration should stop.
func (w *W) Case(name string, input []byte, arg string) bool {
	w.enter(name, input, arg)
	class, err := eval(name, input, arg)
	w.leave()
	w.n++
	w.classes[class]++
	if w.n&0x3f == 0 && w.r.expired() {
		return false
	}
	if len(w.hashes) < 200000 {
		h := fnv.New64a()
		h.Write([]byte(name))
		h.Write([]byte(arg))
		h.Write(input)
		w.hashes[h.Sum64()] = struct{}{}
	}
	if err != nil {
		w.r.violate(name, input, arg, err)
	}
	return !w.r.stop.Load()
}

// Oracles that observe more than the result of a computation: memory, goroutines, processes, the file system.
var observers = map[string]bool{"leak": true, "alloc": true, "cli": true, "cli-line": true, "command-fault": true, "full-device": true, "race": true, "together": true, "interleave": true, "history": true}

// A violation seen by an observer counts if it recurs in 5 out of 5 re-runs. The other oracles are functions
// of the code's results alone: a violation that does not recur is a result that depends on what ran before
// or at the same time, and counts.
func (r *R) violate(name string, input []byte, arg string, err error) {
	for i := 0; i < 5; i++ {
		if _, e := eval(name, input, arg); e == nil && !observers[name] {
			err = fmt.Errorf("%v\n(with the same input the result is right when it is repeated: it depends on what was processed before or at the same time)", err)
			break
		} else if e == nil {
			r.mu.Lock()
			r.notes = append(r.notes, fmt.Sprintf("unconfirmed: %v %v: %v", name, arg, trim(err.Error(), 300)))
			r.mu.Unlock()
			return
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violations = append(r.violations, Violation{Property: r.check.ID, Oracle: name, Arg: arg, Input: hex.EncodeToString(input), Error: trim(err.Error(), 4000)})
	r.stop.Store(true)
}

// Enumerates the indices 0..n-1 of a finite space over the workers. f returns false to stop.
func (r *R) Par(label string, n int, f func(w *W, i int) bool) {
	if r.stop.Load() {
		return
	}
	if x := os.Getenv("MC_TRACE"); x != "" {
		t := time.Now()
		defer func() {
			if d := time.Since(t).Seconds(); d > 0.25 {
				fmt.Fprintf(real.err, "%-50s n=%-9d %.2fs\n", label, n, d)
			}
		}()
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	batch := int64(n / (len(r.workers) * 64))
	if batch < 1 {
		batch = 1
	}
	if batch > 256 {
		batch = 256
	}
	for _, w := range r.workers {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			for !r.stop.Load() {
				lo := next.Add(batch) - batch
				if lo >= int64(n) {
					return
				}
				for i := lo; i < lo+batch && i < int64(n); i++ {
					if !f(w, int(i)) {
						return
					}
				}
			}
		}(w)
	}
	wg.Wait()
	complete := !r.stop.Load()
	before := r.evals.Load()
	r.merge()
	r.mu.Lock()
	r.spaces = append(r.spaces, map[string]any{"space": label, "size": n, "cases": r.evals.Load() - before, "complete": complete})
	r.mu.Unlock()
}

// Sequential version, for oracles that use process-wide state.
func (r *R) Seq(label string, n int, f func(w *W, i int) bool) {
	if r.stop.Load() {
		return
	}
	if x := os.Getenv("MC_TRACE"); x != "" {
		t := time.Now()
		defer func() {
			if d := time.Since(t).Seconds(); d > 0.25 {
				fmt.Fprintf(real.err, "%-50s n=%-9d %.2fs\n", label, n, d)
			}
		}()
	}
	w := r.workers[0]
	for i := 0; i < n; i++ {
		if r.expired() || !f(w, i) {
			break
		}
	}
	complete := !r.stop.Load()
	before := r.evals.Load()
	r.merge()
	r.mu.Lock()
	r.spaces = append(r.spaces, map[string]any{"space": label, "size": n, "cases": r.evals.Load() - before, "complete": complete})
	r.mu.Unlock()
}

func (r *R) merge() {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, w := range r.workers {
		r.evals.Add(w.n)
		w.n = 0
		for k, v := range w.classes {
			r.classes[k] += v
		}
		w.classes = map[string]int64{}
		for k := range w.hashes {
			r.distinct[k] = struct{}{}
		}
		w.hashes = map[uint64]struct{}{}
	}
}

func (r *R) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 8 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

func (r *R) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		for _, w := range r.workers {
			if t := w.since.Load(); t != 0 && time.Since(time.Unix(0, t)) > 60*time.Second {
				// exit with a special code: the supervisor replays the slots to confirm
				fmt.Fprintf(real.err, "WATCHDOG worker %d\n", w.id)
				os.Exit(77)
			}
		}
		if r.deadline.Add(120 * time.Second).Before(time.Now()) {
			os.Exit(78)
		}
	}
}

func verifDir() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func seed() int {
	var s int
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &s)
	return s
}

func (r *R) evidence(status string) {
	r.merge()
	classes := []string{}
	for k := range r.classes {
		classes = append(classes, k)
	}
	sort.Strings(classes)
	out := map[string]int64{}
	for _, k := range classes {
		if len(out) < 40 {
			out[k] = r.classes[k]
		}
	}
	cov := map[string]any{
		"samples":          r.samples,
		"rule":             r.check.Rule,
		"spaces":           r.spaces,
		"outcome_classes":  out,
		"distinct_classes": len(classes),
		"exhaustive":       !r.capped.Load() && status == "ok",
	}
	if r.check.Level == "model_checking" {
		cov["states"] = r.states.Load()
		cov["transitions"] = r.transitions.Load()
		cov["traces_validated_against_impl"] = r.traces.Load()
		cov["implementation_runs"] = r.evals.Load()
	} else {
		cov["evaluations"] = r.evals.Load()
		cov["distinct_nontrivial"] = len(r.distinct)
		if r.states.Load() > 0 {
			cov["model_states"] = r.states.Load()
			cov["model_transitions"] = r.transitions.Load()
		}
	}
	if len(r.samples) == 0 {
		cov["samples"] = []any{r.spaces}
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	e := map[string]any{
		"property": r.check.ID, "tier": r.tier, "seed": seed(), "level": r.check.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": len(r.violations),
		"assumptions": r.check.Assum,
	}
	writeJSON(filepath.Join(verifDir(), "evidence", r.check.ID+".json"), e)
}

func writeJSON(path string, v any) {
	os.MkdirAll(filepath.Dir(path), 0755)
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
}

func replayFile(v Violation) string {
	h := fnv.New32a()
	h.Write([]byte(v.Oracle + v.Arg + v.Input))
	path := filepath.Join(verifDir(), "evidence", fmt.Sprintf("%s-%08x.replay.json", v.Property, h.Sum32()))
	writeJSON(path, v)
	return path
}

// ---- child process

func worker(id, tier string) int {
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	r := newR(c, tier)
	go r.watchdog()
	c.Run(r)
	r.probeKnown()
	r.merge()
	r.evidence("ok")
	for _, v := range r.violations {
		fmt.Fprintf(real.out, "%s: %s %s\n", id, v.Oracle, shown(v.Arg))
		fmt.Fprintf(real.out, "%s\n", shown(trim(v.Error, 3000)))
		fmt.Fprintf(real.out, "VIOLATION property=%s replay=%s\n", id, replayFile(v))
		return 1
	}
	fmt.Fprintf(real.out, "%s: %d cases, %d states, %d transitions, %d outcome classes, exhaustive=%v, %.1fs\n", id, r.evals.Load(), r.states.Load(), r.transitions.Load(), len(r.classes), !r.capped.Load(), time.Since(r.start).Seconds())
	return 0
}

// ---- supervisor

func supervise(id, tier string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-slots-")
	if err != nil {
		dir = filepath.Join(verifDir(), "evidence")
	} else {
		defer os.RemoveAll(dir)
	}
	self, _ := os.Executable()
	code := 0
	for attempt := 0; attempt < 2; attempt++ {
		cmd := exec.Command(self, "worker", id, tier)
		cmd.Env = append(os.Environ(), "MC_SLOTS="+dir, "MC_SCRATCH="+dir)
		if attempt == 1 { // the crash was not one case's: rule out an effect between the workers
			cmd.Env = append(cmd.Env, "MC_SINGLE=1")
		}
		cmd.Stdout = os.Stdout
		var errbuf strings.Builder
		cmd.Stderr = &limited{w: &errbuf, n: 1 << 20}
		cmd.Run()
		code = cmd.ProcessState.ExitCode()
		if os.Getenv("MC_TRACE") != "" {
			fmt.Print(errbuf.String())
		}
		if code == 0 || code == 1 {
			return code
		}
		fmt.Printf("%s: worker ended with %d: %s\n", id, code, shown(trim(errbuf.String(), 1500)))
		// the worker crashed or hung: replay the cases that were in progress
		for i := 0; i < 64; i++ {
			name, input, arg, ok := readSlot(slotFile(dir, i))
			if !ok {
				continue
			}
			v := Violation{Property: id, Oracle: name, Arg: arg, Input: hex.EncodeToString(input), Note: "process crash or hang"}
			bad := 0
			for k := 0; k < 3; k++ {
				x, msg := replayProcess(self, v, 90*time.Second)
				if x == 0 {
					break
				}
				v.Error = msg
				bad++
			}
			if bad == 3 {
				path := replayFile(v)
				writeJSON(filepath.Join(verifDir(), "evidence", id+".json"), map[string]any{
					"property": id, "tier": tier, "seed": seed(), "level": checks[id].Level, "wall_s": time.Since(start).Seconds(), "violations": 1,
					"coverage": map[string]any{"samples": []any{v}, "exhaustive": false, "rule": "ended at a crash or hang"},
				})
				fmt.Println(shown(trim(v.Error, 3000)))
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
				return 1
			}
		}
		if msg := errbuf.String(); (id == "P19" || id == "P23") && strings.Contains(msg, "fatal error: concurrent map") {
			v := Violation{Property: id, Oracle: "concurrency", Error: trim(msg, 3000), Note: "two operations at the same time share a map without synchronisation"}
			writeJSON(filepath.Join(verifDir(), "evidence", id+".json"), map[string]any{
				"property": id, "tier": tier, "seed": seed(), "level": checks[id].Level, "wall_s": time.Since(start).Seconds(), "violations": 1,
				"coverage": map[string]any{"samples": []any{v}, "exhaustive": false, "rule": "ended at a crash"},
			})
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayFile(v))
			return 1
		}
		fmt.Printf("%s: not reproducible, retrying\n", id)
	}
	fmt.Printf("%s: no verdict: worker ended with %d twice, without a reproducible case\n", id, code)
	return 2
}

type limited struct {
	w *strings.Builder
	n int
}

func (l *limited) Write(b []byte) (int, error) {
	if l.w.Len()+len(b) < l.n {
		l.w.Write(b)
	}
	return len(b), nil
}

func replayProcess(self string, v Violation, timeout time.Duration) (int, string) {
	f, err := os.CreateTemp("", "mc-replay-")
	if err != nil {
		return 0, ""
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(v)
	f.Write(b)
	f.Close()
	cmd := exec.Command(self, "replay", f.Name())
	var out strings.Builder
	cmd.Stdout = &limited{w: &out, n: 1 << 20}
	cmd.Stderr = &limited{w: &out, n: 1 << 20}
	cmd.Start()
	t := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	cmd.Wait()
	killed := !t.Stop()
	if killed {
		return 3, "did not return within " + timeout.String()
	}
	return cmd.ProcessState.ExitCode(), trim(out.String(), 4000)
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(real.out, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(real.out, err)
		return 2
	}
	input, _ := hex.DecodeString(v.Input)
	_, e := eval(v.Oracle, input, v.Arg)
	if e != nil {
		fmt.Fprintf(real.out, "%s %s: VIOLATED\n%v\n", v.Oracle, shown(v.Arg), shown(fmt.Sprint(e)))
		return 1
	}
	fmt.Fprintf(real.out, "%s %s: holds\n", v.Oracle, v.Arg)
	return 0
}

// Output is valid text whatever a message quotes.
func shown(s string) string {
	var b strings.Builder
	for i, c := range s {
		if c == utf8.RuneError || c < ' ' && c != '\n' && c != '\t' || c == 0x7f {
			fmt.Fprintf(&b, "\\x%02x", s[i])
		} else {
			b.WriteRune(c)
		}
	}
	return b.String()
}

// Package core is the common part of all checks: finite spaces of cases with
// random access by index, explored exhaustively by supervised worker processes.
package core

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Space is a finite set of cases.
type Space struct {
	Name    string
	N       int
	Run     func(i int, t *T)
	Show    func(i int) string
	Workers int           // 0: one per CPU
	Stall   time.Duration // no progress for this long is a hang (default 60 s)
}

// Check describes how one property is decided.
type Check struct {
	ID          string
	Bounds      string
	Assumptions []string
	Setup       func(e *Env) error
	Init        func(e *Env) // per worker process
	Spaces      func(e *Env) []Space
}

// Env is the environment of a check or of a worker.
type Env struct {
	Tier    string
	Scratch string // shared by all workers of the run
	Work    string // private to this process
	Repo    string
	Verif   string
	Worker  bool
}

// Thorough tells whether the deep tier runs.
func (e *Env) Thorough() bool { return e.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func Pick[X any](e *Env, q, th X) X {
	if e.Thorough() {
		return th
	}
	return q
}

// T collects what one worker observes.
type T struct {
	Env      *Env
	fail     string
	trans    int64
	traces   int64
	states   map[uint64]struct{}
	outcomes map[string]int64
	beat     *uint64
	known    []known
	hits     map[string]bool
	deadline int64
	cut      bool
}

// Late says that the time of the whole check is used up: a long case stops
// here and the space counts as incomplete.
func (t *T) Late() bool {
	if t.deadline > 0 && time.Now().Unix() >= t.deadline {
		t.cut = true
	}
	return t.cut
}

// Finding reports a disagreement that is exactly the documented behaviour of
// the known finding named key: if known_findings.json lists that key as open
// it is counted and not a violation, otherwise it is one.
func (t *T) Finding(key, f string, a ...any) {
	for _, k := range t.known {
		if k.Case == key {
			t.hits[k.What] = true
			t.Outcome("known finding: " + key)
			return
		}
	}
	t.Failf(f, a...)
}

// Failf records the first disagreement of the case.
func (t *T) Failf(f string, a ...any) {
	if t.fail == "" {
		t.fail = fmt.Sprintf(f, a...)
		if t.fail == "" {
			t.fail = "failed"
		}
	}
}

// Failed tells whether the case has already failed.
func (t *T) Failed() bool { return t.fail != "" }

// Trans counts operations executed on the real code.
func (t *T) Trans(n int) { t.trans += int64(n); t.Beat() }

// Trace counts complete executions compared with the model.
func (t *T) Trace() { t.traces++; t.Beat() }

// Beat tells the supervisor that the case makes progress.
func (t *T) Beat() { atomic.AddUint64(t.beat, 1) }

// fixed FNV-1a so that all workers agree
func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

var _ = maphash.Bytes

// State records a state (or observation) of the system under test.
func (t *T) State(s string) bool {
	h := hash(s)
	if _, ok := t.states[h]; ok {
		return false
	}
	if len(t.states) < 3000000 {
		t.states[h] = struct{}{}
	}
	return true
}

// Outcome counts a class of outcomes.
func (t *T) Outcome(s string) {
	if _, ok := t.outcomes[s]; !ok && len(t.outcomes) > 500 {
		s = "(other)"
	}
	t.outcomes[s]++
}

type workerResult struct {
	Cases    int64
	Next     int // first index not executed
	Done     bool
	Trans    int64
	Traces   int64
	Outcomes map[string]int64
	Hits     []string
	Fail     string
	FailIdx  int
	Failed   bool
}

type stats struct {
	mu       sync.Mutex
	cases    int64
	trans    int64
	traces   int64
	states   map[uint64]struct{}
	outcomes map[string]int64
}

// Violation of the property, or a candidate for one.
type Violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Space    string `json:"space"`
	Index    int    `json:"index"`
	Case     string `json:"case"`
	Detail   string `json:"detail"`
	Kind     string `json:"kind"`
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "check error:", err)
		os.Exit(3)
	}
}

// Main is the entry point of every check program.
//
//	prog run TIER SCRATCH | prog replay FILE SCRATCH | prog worker ... | prog one ...
func Main(c Check) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: run TIER SCRATCH | replay FILE SCRATCH")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "worker":
		worker(c)
	case "run":
		supervise(c, os.Args[2], os.Args[3])
	case "replay":
		replay(c, os.Args[2], os.Args[3])
	}
}

func newEnv(tier, scratch string, w bool, name string) *Env {
	e := &Env{Tier: tier, Scratch: scratch, Repo: "/repo", Verif: "/verif", Worker: w}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		e.Verif = v
	}
	e.Work = filepath.Join(scratch, "work-"+name)
	must(os.MkdirAll(e.Work, 0777))
	return e
}

// worker TIER SCRATCH SPACE FROM STEP NAME DEADLINE MODE
func worker(c Check) {
	a := os.Args[2:]
	tier, scratch, spaceName := a[0], a[1], a[2]
	from, _ := strconv.Atoi(a[3])
	step, _ := strconv.Atoi(a[4])
	name := a[5]
	deadline, _ := strconv.ParseInt(a[6], 10, 64)
	one := a[7] == "one"
	debug.SetGCPercent(200)
	debug.SetTraceback("all")
	lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	e := newEnv(tier, scratch, true, name)
	pf, err := os.OpenFile(filepath.Join(scratch, "progress-"+name), os.O_RDWR|os.O_CREATE, 0600)
	must(err)
	must(pf.Truncate(16))
	mem, err := syscall.Mmap(int(pf.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	cur := (*uint64)(unsafe.Pointer(&mem[0]))
	t := &T{Env: e, states: map[uint64]struct{}{}, outcomes: map[string]int64{}, beat: (*uint64)(unsafe.Pointer(&mem[8])), known: loadKnown(e, c.ID), hits: map[string]bool{}, deadline: deadline}
	if c.Init != nil {
		c.Init(e)
	}
	var sp *Space
	for _, s := range c.Spaces(e) {
		if s.Name == spaceName {
			s := s
			sp = &s
		}
	}
	if sp == nil {
		must(fmt.Errorf("no space %q", spaceName))
	}
	res := workerResult{Next: from, FailIdx: -1}
	i := from
	for ; i < sp.N; i += step {
		if deadline > 0 && time.Now().Unix() >= deadline {
			break
		}
		atomic.StoreUint64(cur, uint64(i)+1)
		t.fail = ""
		runCase(sp, i, t)
		if t.cut && t.fail == "" {
			break
		}
		res.Cases++
		if t.fail != "" {
			res.Failed, res.Fail, res.FailIdx = true, t.fail, i
			i += step
			break
		}
		if one {
			i += step
			break
		}
	}
	res.Next = i
	res.Done = i >= sp.N
	res.Trans, res.Traces, res.Outcomes = t.trans, t.traces, t.outcomes
	for h := range t.hits {
		res.Hits = append(res.Hits, h)
	}
	f, err := os.Create(filepath.Join(scratch, "states-"+name))
	must(err)
	bw := bufio.NewWriter(f)
	var b [8]byte
	for h := range t.states {
		binary.LittleEndian.PutUint64(b[:], h)
		bw.Write(b[:])
	}
	bw.Flush()
	f.Close()
	j, _ := json.Marshal(res)
	must(os.WriteFile(filepath.Join(scratch, "result-"+name), j, 0600))
	os.Exit(0)
}

func runCase(sp *Space, i int, t *T) {
	defer func() {
		if r := recover(); r != nil {
			t.Failf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	sp.Run(i, t)
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 30 {
		l = l[:30]
	}
	return strings.Join(l, "\n")
}

type sup struct {
	c        Check
	env      *Env
	deadline time.Time
	st       *stats
	mu       sync.Mutex
	viol     *Violation
	flaky    []Violation
	known    []known
	knownHit map[string]bool
	samples  []any
	perSpace []map[string]any
	exh      bool
	seq      int64
}

type known struct {
	Property string `json:"property"`
	Space    string `json:"space"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func loadKnown(e *Env, id string) (out []known) {
	b, err := os.ReadFile(filepath.Join(e.Verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var all struct {
		Findings []known `json:"findings"`
	}
	must(json.Unmarshal(b, &all))
	for _, k := range all.Findings {
		if k.Property == id && k.Status == "open" {
			out = append(out, k)
		}
	}
	return out
}

// runWorker starts one worker and waits for it; kind is "" if it ended by itself.
func (s *sup) runWorker(sp *Space, from, step int, name string, mode string) (res *workerResult, kind, detail string, cur int) {
	for _, p := range []string{"progress-", "result-", "states-"} {
		os.Remove(filepath.Join(s.env.Scratch, p+name))
	}
	dl := int64(0)
	if !s.deadline.IsZero() && mode != "one" {
		dl = s.deadline.Unix()
	}
	cmd := exec.Command(os.Args[0], "worker", s.env.Tier, s.env.Scratch, sp.Name, strconv.Itoa(from), strconv.Itoa(step), name, strconv.FormatInt(dl, 10), mode)
	errf, err := os.Create(filepath.Join(s.env.Scratch, "stderr-"+name))
	must(err)
	cmd.Stderr = errf
	cmd.Stdin = nil
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	stall := sp.Stall
	if stall == 0 {
		stall = 60 * time.Second
	}
	last, lastAt := [16]byte{}, time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	hung := false
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			b, _ := os.ReadFile(filepath.Join(s.env.Scratch, "progress-"+name))
			var now [16]byte
			copy(now[:], b)
			if now != last {
				last, lastAt = now, time.Now()
			} else if time.Since(lastAt) > stall && !hung {
				hung = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			}
			s.mu.Lock()
			stop := s.viol != nil
			s.mu.Unlock()
			if stop && mode != "one" {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				errf.Close()
				return nil, "stopped", "", from
			}
		}
	}
	errf.Close()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	b, _ := os.ReadFile(filepath.Join(s.env.Scratch, "progress-"+name))
	if len(b) >= 8 {
		cur = int(binary.LittleEndian.Uint64(b)) - 1
	}
	if rb, err := os.ReadFile(filepath.Join(s.env.Scratch, "result-"+name)); err == nil && !hung {
		res = &workerResult{}
		must(json.Unmarshal(rb, res))
		return res, "", "", cur
	}
	eb, _ := os.ReadFile(filepath.Join(s.env.Scratch, "stderr-"+name))
	es := string(eb)
	if len(es) > 4000 {
		es = es[:2000] + "\n...\n" + es[len(es)-2000:]
	}
	if hung {
		return nil, "hang", fmt.Sprintf("no progress for %v; killed\n%s", stall, es), cur
	}
	return nil, "crash", fmt.Sprintf("worker ended: %v\n%s", werr, es), cur
}

func (s *sup) merge(name string, res *workerResult) {
	s.st.mu.Lock()
	defer s.st.mu.Unlock()
	s.st.cases += res.Cases
	s.st.trans += res.Trans
	s.st.traces += res.Traces
	for k, v := range res.Outcomes {
		s.st.outcomes[k] += v
	}
	s.mu.Lock()
	for _, h := range res.Hits {
		s.knownHit[h] = true
	}
	s.mu.Unlock()
	b, _ := os.ReadFile(filepath.Join(s.env.Scratch, "states-"+name))
	for i := 0; i+8 <= len(b); i += 8 {
		s.st.states[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

// confirm re-executes a failing case in fresh processes.
func (s *sup) confirm(sp *Space, idx int, kind, detail string) {
	v := Violation{Property: s.c.ID, Tier: s.env.Tier, Space: sp.Name, Index: idx, Case: show(sp, idx), Detail: detail, Kind: kind}
	for _, k := range s.known {
		if k.Space == sp.Name && k.Case == v.Case {
			s.mu.Lock()
			s.knownHit[k.What] = true
			s.mu.Unlock()
			return
		}
	}
	n := 5
	if kind == "hang" {
		n = 2
	}
	again := 0
	for k := 0; k < n; k++ {
		s.mu.Lock()
		stop := s.viol != nil
		s.mu.Unlock()
		if stop {
			return
		}
		name := fmt.Sprintf("confirm-%d", atomic.AddInt64(&s.seq, 1))
		res, kd, det, _ := s.runWorker(sp, idx, sp.N+1, name, "one")
		if res != nil && res.Failed {
			v.Detail = res.Fail
			again++
		} else if res == nil && kd != "" {
			v.Detail = det
			again++
		}
		if again >= 2 || (again == 1 && kind == "hang") {
			break
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if again > 0 {
		if s.viol == nil {
			s.viol = &v
		}
	} else {
		s.flaky = append(s.flaky, v)
	}
}

func show(sp *Space, i int) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("case %d (%v)", i, r)
		}
	}()
	if sp.Show == nil {
		return fmt.Sprintf("case %d", i)
	}
	return sp.Show(i)
}

func (s *sup) stopped() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.viol != nil
}

func (s *sup) runSpace(sp *Space) {
	t0 := time.Now()
	w := sp.Workers
	if w == 0 {
		w = runtime.NumCPU()
	}
	if w > sp.N {
		w = sp.N
	}
	before := s.st.cases
	beforeStates := len(s.st.states)
	complete := int64(1)
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			from := k
			for !s.stopped() && from < sp.N {
				name := fmt.Sprintf("w%d", k)
				res, kind, detail, cur := s.runWorker(sp, from, w, name, "all")
				if kind == "stopped" {
					return
				}
				if res != nil {
					s.merge(name, res)
					if res.Failed {
						s.confirm(sp, res.FailIdx, "mismatch", res.Fail)
					} else if !res.Done {
						atomic.StoreInt64(&complete, 0)
						return
					}
					from = res.Next
					continue
				}
				if cur < 0 { // never reached a case
					must(fmt.Errorf("worker failed before its first case: %s: %s", kind, detail))
				}
				s.confirm(sp, cur, kind, detail)
				from = cur + w
			}
		}(k)
	}
	wg.Wait()
	if s.stopped() {
		complete = 0
	}
	if complete == 0 {
		s.exh = false
	}
	s.perSpace = append(s.perSpace, map[string]any{
		"space": sp.Name, "cases": sp.N, "executed": s.st.cases - before, "complete": complete == 1,
		"new_states": len(s.st.states) - beforeStates, "seconds": float64(int(time.Since(t0).Seconds()*10)) / 10,
	})
	for _, i := range []int{0, sp.N / 2, sp.N - 1} {
		if i >= 0 && i < sp.N {
			s.samples = append(s.samples, map[string]any{"space": sp.Name, "index": i, "case": clip(show(sp, i), 600)})
		}
		if sp.N < 3 {
			break
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func supervise(c Check, tier, scratch string) {
	t0 := time.Now()
	s := &sup{c: c, env: newEnv(tier, scratch, false, "sup"), exh: true, knownHit: map[string]bool{},
		st: &stats{states: map[uint64]struct{}{}, outcomes: map[string]int64{}}}
	budget := 600 * time.Second
	if s.env.Thorough() {
		budget = 3 * time.Hour
	}
	if v := os.Getenv("VERIF_BUDGET_S"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	s.deadline = t0.Add(budget)
	s.known = loadKnown(s.env, c.ID)
	if c.Setup != nil {
		must(c.Setup(s.env))
	}
	if c.Init != nil {
		c.Init(s.env)
	}
	only := os.Getenv("VERIF_SPACE")
	names := map[string]bool{}
	for _, sp := range c.Spaces(s.env) {
		sp := sp
		if names[sp.Name] {
			must(fmt.Errorf("duplicate space %s", sp.Name))
		}
		names[sp.Name] = true
		if only != "" && only != sp.Name {
			s.exh = false
			continue
		}
		if s.stopped() {
			break
		}
		s.runSpace(&sp)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	keys := make([]string, 0, len(s.st.outcomes))
	for k := range s.st.outcomes {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := s.st.outcomes[keys[i]], s.st.outcomes[keys[j]]
		return a > b || a == b && keys[i] < keys[j]
	})
	top := map[string]int64{}
	for i, k := range keys {
		if i < 25 {
			top[k] = s.st.outcomes[k]
		}
	}
	if len(s.samples) > 40 {
		s.samples = s.samples[:40]
	}
	nv := 0
	if s.viol != nil {
		nv = 1
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": len(s.st.states), "transitions": s.st.trans, "traces_validated_against_impl": s.st.traces,
			"cases": s.st.cases, "distinct_outcome_classes": len(s.st.outcomes), "outcomes": top, "bounds": c.Bounds,
			"spaces": s.perSpace, "samples": s.samples, "exhaustive": s.exh, "unreproduced": s.flaky,
		},
		"assumptions": c.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nv,
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	must(os.MkdirAll(filepath.Join(s.env.Verif, "evidence"), 0777))
	must(os.WriteFile(filepath.Join(s.env.Verif, "evidence", c.ID+".json"), j, 0666))
	for _, k := range s.known {
		if s.knownHit[k.What] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.What)
		}
	}
	for _, f := range s.flaky {
		fmt.Fprintf(os.Stderr, "note: not reproduced, not reported: %s %s: %s\n", f.Space, f.Case, clip(f.Detail, 500))
	}
	if s.viol != nil {
		dir := filepath.Join(s.env.Verif, "replays")
		must(os.MkdirAll(dir, 0777))
		p := filepath.Join(dir, c.ID+".json")
		j, _ := json.MarshalIndent(s.viol, "", " ")
		must(os.WriteFile(p, j, 0666))
		fmt.Printf("%s: %s\ncase: %s\n%s\n", s.viol.Kind, s.viol.Space, s.viol.Case, clip(s.viol.Detail, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		os.Exit(1)
	}
	fmt.Printf("%s %s: held on %d cases, %d states, %d transitions, exhaustive=%v, %.1fs\n", c.ID, tier, s.st.cases, len(s.st.states), s.st.trans, s.exh, time.Since(t0).Seconds())
}

func replay(c Check, file, scratch string) {
	b, err := os.ReadFile(file)
	must(err)
	var v Violation
	must(json.Unmarshal(b, &v))
	s := &sup{c: c, env: newEnv(v.Tier, scratch, false, "sup"), exh: true, knownHit: map[string]bool{},
		st: &stats{states: map[uint64]struct{}{}, outcomes: map[string]int64{}}}
	if c.Setup != nil {
		must(c.Setup(s.env))
	}
	if c.Init != nil {
		c.Init(s.env)
	}
	for _, sp := range c.Spaces(s.env) {
		if sp.Name != v.Space {
			continue
		}
		sp := sp
		fmt.Println("case:", show(&sp, v.Index))
		res, kind, det, _ := s.runWorker(&sp, v.Index, sp.N+1, "replay", "one")
		if res != nil && !res.Failed {
			fmt.Println("holds")
			return
		}
		if res != nil {
			det = res.Fail
		}
		fmt.Println(kind, det)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, file)
		os.Exit(1)
	}
	must(fmt.Errorf("no such space"))
}

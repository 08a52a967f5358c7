// Command simh runs simulated executions of sugarme/tokenizer. One case is one
// seeded workload, schedule and fault sequence; see /verif/DESIGN.md.
package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync/atomic"
	"syscall"
)

// splitmix
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Sched is the scheduler configuration of a case.
type Sched struct {
	Seed     uint64 `json:"seed"`
	Strategy int    `json:"strategy"`
	PNum     uint32 `json:"pnum"`
	PDen     uint32 `json:"pden"`
	Changes  int    `json:"changes"`
	Horizon  uint64 `json:"horizon"`
	Tick     uint32 `json:"tick"`
	StallNum uint32 `json:"stall_num"`
	StallDen uint32 `json:"stall_den"`
}

// Case is everything a simulated run is a function of (with the code).
type Case struct {
	Check     string       `json:"check"`
	Seed      uint64       `json:"seed"`
	Draws     []int        `json:"draws,omitempty"` // recorded workload and fault choices
	UseDraws  bool         `json:"use_draws"`
	Sched     Sched        `json:"sched"`
	Decisions []Decision   `json:"decisions,omitempty"` // scheduling decisions other than the default
	UseDec    bool         `json:"use_decisions"`
	Session   *SessionSpec `json:"session,omitempty"` // rerun a whole worker session instead
	Carry     bool         `json:"carry"`             // package-level variables keep what earlier runs left
	_         [0]func()
}

// SessionSpec names a run inside a worker's sequence of runs.
type SessionSpec struct {
	Seed   uint64 `json:"seed"`
	Worker int    `json:"worker"`
	From   int    `json:"from"`
	Upto   int    `json:"upto"`
	Tier   string `json:"tier"`
	Runs   []int  `json:"runs,omitempty"` // these runs in this order instead of From..Upto
}

// Decision is one scheduling choice.
type Decision struct {
	Idx    uint32 `json:"i"`
	Choice uint32 `json:"c"`
	From   uint32 `json:"from"`
	To     uint32 `json:"to"`
	Site   string `json:"at,omitempty"`
}

// Violation is a failed check.
type Violation struct {
	Class string `json:"class"`
	Key   string `json:"key"` // identifies the failing call for known findings
	Msg   string `json:"msg"`
}

// Result is what one run did.
type Result struct {
	Violations []Violation    `json:"violations,omitempty"`
	Draws      []int          `json:"draws,omitempty"`
	Sched      Sched          `json:"sched"`
	Decisions  []Decision     `json:"decisions,omitempty"`
	DecFull    bool           `json:"dec_full"` // the decision list is complete
	Desc       []string       `json:"desc,omitempty"`
	Faults     map[string]int `json:"faults,omitempty"`
	Probes     map[string]int `json:"probes,omitempty"`
	Stats      runtime.SimStats
	CaseHash   uint64   `json:"case_hash"`
	SimNs      int64    `json:"sim_ns"`
	Skip       string   `json:"skip,omitempty"`
	Recycle    bool     `json:"recycle,omitempty"`
	Notes      []string `json:"notes,omitempty"`
}

// R is the context of one run.
type R struct {
	fresh   bool // references are made in the state of a new process
	inApart bool

	short   bool // no long words and texts
	c       *Case
	res     *Result
	draw    rng
	pos     int
	tier    string
	dir     string // scratch directory of the run
	base    int    // simulated goroutines that may stay alive
	limit   uint64 // of steps in the next phase, 0: the usual one
	all     []*Client
	cur     []*Client
	nclient int
}

type abort struct{ why string }

// N draws from [0,n); 0 is the simplest choice.
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	if r.c.UseDraws {
		if r.pos < len(r.c.Draws) {
			v = r.c.Draws[r.pos] % n
			if v < 0 {
				v = 0
			}
		}
	} else {
		v = int(r.draw.next()>>1) % n
		if v < 0 {
			v = -v
		}
	}
	r.pos++
	if len(r.res.Draws) < 1<<20 {
		r.res.Draws = append(r.res.Draws, v)
	}
	return v
}

// Chance is true with probability about num/den.
func (r *R) Chance(num, den int) bool { return r.N(den) >= den-num }

// Range draws from [lo,hi].
func (r *R) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.N(hi-lo+1)
}

// Edge draws a size at or next to a power of two, where a program may have its limits.
func (r *R) Edge(lo, hi int) int {
	n := pick(r, []int{16, 32, 64, 100, 128, 256, 512, 1000, 1024}) - 1 + r.N(3)
	return max(lo, min(n, hi))
}

// Small draws from [0,n) with small values more likely.
func (r *R) Small(n int) int {
	switch r.N(4) {
	case 0:
		return r.N(min(n, 2))
	case 1:
		return r.N(min(n, 4))
	case 2:
		return r.N(min(n, 10))
	}
	return r.N(n)
}

func pick[T any](r *R, l []T) T { return l[r.N(len(l))] }

func (r *R) Desc(f string, a ...any) {
	if len(r.res.Desc) < 400 {
		s := strings.ReplaceAll(fmt.Sprintf(f, a...), r.dir, "DIR")
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		r.res.Desc = append(r.res.Desc, s)
	}
}

func (r *R) Probe(name string)         { r.res.Probes[name]++ }
func (r *R) ProbeN(name string, n int) { r.res.Probes[name] += n }

// Fail records a violation of the property.
func (r *R) Fail(class, f string, a ...any) { r.FailKey(class, "", f, a...) }

func (r *R) FailKey(class, key, f string, a ...any) {
	if len(r.res.Violations) < 20 {
		s := strings.ReplaceAll(fmt.Sprintf(f, a...), r.dir, "DIR")
		if len(s) > 3000 {
			s = s[:3000] + "…"
		}
		r.res.Violations = append(r.res.Violations, Violation{class, key, s})
	}
}

// Skip ends the run without a verdict (the generated case is outside the
// property's precondition).
func (r *R) Skip(f string, a ...any) {
	r.res.Skip = fmt.Sprintf(f, a...)
	panic(abort{"skip"})
}

// Note records a result that must not depend on what the process did before
// the run.
func (r *R) Note(what, result string) {
	if !*fNotes {
		return
	}
	if len(result) > 1200 {
		h := fnv.New64a()
		h.Write([]byte(result))
		result = fmt.Sprintf("%s… (%d bytes, hash %x)", result[:1200], len(result), h.Sum64())
	}
	r.res.Notes = append(r.res.Notes, what+" -> "+strings.ReplaceAll(result, r.dir, "DIR"))
}

// Stop ends the run (after violations).
func (r *R) Stop() { panic(abort{"stop"}) }

// Client is one simulated caller.
type Client struct {
	name  string
	done  atomic.Bool
	panic string
	exit  bool
	gid   uint32
}

// Go starts a simulated caller; it runs when the driver waits.
func (r *R) Go(name string, fn func()) *Client {
	c := &Client{name: name}
	r.cur = append(r.cur, c)
	go func() {
		c.gid = runtime.SimGid()
		defer func() {
			if x := recover(); x != nil {
				c.panic = fmt.Sprintf("%v\n%s", x, trimStack(debug.Stack()))
				c.done.Store(true)
			}
		}()
		fn()
		c.done.Store(true)
	}()
	return c
}

func trimStack(b []byte) string {
	var out []string
	l := strings.Split(string(b), "\n")
	for i := 0; i+1 < len(l); i++ {
		if strings.HasPrefix(l[i], "\t") {
			continue
		}
		if strings.HasPrefix(l[i], "runtime") || strings.HasPrefix(l[i], "panic(") || strings.HasPrefix(l[i], "goroutine ") || strings.HasPrefix(l[i], "main.") {
			continue
		}
		loc := strings.TrimSpace(l[i+1])
		if j := strings.Index(loc, " +0x"); j > 0 {
			loc = loc[:j]
		}
		fn := l[i]
		if j := strings.LastIndex(fn, "("); j > 0 {
			fn = fn[:j]
		}
		out = append(out, fn+" "+loc)
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

const (
	phaseBudget = 60_000_000
	aloneBudget = 2_000_000
)

// Outcome of a phase.
type Outcome struct {
	Status int // 0 fine, 1 timers never stop, 2 step budget exhausted
	Exits  []exitRec
	Leaked int
	Stuck  []string
	Panics []string
	Stacks string
}

func (o *Outcome) OK() bool {
	return o.Status == 0 && len(o.Exits) == 0 && len(o.Stuck) == 0 && len(o.Panics) == 0
}

func (o *Outcome) String() string {
	var s []string
	if o.Status == 2 {
		s = append(s, "step budget exhausted")
	}
	for _, e := range o.Exits {
		s = append(s, fmt.Sprintf("process exit(%d): %s", e.code, e.stack))
	}
	if len(o.Stuck) > 0 {
		s = append(s, fmt.Sprintf("never returned: %v status %d %s", o.Stuck, o.Status, o.Stacks))
	}
	s = append(s, o.Panics...)
	if o.Leaked > 0 {
		s = append(s, fmt.Sprintf("%d goroutines left", o.Leaked))
	}
	return strings.Join(s, "; ")
}

// Wait runs the clients started since the last Wait to quiescence.
func (r *R) Wait() *Outcome {
	before := len(exits)
	budget := uint64(phaseBudget)
	if r.limit != 0 {
		budget = r.limit
	}
	runtime.SimPhase(budget, r.base)
	st := runtime.SimWait()
	if os.Getenv("SIMDBG") != "" {
		fmt.Fprintf(os.Stderr, "phase %s: %d steps\n", r.cur[0].name, runtime.SimSteps())
	}
	o := &Outcome{Status: st}
	if st == 1 {
		o.Status = 0
	}
	o.Exits = append(o.Exits, exits[before:]...)
	for _, c := range r.cur {
		switch {
		case c.done.Load() && c.panic != "":
			o.Panics = append(o.Panics, c.name+": "+c.panic)
		case !c.done.Load():
			o.Stuck = append(o.Stuck, c.name)
			if o.Stacks == "" && st == 0 {
				buf := make([]byte, 1<<16)
				o.Stacks = string(buf[:runtime.Stack(buf, true)])
			}
		}
	}
	r.cur = nil
	o.Leaked = runtime.SimAlive() - 1 - r.base
	return o
}

// Do runs fn alone as one client.
func (r *R) Do(name string, fn func()) *Outcome {
	r.Go(name, fn)
	return r.Wait()
}

// Alone is Do for a reference. A run whose references are too expensive is given up.
func (r *R) Alone(fn func()) *Outcome {
	r.limit = aloneBudget
	o := r.Do("alone", fn)
	r.limit = 0
	if o.Status == 2 {
		r.Skip("too expensive alone")
	}
	return o
}

// Rebase accepts the goroutines alive now as permanent (Unigram's cache janitor).
func (r *R) Rebase() { r.base = runtime.SimAlive() - 1 }

// WaitBg ends a phase whose clients may start permanent goroutines (a Unigram
// model's janitor): it does not wait for timers, and accepts what is left.
func (r *R) WaitBg() *Outcome {
	r.base = 1 << 20
	o := r.Wait()
	r.Rebase()
	o.Leaked = 0
	return o
}

// DoBg is Do for an operation that may start permanent goroutines.
func (r *R) DoBg(name string, fn func()) *Outcome {
	r.Go(name, fn)
	return r.WaitBg()
}

// Setup runs library code the property is not about; trouble there ends the case.
func (r *R) Setup(name string, fn func()) {
	// background goroutines it starts are allowed: do not wait for timers
	base := r.base
	r.base = 1 << 20
	r.Go(name, fn)
	o := r.Wait()
	r.base = base
	if !o.OK() {
		r.Skip("setup %s: %s", name, o)
	}
	r.Rebase()
}

// Fresh puts the package-level variables of the library in the state of a new
// process. No object of the library made before may be used after it.
func (r *R) Fresh() {
	r.Setup("new process state", func() {
		for _, f := range runtime.SimResets {
			f()
		}
	})
	runtime.SimForget()
}

// Apart is for references: fn runs with the package-level variables of the
// library as in a new process, and leaves no trace in them. No object of the
// library may be used both in fn and outside it.
func (r *R) Apart(fn func()) {
	if !r.apart() {
		fn()
		return
	}
	saved := runtime.SimSave()
	defer runtime.SimRestore(saved)
	r.inApart = true
	defer func() { r.inApart = false }()
	r.Fresh()
	fn()
	r.Rebase()
}

// apart tells whether references need objects of their own.
func (r *R) apart() bool { return r.fresh && !r.inApart && len(runtime.SimResets) > 0 }

// Judge turns a bad phase outcome into violations. It reports whether the run can go on.
func (r *R) Judge(o *Outcome, what string, leaks bool) bool {
	for _, e := range o.Exits {
		r.FailKey("exit", e.key, "%s: the library ended the process with exit code %d at\n%s", what, e.code, e.stack)
	}
	for _, p := range o.Panics {
		r.Fail("panic", "%s: panic in %s", what, p)
	}
	if o.Status == 2 {
		r.Fail("hang", "%s: still running after the steps allowed: %v", what, o.Stuck)
	} else if len(o.Stuck) > 0 && len(o.Exits) == 0 {
		r.Fail("deadlock", "%s: blocked for ever: %v\n%s", what, o.Stuck, o.Stacks)
	} else if leaks && o.Leaked > 0 && o.OK() {
		r.Fail("leak", "%s: %d goroutines started by the operation are still there after it returned", what, o.Leaked)
	}
	return o.OK()
}

type exitRec struct {
	code  int
	stack string
	key   string
}

var (
	exits     []exitRec
	exitArmed bool
)

// onExit stands for the end of the process: the calling goroutine ends here.
func onExit(code int) {
	if !exitArmed || runtime.SimGid() == 0 {
		return
	}
	st := trimStack(debug.Stack())
	key := ""
	for _, l := range strings.Split(st, "\n") {
		f := strings.Fields(l)
		if len(f) > 0 && strings.Contains(f[0], "sugarme/tokenizer") {
			key = "exit:" + strings.TrimPrefix(f[0], "github.com/sugarme/")
			break
		}
	}
	recordExit(code, st, key)
	runtime.Goexit()
}

//go:norace
func recordExit(code int, st, key string) { exits = append(exits, exitRec{code, st, key}) }

// CheckFn is one property's workload and oracle.
type CheckFn func(r *R)

var checks = map[string]CheckFn{}

var (
	siteNames []string
	siteHit   []uint8
	decBuf    = make([]runtime.SimDecision, 1<<16)
	scratch   string
	runNo     int
	raceBase  int
	seqNo     uint64
)

//go:norace
func tick() int64 { seqNo++; return int64(seqNo) }

// RunCase performs one simulated run.
func RunCase(c *Case, tier string) *Result {
	res := runCase(c, tier, false)
	if len(runtime.SimResets) == 0 || !res.has("leak", "running") {
		return res
	}
	// goroutines kept in a package-level variable for all later calls, like the
	// workers of a pool, are no leak: there are no more of them the second time
	again := runCase(c, tier, true)
	if !again.has("leak", "running") {
		var vs []Violation
		for _, v := range res.Violations {
			if v.Class != "leak" && v.Class != "running" {
				vs = append(vs, v)
			}
		}
		res.Violations = vs
	}
	res.Recycle = true
	return res
}

func (res *Result) has(classes ...string) bool {
	for _, v := range res.Violations {
		if slices.Contains(classes, v.Class) {
			return true
		}
	}
	return false
}

func runCase(c *Case, tier string, again bool) *Result {
	fn := checks[c.Check]
	if fn == nil {
		fatalf("unknown check %q", c.Check)
	}
	res := &Result{Faults: map[string]int{}, Probes: map[string]int{}, Sched: c.Sched}
	r := &R{c: c, res: res, draw: rng{mix(c.Seed)}, tier: tier}
	runNo++
	r.dir = fmt.Sprintf("%s/r", scratch)
	must(os.RemoveAll(r.dir))
	must(os.MkdirAll(r.dir, 0o755))
	cfg := runtime.SimConfig{
		Seed: c.Sched.Seed, Strategy: c.Sched.Strategy, PNum: c.Sched.PNum, PDen: c.Sched.PDen,
		Changes: c.Sched.Changes, Horizon: c.Sched.Horizon, MaxSteps: phaseBudget, MaxIdle: 1 << 14,
		TickMax: c.Sched.Tick, StallNum: c.Sched.StallNum, StallDen: c.Sched.StallDen,
		Log: decBuf,
	}
	if c.UseDec {
		cfg.UseReplay = true
		for _, d := range c.Decisions {
			cfg.Replay = append(cfg.Replay, runtime.SimDecision{Idx: d.Idx, Choice: d.Choice})
		}
	}
	if os.Getenv("SIMTRACE") != "" {
		if runtime.SimTrace == nil {
			runtime.SimTrace = make([]uint32, 1<<20)
		}
	}
	exits = exits[:0]
	exitArmed = true
	fsReset(r.dir)
	netReset()
	seqNo = 0
	g0 := runtime.NumGoroutine()
	raceBase = runtime.RaceErrors()
	simClock += 1_000_000_000
	runtime.SimCPUs(pick(r, []int{4, 1, 2, 3, 8, 16}))
	r.fresh = !*fNotes && mix(c.Seed^0xf8)&1 == 0 && !again
	runtime.SimStart(&cfg, simClock, wallStart)
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(abort); !ok {
					res.Violations = append(res.Violations, Violation{"harness", "", fmt.Sprintf("harness panic: %v\n%s", x, debug.Stack())})
				}
			}
		}()
		if !*fNotes && !c.Carry && !again && len(runtime.SimResets) > 0 {
			r.Fresh()
		}
		fn(r)
	}()
	now := runtime.SimNow()
	res.Stats = runtime.SimStop()
	res.SimNs = now - simClock
	res.Stats.Clock = res.SimNs // no run depends on those before it
	simClock = now
	if fsStop() {
		res.Recycle = true
	}
	netStop()
	fsCounts(res.Faults)
	if n := runtime.RaceErrors() - raceBase; n > 0 {
		res.Violations = append(res.Violations, Violation{"race", "", fmt.Sprintf("%d data races reported by the race detector", n)})
	}
	if res.Stats.Stalls > 0 {
		res.Faults["goroutine stall"] += int(res.Stats.Stalls)
	}
	if res.Skip != "" && len(res.Violations) > 0 && res.Violations[0].Class != "harness" {
		onlyRace := true
		for _, v := range res.Violations {
			if v.Class != "race" {
				onlyRace = false
			}
		}
		if !onlyRace {
			res.Skip = ""
		}
	}
	n := res.Stats.Logged
	res.DecFull = n < len(decBuf)
	for _, d := range decBuf[:n] {
		s := ""
		if int(d.Site) > 0 && int(d.Site) <= len(siteNames) {
			s = siteNames[d.Site-1]
		}
		res.Decisions = append(res.Decisions, Decision{d.Idx, d.Choice, d.From, d.To, s})
	}
	h := fnv.New64a()
	for _, d := range res.Draws {
		h.Write([]byte{byte(d), byte(d >> 8), byte(d >> 16)})
	}
	res.CaseHash = h.Sum64()
	if os.Getenv("SIMDESC") != "" {
		fmt.Fprintf(os.Stderr, "run %d draws %v\n%s\n", runNo, res.Draws, strings.Join(res.Desc, "\n"))
	}
	if runtime.SimTrace != nil {
		for i, x := range runtime.SimTrace[:min(len(runtime.SimTrace), int(res.Stats.Steps))] {
			n := "-"
			if x > 0 && int(x) <= len(siteNames) {
				n = siteNames[x-1]
			}
			fmt.Fprintf(os.Stderr, "step %d %s\n", i, n)
		}
	}
	r.all, r.cur = nil, nil
	// goroutines that outlive the run must be gone before the next one
	if res.Stats.Status == 2 {
		// one of them runs on and on (and may fill the memory): a new process
		res.Recycle = true
	} else if runtime.NumGoroutine() > g0 {
		for i := 0; i < 6 && runtime.NumGoroutine() > g0; i++ {
			runtime.GC()
			for j := 0; j < 20; j++ {
				runtime.Gosched()
			}
		}
		if runtime.NumGoroutine() > g0 {
			res.Recycle = true
		}
	}
	return res
}

var simClock int64 = 1 << 40

// wallStart is the wall clock at the start of every run.
const wallStart = 1_700_000_000_000_000_000

func must(err error) {
	if err != nil {
		fatalf("%v", err)
	}
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simh: "+f+"\n", a...)
	syscall.Exit(3)
}

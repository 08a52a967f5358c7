package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
)

var (
	fMode    = flag.String("mode", "explore", "explore or eval")
	fCheck   = flag.String("check", "", "check id")
	fTier    = flag.String("tier", "quick", "")
	fSeed    = flag.Uint64("seed", 1, "")
	fWorker  = flag.Int("worker", 0, "")
	fFrom    = flag.Int("from", 0, "first run number")
	fMax     = flag.Int("max", 1<<40, "runs at most")
	fSecs    = flag.Float64("secs", 10, "")
	fOut     = flag.String("out", "", "")
	fIn      = flag.String("in", "", "")
	fScratch = flag.String("scratch", "", "")
	fSites   = flag.String("sites", "", "")
	fDigest  = flag.Bool("digest", false, "print a digest of every run")
	fNotes   = flag.Bool("notes", false, "record the results that must not depend on earlier runs")
	fRev     = flag.Bool("rev", false, "the runs in reverse order")
	fVerbose = flag.Bool("v", false, "print skips")
)

type line struct {
	T       string `json:"t"`
	I       int    `json:"i"`
	*Result `json:"r,omitempty"`
	Case    *Case    `json:"case,omitempty"`
	Sum     *Summary `json:"sum,omitempty"`
}

// Summary is what a worker covered.
type Summary struct {
	Runs      int            `json:"runs"`
	Skipped   int            `json:"skipped"`
	SkipWhy   map[string]int `json:"skip_why"`
	NonTriv   int            `json:"nontrivial"` // with a preemption, block choice or fault
	Hashes    []uint64       `json:"hashes"`     // of (case, schedule), non-trivial ones
	Steps     uint64         `json:"steps"`
	Decisions uint64         `json:"decisions"`
	Switches  uint64         `json:"switches"`
	SimNs     int64          `json:"sim_ns"`
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	Strategy  map[string]int `json:"strategy"`
	Sites     []int          `json:"sites"`
	Samples   []string       `json:"samples"`
	Next      int            `json:"next"`
	WallS     float64        `json:"wall_s"`
	Digest    uint64         `json:"digest"`
}

func caseFor(check string, seed uint64, worker, i int) *Case {
	h := fnv.New64a()
	h.Write([]byte(check))
	s := mix(mix(seed^h.Sum64()) ^ mix(uint64(worker)<<40|uint64(i)))
	return &Case{Check: check, Seed: s, Sched: drawSched(s), Carry: worker%2 == 1}
}

func drawSched(seed uint64) Sched {
	r := rng{mix(seed ^ 0x5ced)}
	n := func(k int) int { return int(r.next()>>1) % k }
	s := Sched{Seed: r.next(), PDen: 1}
	switch n(10) {
	case 0, 1, 2, 3, 4:
		s.Strategy = 0
		s.PNum = 1
		s.PDen = []uint32{2, 8, 32, 128, 512}[n(5)]
	case 5, 6, 7, 8:
		s.Strategy = 1
		s.Changes = 1 + n(4)
		s.Horizon = []uint64{200, 1000, 4000, 20000}[n(4)]
	default:
		s.Strategy = 2
	}
	s.Tick = []uint32{0, 1000, 1000000}[n(3)]
	if n(4) == 0 {
		s.StallNum = 1
		s.StallDen = []uint32{4, 16, 64}[n(3)]
	}
	return s
}

func main() {
	flag.Parse()
	if *fScratch == "" {
		fatalf("-scratch is required")
	}
	scratch = *fScratch
	must(os.MkdirAll(scratch, 0o755))
	if *fSites != "" {
		b, err := os.ReadFile(*fSites)
		must(err)
		must(json.Unmarshal(b, &siteNames))
	}
	siteHit = make([]uint8, len(siteNames)+1)
	out, err := os.OpenFile(*fOut, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	must(err)
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	must(err)
	os.Stdout = null
	log.SetOutput(io.Discard)
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	os.SimExit = onExit
	fsInit()
	http.SimRoundTrip = roundTrip
	syscall.SimPid = 4711 + len(os.Getenv("VS_PROC"))
	runtime.SimInit()
	runtime.SimSites(siteHit)
	setupOnce()
	emit := func(l line) {
		b, err := json.Marshal(l)
		must(err)
		b = append(b, '\n')
		_, err = out.Write(b)
		must(err)
	}
	begin := func(i int) {
		// tells the parent which run a dying process was in
		fmt.Fprintf(out, "{\"t\":\"B\",\"i\":%d}\n", i)
	}
	switch *fMode {
	case "explore":
		explore(emit, begin)
	case "case":
		emit(line{T: "C", I: *fFrom, Case: caseFor(*fCheck, *fSeed, *fWorker, *fFrom)})
	case "eval":
		f, err := os.Open(*fIn)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<28)
		i := 0
		for sc.Scan() {
			if i >= *fFrom {
				var c Case
				must(json.Unmarshal(sc.Bytes(), &c))
				begin(i)
				var res *Result
				if c.Session != nil {
					for _, k := range c.Session.list() {
						res = RunCase(caseFor(c.Check, c.Session.Seed, c.Session.Worker, k), c.Session.Tier)
						gcMaybe()
					}
				} else {
					res = RunCase(&c, *fTier)
				}
				emit(line{T: "E", I: i, Result: res})
				gcMaybe()
			}
			i++
		}
		must(sc.Err())
	}
	emit(line{T: "D"})
	out.Close()
	syscall.Exit(0)
}

var gcAt uint64 = 192 << 20

func gcMaybe() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > gcAt {
		runtime.GC()
	}
}

func explore(emit func(line), begin func(int)) {
	start := wall()
	s := &Summary{SkipWhy: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Strategy: map[string]int{}}
	hashes := map[uint64]struct{}{}
	finish := func(next int) {
		for h := range hashes {
			s.Hashes = append(s.Hashes, h)
		}
		sort.Slice(s.Hashes, func(i, j int) bool { return s.Hashes[i] < s.Hashes[j] })
		for i, h := range siteHit {
			if h != 0 {
				s.Sites = append(s.Sites, i)
			}
		}
		s.Next = next
		s.WallS = (wall() - start)
		emit(line{T: "S", Sum: s})
	}
	n := *fFrom
	for ; n < *fMax; n++ {
		i := n
		if (wall() - start) > *fSecs {
			break
		}
		if *fRev {
			i = *fFrom + *fMax - 1 - n
		}
		c := caseFor(*fCheck, *fSeed, *fWorker, i)
		begin(i)
		t0 := wall()
		res := RunCase(c, *fTier)
		if d := wall() - t0; d > 3 {
			fmt.Fprintf(os.Stderr, "slow run %d of worker %d: %.1f s, %d steps\n%s\n", i, *fWorker, d, res.Stats.Steps, strings.Join(res.Desc, "\n"))
		}
		s.Runs++
		s.Digest = mix(s.Digest ^ res.Stats.Hash ^ mix(res.Stats.Steps) ^ mix(res.CaseHash))
		if *fDigest {
			h := fnv.New64a()
			b, _ := json.Marshal(res)
			h.Write(b)
			if os.Getenv("SIMRES") != "" {
				fmt.Fprintf(os.Stderr, "%s\n", b)
			}
			emit(line{T: "G", I: i, Result: &Result{CaseHash: h.Sum64(), Stats: res.Stats, Notes: res.Notes}})
		}
		if res.Skip != "" {
			s.Skipped++
			k := res.Skip
			if *fVerbose {
				emit(line{T: "K", I: i, Result: &Result{Skip: k}})
			}
			if j := strings.IndexAny(k, ":("); j > 0 {
				k = k[:j]
			}
			s.SkipWhy[k]++
		}
		s.Steps += res.Stats.Steps
		s.Decisions += uint64(res.Stats.Decisions)
		s.Switches += res.Stats.Switches
		nf := 0
		for k, v := range res.Faults {
			s.Faults[k] += v
			nf += v
		}
		for k, v := range res.Probes {
			s.Probes[k] += v
		}
		s.Strategy[[]string{"random walk", "priorities", "run to block"}[c.Sched.Strategy]]++
		s.SimNs += res.SimNs
		if res.Skip == "" && (res.Stats.Switches > 0 || nf > 0) {
			s.NonTriv++
			hashes[mix(res.CaseHash)^res.Stats.Hash] = struct{}{}
			if len(s.Samples) < 2 && len(res.Desc) > 0 {
				s.Samples = append(s.Samples, fmt.Sprintf("run %d seed %d: %s; %d steps, %d switches, faults %v", i, c.Seed, strings.Join(res.Desc, "; "), res.Stats.Steps, res.Stats.Switches, res.Faults))
			}
		}
		if len(res.Violations) > 0 {
			emit(line{T: "V", I: i, Result: res, Case: c})
		}
		if res.Recycle {
			n++
			finish(n)
			emit(line{T: "R", I: n})
			os.Exit(0)
		}
		gcMaybe()
	}
	finish(n)
}

func (s *SessionSpec) list() []int {
	if s.Runs != nil {
		return s.Runs
	}
	var l []int
	for k := s.From; k <= s.Upto; k++ {
		l = append(l, k)
	}
	return l
}

// wall is the real time in seconds (the process's own clocks are simulated).
func wall() float64 {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return float64(tv.Sec) + float64(tv.Usec)/1e6
}

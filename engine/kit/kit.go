//go:build go1.22

// Package kit is the driver shared by every check: it enumerates the cases of a family (or the schedules of
// a scenario), shards them over processes, counts what was covered and records violations.
//
// Environment (set by /verif/check.py):
//
//	VERIF_OUT      result file (JSON)
//	VERIF_STATUS   status file: the case being executed, so that a crash of the process can be attributed
//	VERIF_SHARD    i/n
//	VERIF_TIER     quick | thorough
//	VERIF_BUDGET   seconds this process may spend
//	VERIF_REPLAY   JSON of one case ({"family","idx","schedule"}) to run alone
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/go-cache"
	"github.com/bgokden/veri/zzverif/vmc"
)

// Violation is one failing case.
type Violation struct {
	Family   string   `json:"family"`
	Idx      int      `json:"idx"`
	Schedule []int    `json:"schedule,omitempty"`
	Starve   bool     `json:"starve,omitempty"`
	Desc     string   `json:"desc"`
	Sig      string   `json:"sig"`
	Msg      string   `json:"msg"`
	Repro    int      `json:"repro"`
	Tries    int      `json:"tries"`
	Trace    []string `json:"trace,omitempty"`
}

// FamStat is the coverage of one family.
type FamStat struct {
	Name      string   `json:"name"`
	Cases     int      `json:"cases"`
	Execs     int      `json:"execs"`
	Steps     int64    `json:"steps"`
	Decisions int64    `json:"decisions"`
	Outcomes  []string `json:"outcomes"` // hashes
	States    []uint64 `json:"states"`
	Bound     int      `json:"bound"` // completed deviation bound (-1: none completed)
	Target    int      `json:"target"`
	Capped    bool     `json:"capped"`
	Leaks     int      `json:"leaks"`
	Samples   []string `json:"samples"`
	Wall      float64  `json:"wall"`
}

// Result is what one process reports.
type Result struct {
	Families   []*FamStat  `json:"families"`
	Violations []Violation `json:"violations"`
	Flaky      []Violation `json:"flaky"`
	Done       bool        `json:"done"`
	Replayed   bool        `json:"replayed"`
}

// X is handed to a case; it collects the verdict.
type X struct {
	T      *testing.T
	Dir    string // scratch directory of this case (created on demand by Tmp)
	fs     *FamStat
	fail   *Violation
	out    []string
	steps  int
	states map[uint64]bool
	Quiet  bool
	E      *vmc.Engine
}

// Failf records a violation (the first one counts).  sig is a stable short identifier of the kind.
func (x *X) Failf(sig, f string, a ...interface{}) {
	if x.fail == nil {
		x.fail = &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...)}
	}
}

// Failed reports whether the case already failed.
func (x *X) Failed() bool { return x.fail != nil }

// Out adds to the observed outcome of the case (distinct outcomes are counted).
func (x *X) Out(f string, a ...interface{}) { x.out = append(x.out, fmt.Sprintf(f, a...)) }

// Step counts transitions (operations executed on the code).
func (x *X) Step(n int) { x.steps += n }

// State records a visited abstract state.
func (x *X) State(s string) {
	if x.states != nil {
		x.states[hash(s)] = true
	}
}

// Tmp returns a fresh scratch directory for the case.
func (x *X) Tmp() string {
	d, err := os.MkdirTemp("", "case")
	if err != nil {
		panic(err)
	}
	x.Dir = d
	return d
}

func hash(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// G is the generator handle of a sequential family.
type G struct {
	r      *runner
	f      *Family
	fs     *FamStat
	idx    int
	stop   bool
	states map[uint64]bool
	outs   map[string]bool
	Tier   string
}

// Thorough reports the tier.
func (g *G) Thorough() bool { return g.Tier == "thorough" }

// More reports whether generation should go on.
func (g *G) More() bool { return !g.stop }

// Family is either sequential (Gen) or scheduled (Sched).
type Family struct {
	Name string
	// Gen calls g.Case for every case; each case runs in its own bubble (virtual time) unless NoBubble.
	Gen      func(g *G)
	NoBubble bool
	// Sched runs one controlled execution inside a bubble.
	Sched func(x *X, e *vmc.Engine)
	// Bound and BoundThorough are the deviation bounds to complete.
	Bound, BoundThorough int
	// Delay counts every deviation from the default schedule (delay bounding) instead of preemptions only.
	Delay bool
	// OnlyThorough families run in the thorough tier only.
	OnlyThorough bool
	// Share is the relative share of the time budget (default 1).
	Share float64
	// Crash enumerates, for every schedule of the family, an abandonment of the execution before every
	// scheduling step; Sched then sees e.CrashAt set (0 = run to completion).
	Crash bool
	// EndDeadlock makes goroutines left blocked for ever at the end of a case a violation with this signature.
	EndDeadlock string
}

type runner struct {
	t        *testing.T
	res      Result
	shard, n int
	tier     string
	deadline time.Time
	status   *os.File
	replay   *Violation
	maxViol  int
}

// Run executes a check.
func Run(t *testing.T, fams ...Family) {
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)
	r := &runner{t: t, n: 1, tier: os.Getenv("VERIF_TIER"), maxViol: 3}
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		p := strings.Split(s, "/")
		r.shard, _ = strconv.Atoi(p[0])
		r.n, _ = strconv.Atoi(p[1])
	}
	if r.tier == "" {
		r.tier = "quick"
	}
	budget := 3600.0
	if b, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64); err == nil {
		budget = b
	}
	start := time.Now()
	if p := os.Getenv("VERIF_STATUS"); p != "" {
		r.status, _ = os.OpenFile(p, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	}
	if s := os.Getenv("VERIF_REPLAY"); s != "" {
		r.replay = &Violation{}
		if err := json.Unmarshal([]byte(s), r.replay); err != nil {
			t.Fatal(err)
		}
		r.n = 1
	}
	var run []Family
	share := 0.0
	only := os.Getenv("VERIF_FAMILY")
	for _, f := range fams {
		if f.OnlyThorough && r.tier != "thorough" && r.replay == nil {
			continue
		}
		if only != "" && !strings.Contains(f.Name, only) {
			continue
		}
		if f.Share == 0 {
			f.Share = 1
		}
		share += f.Share
		run = append(run, f)
	}
	for i := range run {
		f := &run[i]
		if r.replay != nil && r.replay.Family != f.Name {
			continue
		}
		// time left is split over the families left
		left := budget - time.Since(start).Seconds()
		slice := left * f.Share / share
		share -= f.Share
		r.deadline = time.Now().Add(time.Duration(slice * float64(time.Second)))
		fs := &FamStat{Name: f.Name, Bound: -1}
		r.res.Families = append(r.res.Families, fs)
		t0 := time.Now()
		if f.Sched != nil {
			r.sched(f, fs)
		} else {
			r.gen(f, fs)
		}
		fs.Wall = time.Since(t0).Seconds()
		r.write()
	}
	r.res.Done = true
	r.write()
}

func (r *runner) write() {
	if p := os.Getenv("VERIF_OUT"); p != "" {
		b, _ := json.Marshal(&r.res)
		os.WriteFile(p, b, 0644)
	} else {
		for _, f := range r.res.Families {
			g := *f
			ns := len(g.States)
			no := len(g.Outcomes)
			g.States, g.Outcomes = nil, nil
			b, _ := json.Marshal(&g)
			fmt.Printf("%s states=%d outcomes=%d\n", b, ns, no)
		}
		for _, v := range r.res.Violations {
			fmt.Printf("VIOLATION %+v\n", v)
		}
		for _, v := range r.res.Flaky {
			fmt.Printf("FLAKY %+v\n", v)
		}
	}
}

func (r *runner) mark(fam string, idx int, sched []int, starve ...bool) {
	if r.status == nil {
		return
	}
	b, _ := json.Marshal(&Violation{Family: fam, Idx: idx, Schedule: sched, Starve: len(starve) > 0 && starve[0]})
	line := append(b, '\n')
	for len(line) < 64 {
		line = append(line, ' ')
	}
	r.status.WriteAt(line, 0)
}

func (r *runner) gen(f *Family, fs *FamStat) {
	g := &G{r: r, f: f, fs: fs, Tier: r.tier, states: map[uint64]bool{}, outs: map[string]bool{}}
	f.Gen(g)
	fs.Outcomes = keysOf(g.outs)
	for s := range g.states {
		fs.States = append(fs.States, s)
	}
	fs.Bound, fs.Target = 0, 0
	if g.stop {
		fs.Capped = true
	}
}

func keysOf(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Case runs (or skips, when another shard owns it) one case.
func (g *G) Case(desc func() string, run func(x *X)) {
	i := g.idx
	g.idx++
	r := g.r
	if r.replay != nil {
		if r.replay.Idx != i {
			return
		}
	} else {
		if i%r.n != r.shard || g.stop {
			return
		}
		if i&15 == 0 || r.n > 1 {
			if time.Now().After(r.deadline) || len(r.res.Violations) >= r.maxViol {
				g.stop = true
				return
			}
		}
	}
	r.mark(g.f.Name, i, nil)
	one := func() *X {
		x := &X{T: r.t, fs: g.fs, states: g.states}
		body := func() { run(x) }
		if g.f.NoBubble {
			guard(x, body)
		} else {
			bubble(r.t, x, g.f.EndDeadlock, body)
		}
		if x.Dir != "" {
			os.RemoveAll(x.Dir)
		}
		g.fs.Execs++
		g.fs.Steps += int64(x.steps)
		return x
	}
	x := one()
	g.fs.Cases++
	o := strings.Join(x.out, "|")
	if o != "" {
		k := fmt.Sprintf("%x", hash(o))
		if !g.outs[k] {
			g.outs[k] = true
			if len(g.fs.Samples) < 3 {
				g.fs.Samples = append(g.fs.Samples, cut(desc()+" => "+o, 400))
			}
		}
	}
	if len(g.fs.Samples) == 0 {
		g.fs.Samples = append(g.fs.Samples, cut(desc(), 400))
	}
	if x.fail != nil {
		v := *x.fail
		v.Family, v.Idx, v.Desc, v.Tries, v.Repro = g.f.Name, i, desc(), 1, 1
		for k := 0; k < 4; k++ {
			y := one()
			v.Tries++
			if y.fail != nil {
				v.Repro++
			}
		}
		r.report(v)
	}
	r.mark("", 0, nil)
}

func (r *runner) report(v Violation) {
	if r.replay != nil {
		r.res.Replayed = true
	}
	if v.Repro > 1 {
		r.res.Violations = append(r.res.Violations, v)
	} else {
		r.res.Flaky = append(r.res.Flaky, v)
	}
	r.write()
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// guard runs body, turning a panic into a violation.
func guard(x *X, body func()) {
	defer func() {
		if p := recover(); p != nil {
			x.Failf("panic", "panic: %v\n%s", p, cut(string(debug.Stack()), 1500))
		}
	}()
	body()
}

// bubble runs body in a synctest bubble.
func bubble(t *testing.T, x *X, endDeadlock string, body func()) {
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if strings.Contains(s, "deadlock") {
				if x.fs != nil {
					x.fs.Leaks++
				}
				if endDeadlock != "" {
					x.Failf(endDeadlock, "goroutines stay blocked for ever: %s", cut(s, 300))
				}
				return
			}
			x.Failf("panic", "panic: %s", cut(s, 1500))
		}
	}()
	cache.VerifForget()
	synctest.Test(t, func(t *testing.T) {
		guard(x, body)
	})
}

// sched explores every schedule of a scenario up to its deviation bound, bound by bound.
func (r *runner) sched(f *Family, fs *FamStat) {
	bound := f.Bound
	if r.tier == "thorough" && f.BoundThorough > bound {
		bound = f.BoundThorough
	}
	fs.Target = bound
	outs := map[string]bool{}
	states := map[uint64]bool{}
	exec := func(e *vmc.Engine) *X {
		x := &X{T: r.t, fs: fs, states: states, E: e}
		bubble(r.t, x, f.EndDeadlock, func() { f.Sched(x, e) })
		vmc.Reset()
		if x.Dir != "" {
			os.RemoveAll(x.Dir)
		}
		if e.Err != nil && x.fail == nil {
			x.Failf("engine", "%v", e.Err)
		}
		fs.Execs++
		fs.Steps += int64(e.Steps())
		return x
	}
	verdict := func(x *X, sched []int, crash int, starve bool) {
		o := strings.Join(x.out, "|")
		k := fmt.Sprintf("%x", hash(o))
		if !outs[k] {
			outs[k] = true
			if len(fs.Samples) < 3 {
				fs.Samples = append(fs.Samples, cut(fmt.Sprintf("schedule %v crash %d => %s", compact(sched), crash, o), 500))
			}
		}
		if x.fail == nil {
			return
		}
		v := *x.fail
		v.Family, v.Idx, v.Schedule, v.Starve, v.Tries, v.Repro = f.Name, crash, sched, starve, 1, 1
		v.Desc = fmt.Sprintf("%s: schedule %v crash %d", f.Name, compact(sched), crash)
		if starve {
			v.Desc += " (long pauses)"
		}
		for k := 0; k < 4; k++ {
			e := vmc.New(sched)
			e.CrashAt, e.Starve = crash, starve
			e.Verbose = true
			y := exec(e)
			v.Tries++
			if y.fail != nil {
				v.Repro++
			}
			v.Trace = e.Trace
			if len(v.Trace) > 400 {
				v.Trace = v.Trace[len(v.Trace)-400:]
			}
		}
		if v.Sig == "engine" {
			// replay divergence or step limit: a limit of the engine, never an alarm by itself
			r.res.Flaky = append(r.res.Flaky, v)
			return
		}
		r.report(v)
	}
	if r.replay != nil {
		e := vmc.New(r.replay.Schedule)
		e.CrashAt, e.Starve = r.replay.Idx, r.replay.Starve
		r.mark(f.Name, r.replay.Idx, r.replay.Schedule, e.Starve)
		verdict(exec(e), r.replay.Schedule, r.replay.Idx, e.Starve)
		return
	}
	for k := 0; k <= 2*bound+1; k++ {
		b, starve := k/2, k%2 == 1
		if starve && (!f.Delay || b == 0) { // preemption bounding has both kinds of pause; no deviation, no pause
			continue
		}
		xp := &vmc.Explorer{Bound: b, Shard: r.shard, NShards: r.n, Deadline: r.deadline, Delay: f.Delay, Starve: starve}
		xp.Body = func(e *vmc.Engine) bool {
			r.mark(f.Name, 0, e.Prefix(), starve)
			x := exec(e)
			sched := e.Prefix()
			if x.fail != nil {
				sched = e.Choices()
			}
			verdict(x, sched, 0, starve)
			if f.Crash && x.fail == nil {
				full := e.Choices()
				n := e.Steps()
				// a crash after the last decision of the prefix is new; earlier ones belong to a parent
				for s := e.PrefixStep() + 1; s <= n; s++ {
					if time.Now().After(r.deadline) {
						xp.Capped = true
						break
					}
					c := vmc.New(full)
					c.CrashAt, c.Starve = s, starve
					r.mark(f.Name, s, full, starve)
					verdict(exec(c), full, s, starve)
					if len(r.res.Violations) >= r.maxViol {
						break
					}
				}
			}
			return len(r.res.Violations) < r.maxViol
		}
		ok := xp.Explore()
		fs.Decisions += int64(xp.Decision)
		if xp.Capped || !ok {
			fs.Capped = true
			break
		}
		if starve || !f.Delay || b == 0 {
			fs.Bound = b
		}
		fs.Cases = xp.Execs // executions at the largest completed bound
	}
	r.mark("", 0, nil)
	fs.Outcomes = keysOf(outs)
	for s := range states {
		fs.States = append(fs.States, s)
	}
}

func compact(s []int) string {
	// only the deviations: index=choice
	var l []string
	for i, c := range s {
		if c != 0 {
			l = append(l, fmt.Sprintf("%d=%d", i, c))
		}
	}
	return fmt.Sprintf("len %d [%s]", len(s), strings.Join(l, " "))
}

// NumGoroutine is runtime.NumGoroutine (for leak-minded checks).
func NumGoroutine() int { return runtime.NumGoroutine() }

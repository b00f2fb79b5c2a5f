//go:build go1.22

// C20: a draining node.
package c20

import (
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	server "github.com/bgokden/veri/server"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vmc"
	"github.com/bgokden/veri/zzverif/vnet"
)

func ready() bool {
	w := httptest.NewRecorder()
	server.GetReady(w, httptest.NewRequest("GET", "/ready", nil))
	return w.Code == http.StatusOK
}

var errFull = errors.New("Number of elements is over the target")
var errDrain = errors.New("Node is in drain mode")

type behaviour struct {
	name  string
	err   func(n int) error
	slow  time.Duration
	takes bool
	infoN uint64
	down  bool
}

var behaviours = []behaviour{
	{name: "accepts", takes: true},
	{name: "accepts slowly", takes: true, slow: 3 * time.Second},
	{name: "accepts, holds much", takes: true, infoN: 5000},
	{name: "full", err: func(int) error { return errFull }},
	{name: "draining", err: func(int) error { return errDrain }},
	{name: "full twice, then accepts", takes: true, err: func(n int) error {
		if n < 2 {
			return errFull
		}
		return nil
	}},
	{name: "down", down: true},
}

func peer(i int, b behaviour, cs ...*pb.DataConfig) *nlib.Fake {
	f := nlib.NewFake(i)
	f.Slow = b.slow
	if b.err != nil {
		f.Accept = func(n int, _ *pb.InsertionRequest) error { return b.err(n) }
	}
	if b.infoN > 0 {
		f.NInfo = func(int) (uint64, error) { return b.infoN, nil }
	}
	return f
}

type rec struct {
	name string
	d    *pb.Datum
}

func datum(i int) *pb.Datum { return lib.D(float32(i+1), float32(i%3), "g", fmt.Sprint("l", i)) }

func handed(x *kit.X, what string, l []rec, ps []*nlib.Fake) {
	for _, r := range l {
		n := 0
		for _, p := range ps {
			n += p.Has(r.name, r.d)
		}
		if n == 0 {
			x.Failf("lost", "%s: %s in %s was acknowledged before the close and is at no peer after it", what, lib.KeyOf(r.d), r.name)
			return
		}
	}
}

// probe asks a closing or closed node.
func probe(x *kit.X, what string, k int) {
	if ready() {
		x.Failf("ready", "%s: a closing node is reported ready", what)
	}
	for _, name := range []string{"d0", "d1", "other", fmt.Sprint("new", k)} {
		for _, c := range []*pb.InsertConfig{nil, {}, {Count: 1}, {TTL: 100}} {
			err := nlib.Insert(nlib.Addr(0), name, lib.D(77, float32(k), "late", name), c)
			if err == nil {
				x.Failf("admitted", "%s: a closing node acknowledged an insert into %s", what, name)
			} else if data.CheckIfUnkownError(err) {
				x.Failf("error", "%s: a closing node refused an insert with %q, which peers take for a failure", what, err)
			}
		}
	}
	if err := nlib.Ping(nlib.Addr(0)); err != nil {
		x.Failf("dead", "%s: %v", what, err)
	}
}

var (
	calls  int
	braked bool
)

func start(x *kit.X) *node.Node {
	nlib.Reset()
	calls, braked = 0, false
	vnet.Fault = func(*vnet.Call) (vnet.Action, time.Duration) {
		calls++
		if braked {
			runtime.Goexit()
		}
		if calls > 20000 { // an endless close runs into virtual time
			time.Sleep(time.Minute)
		}
		return vnet.OK, 0
	}
	if ready() {
		x.Failf("ready", "ready before the node runs")
	}
	return nlib.New(x, 0)
}

func run(x *kit.X, nds, nd int, bs []behaviour, before int, extra, fresh bool) {
	n := start(x)
	defer nlib.Stop(n)
	synctest.Wait()
	if !ready() {
		x.Failf("not-ready", "a running node is not ready after its first synchronisation")
	}
	var cs []*pb.DataConfig
	for i := 0; i < nds; i++ {
		cs = append(cs, lib.Config(fmt.Sprint("d", i)))
	}
	var ps []*nlib.Fake
	takes := false
	for i, b := range bs {
		f := peer(i+1, b)
		ps = append(ps, f)
		if err := nlib.Announce(nlib.Addr(0), f.Addr, cs...); err != nil {
			x.Failf("error", "%v", err)
		}
		if b.down {
			nlib.Down(i + 1)
		}
		takes = takes || b.takes
	}
	var l []rec
	ins := func(i int) {
		for k := 0; k < nds; k++ {
			r := rec{fmt.Sprint("d", k), datum(i)}
			if err := nlib.Insert(nlib.Addr(0), r.name, lib.Clone(r.d), &pb.InsertConfig{Count: 1}); err != nil {
				x.Failf("refused", "a running node refused an insert: %v", err)
				return
			}
			l = append(l, r)
			x.Step(1)
		}
	}
	if fresh { // nothing is counted yet
		n.SyncWithPeers()
		time.Sleep(300 * time.Millisecond)
	} else {
		ins(1000)                    // (an empty dataset is removed by the maintenance)
		time.Sleep(61 * time.Second) // peers become sources
	}
	for i := 0; i < nd; i++ {
		ins(i)
	}
	time.Sleep(time.Duration(before) * time.Second)
	if extra { // acknowledged right before the close
		ins(nd)
	}
	if !ready() {
		x.Failf("not-ready", "a running node is not ready")
	}
	if x.Failed() {
		return
	}
	done := make(chan struct{})
	t0 := time.Now()
	go func() {
		n.Close()
		close(done)
	}()
	synctest.Wait()
	ended := false
	limit := 90 + 40*nds*(nd+1)
	for k := 0; k < limit; k++ {
		select {
		case <-done:
			ended = true
		default:
		}
		if ended {
			break
		}
		probe(x, fmt.Sprintf("%v after the close began", time.Since(t0)), k)
		if x.Failed() {
			return
		}
		time.Sleep(time.Second)
		synctest.Wait()
	}
	if !ended {
		braked = true
		x.Failf("endless", "the close has not ended after %d s", limit)
		return
	}
	x.Out("%d s", int(time.Since(t0).Seconds())/10)
	if takes {
		handed(x, "close", l, ps)
	}
	for k := 0; k < 3; k++ { // the process may live on for a while
		probe(x, fmt.Sprintf("%v after the close began, which has ended", time.Since(t0)), 1000+k)
		time.Sleep(40 * time.Second)
		synctest.Wait()
	}
}

func gen(g *kit.G) {
	var sets [][]behaviour
	for _, a := range behaviours {
		sets = append(sets, []behaviour{a})
		for _, b := range behaviours {
			sets = append(sets, []behaviour{a, b})
		}
	}
	nds := []int{0, 1, 3, 8}
	befores := []int{0, 15, 59, 130}
	if g.Thorough() {
		nds = append(nds, 2, 20)
		befores = append(befores, 5, 58, 60, 61, 100, 200)
	}
	for _, n := range []int{1, 2} {
		for _, nd := range nds {
			for _, before := range befores {
				for _, extra := range []bool{false, true} {
					for _, s := range sets {
						n, nd, before, extra, s := n, nd, before, extra, s
						g.Case(func() string {
							d := fmt.Sprintf("%d datasets with %d data each, closed after %d s, insert right before: %v, peers", n, nd, before, extra)
							for _, b := range s {
								d += " [" + b.name + "]"
							}
							return d
						}, func(x *kit.X) { run(x, n, nd, s, before, extra, false) })
					}
				}
			}
		}
	}
}

// genFresh: datasets that are seconds old.
func genFresh(g *kit.G) {
	for n := 1; n <= 3; n++ {
		for _, nd := range []int{1, 4} {
			for _, before := range []int{0, 3, 12, 40} {
				for _, a := range behaviours {
					for _, b := range append([]behaviour{{}}, behaviours...) {
						n, nd, before, s := n, nd, before, []behaviour{a}
						if b.name != "" {
							s = append(s, b)
						}
						g.Case(func() string {
							d := fmt.Sprintf("%d new datasets with %d data each, closed after %d s, peers", n, nd, before)
							for _, b := range s {
								d += " [" + b.name + "]"
							}
							return d
						}, func(x *kit.X) { run(x, n, nd, s, before, false, true) })
					}
				}
			}
		}
	}
}

// genUneven: datasets fare differently; each one that has an accepting peer is handed over.
func genUneven(g *kit.G) {
	kinds := []string{"has no peer", "is refused", "is accepted"}
	for m := 0; m < 27; m++ {
		for _, nd := range []int{1, 3} {
			for _, before := range []int{0, 70} {
				m, nd, before := m, nd, before
				k := []int{m % 3, m / 3 % 3, m / 9}
				g.Case(func() string {
					return fmt.Sprintf("%d data each, closed after %d s, d0 %s, d1 %s, d2 %s", nd, before, kinds[k[0]], kinds[k[1]], kinds[k[2]])
				}, func(x *kit.X) {
					n := start(x)
					defer nlib.Stop(n)
					f := nlib.NewFake(1)
					var cs []*pb.DataConfig
					refused := map[string]bool{}
					for i := range k {
						name := fmt.Sprint("d", i)
						if k[i] > 0 {
							cs = append(cs, lib.Config(name))
						}
						refused[name] = k[i] == 1
					}
					f.Accept = func(_ int, r *pb.InsertionRequest) error {
						if refused[r.GetDataName()] {
							return errFull
						}
						return nil
					}
					nlib.Announce(nlib.Addr(0), f.Addr, cs...)
					var must []rec
					ins := func(j int) {
						for i := range k {
							r := rec{fmt.Sprint("d", i), datum(j)}
							if err := nlib.Insert(nlib.Addr(0), r.name, lib.Clone(r.d), &pb.InsertConfig{Count: 1}); err != nil {
								x.Failf("refused", "a running node refused an insert: %v", err)
								return
							}
							if k[i] == 2 {
								must = append(must, r)
							}
							x.Step(1)
						}
					}
					ins(1000)
					time.Sleep(61 * time.Second)
					for j := 0; j < nd; j++ {
						ins(j)
					}
					time.Sleep(time.Duration(before) * time.Second)
					done := make(chan struct{})
					go func() {
						n.Close()
						close(done)
					}()
					select {
					case <-done:
					case <-time.After(5 * time.Minute):
						braked = true
						x.Failf("endless", "the close has not ended after 5 minutes")
						return
					}
					handed(x, "close", must, []*nlib.Fake{f})
				})
			}
		}
	}
}

// A node alone becomes ready and stays so, with whatever is around it.
func genReady(g *kit.G) {
	for _, join := range []string{"none", "down", "up"} {
		for _, nd := range []int{0, 2} {
			for _, closeAt := range []int{0, 1, 30, 59, 60, 61, 119, 120, 200, -1} {
				join, nd, closeAt := join, nd, closeAt
				g.Case(func() string { return fmt.Sprintf("joins %s, %d datasets, closed at %d s", join, nd, closeAt) }, func(x *kit.X) {
					nlib.Reset()
					var services []string
					switch join {
					case "down":
						services = []string{nlib.Addr(9)}
					case "up":
						nlib.NewFake(9)
						services = []string{nlib.Addr(9)}
					}
					n := nlib.New(x, 0, services...)
					defer nlib.Stop(n)
					synctest.Wait()
					for i := 0; i < nd; i++ {
						nlib.Insert(nlib.Addr(0), fmt.Sprint("d", i), datum(i), nil)
					}
					closed := false
					for t := 0; t < 260; t++ {
						if t == closeAt {
							n.Close()
							closed = true
						}
						synctest.Wait()
						if ready() == closed {
							x.Failf("ready", "%d s after the start: ready is %v, closed is %v", t, !closed, closed)
							return
						}
						if closed {
							probe(x, fmt.Sprintf("at %d s", t), t)
						} else if t%20 == 0 {
							if err := nlib.Insert(nlib.Addr(0), "d0", datum(t), nil); err != nil {
								x.Failf("refused", "a running node refused an insert: %v", err)
								return
							}
						}
						x.Step(1)
						time.Sleep(time.Second)
					}
				})
			}
		}
	}
}

// ---- schedules

type env struct {
	n  *node.Node
	f  *nlib.Fake
	l  []rec
	in []rec
	er []error
}

func setup(x *kit.X, nd int) *env {
	v := &env{n: start(x)}
	v.f = nlib.NewFake(1)
	nlib.Announce(nlib.Addr(0), v.f.Addr, lib.Config("d0"))
	r := rec{"d0", datum(1000)}
	nlib.Insert(nlib.Addr(0), r.name, lib.Clone(r.d), &pb.InsertConfig{Count: 1})
	v.l = append(v.l, r)
	time.Sleep(61 * time.Second)
	for i := 0; i < nd; i++ {
		r := rec{"d0", datum(i)}
		nlib.Insert(nlib.Addr(0), r.name, lib.Clone(r.d), &pb.InsertConfig{Count: 1})
		v.l = append(v.l, r)
	}
	v.n.StopPeriodicTask()
	v.n.SetPeriodicTask() // a full period away
	time.Sleep(500 * time.Millisecond)
	return v
}

func (v *env) insert(i int, name string) func() {
	r := rec{name, lib.D(50, float32(i), "g", "late")}
	v.in = append(v.in, r)
	v.er = append(v.er, nil)
	k := len(v.in) - 1
	return func() {
		_, v.er[k] = v.n.Insert(nil, &pb.InsertionRequest{DataName: name, Datum: lib.Clone(r.d), Config: &pb.InsertConfig{Count: 1}})
		if v.er[k] != nil { // the node is closing now
			if ready() {
				v.er[k] = errors.New("READY")
			}
		}
	}
}

func (v *env) finish(x *kit.X) {
	for i, r := range v.in {
		if v.er[i] == nil {
			x.Out("accepted")
			v.l = append(v.l, r)
		} else if v.er[i].Error() == "READY" {
			x.Failf("ready", "the node refused an insert because it closes, and is still reported ready")
		} else {
			x.Out("%s", v.er[i])
		}
	}
	if ready() {
		x.Failf("ready", "a closed node is reported ready")
	}
	handed(x, "close", v.l, []*nlib.Fake{v.f})
	probe(x, "afterwards", 1)
	nlib.Stop(v.n)
}

func sched(nd, inserts int, more ...func(v *env)) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		v := setup(x, nd)
		fs := []func(){func() { v.n.Close() }}
		for i := 0; i < inserts; i++ {
			fs = append(fs, v.insert(i, "d0"))
		}
		for _, m := range more {
			m := m
			fs = append(fs, func() { m(v) })
		}
		lib.Run(x, e, fs...)
		synctest.Wait()
		v.finish(x)
	}
}

func polls(full bool) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) { pollsIn(x, e, full) }
}

func pollsIn(x *kit.X, e *vmc.Engine, full bool) {
	var v *env
	if full {
		v = setup(x, 1)
	} else {
		v = &env{n: start(x), f: nlib.NewFake(1)}
		time.Sleep(time.Second)
	}
	var seen []bool
	lib.Run(x, e, func() { v.n.Close() }, func() { v.n.SyncWithPeers() }, func() {
		for i := 0; i < 4; i++ {
			vmc.P(-60)
			seen = append(seen, ready())
		}
	})
	for i := 1; i < len(seen); i++ {
		if seen[i] && !seen[i-1] {
			x.Failf("ready", "a closing node was reported not ready and then ready again: %v", seen)
		}
	}
	x.Out("%v", seen)
	v.finish(x)
}

func sync1(v *env)       { v.n.SyncWithPeers() }
func maintenance(v *env) { v.n.Dataset.ReloadRuns() }
func savesIndex(v *env)  { v.n.Dataset.SaveIndex() }
func refreshes(v *env)   { d, _ := v.n.Dataset.GetNoCreate("d0"); d.Process(true) }

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "closing", Gen: gen, Share: 3},
		kit.Family{Name: "fresh", Gen: genFresh},
		kit.Family{Name: "uneven", Gen: genUneven},
		kit.Family{Name: "readiness", Gen: genReady},
		kit.Family{Name: "schedules-insert-vs-close", Bound: 2, BoundThorough: 3, Delay: true, Share: 3, Sched: sched(0, 1)},
		kit.Family{Name: "schedules-two-inserts-vs-close", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched(0, 2)},
		kit.Family{Name: "schedules-ready-vs-sync-vs-close", Bound: 1, BoundThorough: 2, Delay: true, Sched: polls(true)},
		kit.Family{Name: "schedules-ready-vs-sync-vs-close-empty", Bound: 2, BoundThorough: 3, Delay: true, Sched: polls(false)},
		kit.Family{Name: "schedules-maintenance-vs-close", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched(1, 1, maintenance)},
		kit.Family{Name: "schedules-save-vs-close", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched(1, 0, savesIndex, sync1)},
		kit.Family{Name: "schedules-refresh-vs-close", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched(1, 1, refreshes)},
	)
}

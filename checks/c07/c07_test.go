//go:build go1.22

// C07: search timeouts.
package c07

import (
	"errors"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vmc"
)

// behave is what a peer does, as (fraction of the timeout, number of results) and a final wait.
type behave struct {
	name string
	send []struct {
		at float64
		n  int
	}
	end float64
}

type sendAt = struct {
	at float64
	n  int
}

var behaviours = []behave{
	{"answers", []sendAt{{0, 2}}, 0},
	{"answers at 30%", []sendAt{{0.3, 2}}, 0.3},
	{"answers at 80%", []sendAt{{0.8, 2}}, 0.8},
	{"hangs", nil, 20},
	{"sends one, then hangs", []sendAt{{0, 1}}, 20},
	{"sends one at 50%, one after the timeout", []sendAt{{0.5, 1}, {1.5, 1}}, 1.5},
	{"answers after the timeout", []sendAt{{3, 2}}, 3},
	{"floods after the timeout", []sendAt{{1.2, 350}}, 4},
	{"floods, then hangs", []sendAt{{0.1, 350}}, 20},
	{"fails", nil, 0},
}

func res(peer, i int) *pb.Datum {
	return lib.D(float32(100+peer*1000+i), 1, fmt.Sprintf("p%d.%d", peer, i), "l")
}

// peer builds a peer; inTime receives the keys that arrive before the deadline is near.
func peer(i int, b behave, T time.Duration, inTime, known map[string]bool) *lib.Peer {
	p := &lib.Peer{ID: fmt.Sprint("p", i), Info: &pb.DataInfo{Name: "d", N: 1}}
	k := 0
	for _, s := range b.send {
		for j := 0; j < s.n; j++ {
			key := lib.KeyOf(res(i, k))
			known[key] = true
			if s.at < 0.85 {
				inTime[key] = true
			}
			k++
		}
	}
	p.OnSearch = func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig) {
		start := time.Now()
		wait := func(f float64) {
			d := time.Duration(f*float64(T)) - time.Since(start)
			if d > 0 {
				time.Sleep(d)
			}
		}
		k := 0
		for _, s := range b.send {
			wait(s.at)
			for j := 0; j < s.n; j++ {
				d := res(i, k)
				k++
				out <- &pb.ScoredDatum{Datum: d, Score: lib.Score("VectorDistance", d.Key.Feature, q.Key.Feature)}
			}
		}
		wait(b.end)
	}
	return p
}

func check(x *kit.X, what string, r []*pb.ScoredDatum, elapsed, T time.Duration, inTime, known map[string]bool) {
	if elapsed > T+2*time.Millisecond {
		x.Failf("late", "%s: the search took %v, its timeout is %v", what, elapsed, T)
	}
	got := map[string]bool{}
	for _, s := range r {
		k := lib.KeyOf(s.Datum)
		if got[k] {
			x.Failf("duplicate", "%s: %s twice", what, k)
		}
		got[k] = true
		if !known[k] {
			x.Failf("ghost", "%s: %s", what, k)
		}
	}
	missing := 0
	first := ""
	for k := range inTime {
		if !got[k] {
			missing++
			first = k
		}
	}
	if missing > 0 {
		x.Failf("dropped", "%s: %d of %d results that arrived well before the timeout are missing (such as %s)", what, missing, len(inTime), first)
	}
	x.Out("%v %d", elapsed, len(r))
}

func gen(g *kit.G) {
	for _, T := range []time.Duration{10, 100, 1000, 60000} {
		for nq := 1; nq <= 3; nq++ {
			for a := range behaviours {
				for b := -1; b < len(behaviours); b++ {
					for c := -1; c <= b; c++ {
						if c >= 0 && !g.Thorough() && T != 100 {
							continue
						}
						T, nq, l := T*time.Millisecond, nq, []int{a, b, c}
						g.Case(func() string {
							s := fmt.Sprintf("timeout %v, %d queries:", T, nq)
							for _, i := range l {
								if i >= 0 {
									s += " [" + behaviours[i].name + "]"
								}
							}
							return s
						}, func(x *kit.X) {
							dt := lib.New(x, lib.Config("d"))
							defer lib.Stop(dt)
							inTime, known := map[string]bool{}, map[string]bool{}
							for i := 0; i < 3; i++ {
								d := lib.D(float32(i), 0, fmt.Sprint("local", i), "l")
								k := lib.KeyOf(d)
								inTime[k], known[k] = true, true
								dt.Insert(d, nil)
							}
							for n, i := range l {
								if i >= 0 {
									dt.AddSource(peer(n, behaviours[i], T, inTime, known))
								}
							}
							var qs []*pb.Datum
							for i := 0; i < nq; i++ {
								qs = append(qs, lib.D(float32(i)*10, 3, "", ""))
							}
							cfg := &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 5000, Timeout: uint64(T / time.Millisecond)}
							start := time.Now()
							r, err := dt.MultiAggregatedSearch(qs, cfg, nil)
							el := time.Since(start)
							x.Step(1)
							if err != nil {
								x.Failf("error", "%v", err)
							}
							check(x, "search", r, el, T, inTime, known)
							if cfg.Timeout != uint64(T/time.Millisecond) {
								x.Failf("config", "the caller's config was changed: timeout %d", cfg.Timeout)
							}
							// the searches the dataset started end when their peers are done
							time.Sleep(40 * T)
						})
					}
				}
			}
		}
	}
}

// genZero: timeouts of zero or a few milliseconds end at once, whatever the peers do.
func genZero(g *kit.G) {
	for T := uint64(0); T <= 3; T++ {
		for a := range behaviours {
			T, a := T, a
			g.Case(func() string { return fmt.Sprintf("timeout %d ms, [%s]", T, behaviours[a].name) }, func(x *kit.X) {
				dt := lib.New(x, lib.Config("d"))
				defer lib.Stop(dt)
				known := map[string]bool{}
				dt.AddSource(peer(0, behaviours[a], 10*time.Millisecond, map[string]bool{}, known))
				start := time.Now()
				r, err := dt.MultiAggregatedSearch([]*pb.Datum{lib.D(1, 1, "", "")}, &pb.SearchConfig{Limit: 50, Timeout: T}, nil)
				x.Step(1)
				if err != nil {
					x.Failf("error", "%v", err)
				}
				check(x, "search", r, time.Since(start), time.Duration(T)*time.Millisecond, map[string]bool{}, known)
				time.Sleep(time.Second)
			})
		}
	}
}

func sched(b behave, nq int) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		const T = 100 * time.Millisecond
		dt := lib.New(x, lib.Config("d"))
		defer lib.Stop(dt)
		inTime, known := map[string]bool{}, map[string]bool{}
		d := lib.D(1, 0, "local", "l")
		inTime[lib.KeyOf(d)], known[lib.KeyOf(d)] = true, true
		dt.Insert(d, nil)
		dt.AddSource(peer(0, b, T, inTime, known))
		var r []*pb.ScoredDatum
		var el time.Duration
		lib.Run(x, e, func() {
			start := time.Now()
			var qs []*pb.Datum
			for i := 0; i < nq; i++ {
				qs = append(qs, lib.D(float32(i)*10, 3, "", ""))
			}
			r, _ = dt.MultiAggregatedSearch(qs, &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 50, Timeout: 100}, nil)
			el = time.Since(start)
		})
		check(x, "search", r, el, T, inTime, known)
		time.Sleep(40 * T)
	}
}

// genHuge: timeouts near the limits of what a duration can hold; what the peers send within an hour is there.
func genHuge(g *kit.G) {
	const base = uint64(math.MaxInt64) / uint64(time.Millisecond)
	for _, T := range []uint64{3600000, 1 << 32, base / 10 * 9, base - 1, base, base + 1, base/9*10 + 2, 2*base + 1, 2*base + 2, 2*base + 3, 4 * base, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64} {
		for nq := 1; nq <= 2; nq++ {
			for b := 0; b < 3; b++ {
				T, nq, b := T, nq, b
				g.Case(func() string {
					return fmt.Sprintf("timeout %d ms, %d queries: [%s of an hour]", T, nq, behaviours[b].name)
				}, func(x *kit.X) {
					dt := lib.New(x, lib.Config("d"))
					defer lib.Stop(dt)
					inTime, known := map[string]bool{}, map[string]bool{}
					for i := 0; i < 3; i++ {
						d := lib.D(float32(i), 0, fmt.Sprint("local", i), "l")
						k := lib.KeyOf(d)
						inTime[k], known[k] = true, true
						dt.Insert(d, nil)
					}
					dt.AddSource(peer(0, behaviours[b], time.Hour, inTime, known))
					var qs []*pb.Datum
					for i := 0; i < nq; i++ {
						qs = append(qs, lib.D(float32(i), 1, "", ""))
					}
					start := time.Now()
					r, err := dt.MultiAggregatedSearch(qs, &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 50, Timeout: T}, nil)
					if err != nil {
						x.Failf("error", "%v", err)
						return
					}
					check(x, fmt.Sprintf("timeout %d ms", T), r, time.Since(start), time.Hour, inTime, known)
				})
			}
		}
	}
}

// genNodes: the same through nodes and the network; the last peer may be known to a second node only.
func genNodes(g *kit.G) {
	Ts := []time.Duration{100 * time.Millisecond, time.Second, 8 * time.Second, 14 * time.Second, 40 * time.Second, 2 * time.Minute}
	for _, T := range Ts {
		for a := range behaviours {
			for b := -1; b < len(behaviours); b++ {
				for _, via := range []bool{false, true} {
					for nq := 1; nq <= 2; nq++ {
						T, a, b, via, nq := T, a, b, via, nq
						if nq == 2 && b >= 0 && !g.Thorough() {
							continue
						}
						g.Case(func() string {
							s := fmt.Sprintf("timeout %v, %d queries: [%s]", T, nq, behaviours[a].name)
							if b >= 0 {
								s += " [" + behaviours[b].name + "]"
							}
							return s + fmt.Sprintf(" the last one through another node: %v", via)
						}, func(x *kit.X) { nodes(x, T, a, b, via, nq) })
					}
				}
			}
		}
	}
}

func nodes(x *kit.X, T time.Duration, a, b int, via bool, nq int) {
	nlib.Reset()
	cfg := lib.Config("d")
	n := nlib.New(x, 0)
	ns := []*node.Node{n}
	defer func() { nlib.Stop(ns...) }()
	ad := nlib.Addr(0)
	nlib.Create(ad, cfg)
	if via {
		m := nlib.New(x, 9)
		ns = append(ns, m)
		nlib.Create(nlib.Addr(9), cfg)
	}
	inTime, known := map[string]bool{}, map[string]bool{}
	d := lib.D(1, 1, "local", "l")
	nlib.Insert(ad, "d", d, &pb.InsertConfig{Count: 1})
	known[lib.KeyOf(d)], inTime[lib.KeyOf(d)] = true, true
	l := []int{a}
	if b >= 0 {
		l = append(l, b)
	}
	for i, bi := range l {
		far := via && i == len(l)-1
		i, bh := i, behaviours[bi]
		limit := 0.85
		if far {
			limit = 0.7
		}
		f := nlib.NewFake(i + 1)
		p := peer(i, bh, T, map[string]bool{}, known)
		k := 0
		for _, s := range bh.send {
			for j := 0; j < s.n; j++ {
				if s.at < limit {
					inTime[lib.KeyOf(res(i, k))] = true
				}
				k++
			}
		}
		f.Answer = func(r *pb.SearchRequest, st pb.VeriService_SearchStreamServer) error {
			out := make(chan *pb.ScoredDatum)
			go func() {
				defer close(out)
				for _, q := range r.Datum {
					p.OnSearch(q, out, r.Config)
				}
			}()
			var err error
			for s := range out {
				if err == nil {
					err = st.Send(s)
				}
			}
			if bh.name == "fails" {
				return errors.New("failure")
			}
			return err
		}
		if far {
			nlib.Announce(nlib.Addr(9), f.Addr, cfg)
		} else {
			nlib.Announce(ad, f.Addr, cfg)
		}
	}
	if via {
		nlib.Announce(ad, nlib.Addr(9), cfg)
	}
	for _, m := range ns {
		m.SyncWithPeers()
	}
	var qs []*pb.Datum
	for i := 0; i < nq; i++ {
		qs = append(qs, lib.D(float32(i), 1, "", ""))
	}
	req := nlib.Req("d", 1000, qs...)
	req.Config.Timeout = uint64(T / time.Millisecond)
	req.Config.ScoreFuncName = "VectorDistance"
	start := time.Now()
	r, err := nlib.Search(ad, req)
	x.Step(1)
	if err != nil {
		x.Failf("error", "%v", err)
		return
	}
	check(x, "through the node", r, time.Since(start), T, inTime, known)
	time.Sleep(45 * T) // everybody has answered
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "peer-behaviours", Gen: gen, Share: 3, EndDeadlock: "stuck"},
		kit.Family{Name: "nodes", Gen: genNodes, Share: 2, EndDeadlock: "stuck"},
		kit.Family{Name: "tiny-timeouts", Gen: genZero, EndDeadlock: "stuck"},
		kit.Family{Name: "huge-timeouts", Gen: genHuge, EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-late", Bound: 1, BoundThorough: 3, Delay: true, Sched: sched(behaviours[6], 1), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-partial", Bound: 1, BoundThorough: 3, Delay: true, Sched: sched(behaviours[5], 1), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-partial-two-queries", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched(behaviours[5], 2), EndDeadlock: "stuck"},
	)
}

//go:build go1.22

// C28: peers exchange data until they are alike, and together lose none.
package c28

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/vmc"
	"google.golang.org/protobuf/proto"
)

// link makes a dataset the peer of another one; messages are copied, as the network does.
type link struct {
	id   string
	to   *data.Data
	mu   sync.Mutex
	sent int
	down bool
}

func (l *link) GetID() string { return l.id }
func (l *link) GetDataInfo() *pb.DataInfo {
	if l.down {
		return nil
	}
	vmc.P(-60)
	return proto.Clone(l.to.GetDataInfo()).(*pb.DataInfo)
}
func (l *link) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	if l.down {
		return lib.ErrDown
	}
	vmc.P(-61)
	l.mu.Lock()
	l.sent++
	l.mu.Unlock()
	err := l.to.Insert(lib.Clone(d), proto.Clone(c).(*pb.InsertConfig))
	vmc.P(-62)
	return err
}
func (l *link) StreamSearch(d *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	wg.Done()
	return nil
}

type cluster struct {
	dts   []*data.Data
	links [][]*link
}

// build makes k datasets; edge(i,j) makes j a peer of i.
func build(x *kit.X, k int, c func(i int) *pb.DataConfig, edge func(i, j int) bool) *cluster {
	cl := &cluster{}
	for i := 0; i < k; i++ {
		cl.dts = append(cl.dts, lib.New(x, c(i)))
	}
	for i := 0; i < k; i++ {
		cl.links = append(cl.links, make([]*link, k))
		for j := 0; j < k; j++ {
			if i != j && edge(i, j) {
				cl.links[i][j] = &link{id: fmt.Sprint("n", j), to: cl.dts[j]}
			}
		}
	}
	return cl
}

func (cl *cluster) connect() {
	for i, l := range cl.links {
		for _, p := range l {
			if p != nil {
				cl.dts[i].AddSource(p)
			}
		}
	}
}

func (cl *cluster) union() map[string]string {
	u := map[string]string{}
	for _, d := range cl.dts {
		for k, v := range lib.Content(d) {
			u[k] = v
		}
	}
	return u
}

func (cl *cluster) show() string {
	var l []string
	for _, d := range cl.dts {
		l = append(l, lib.Show(lib.Content(d)))
	}
	return strings.Join(l, " ")
}

var vecs = [][]float32{{1, 0}, {0, 9}, {-4, 2}, {30, 30}, {-7, -7}, {2, 5}}

func mk(i int) *pb.Datum {
	if i < len(vecs) {
		return lib.D(vecs[i][0], vecs[i][1], "g", fmt.Sprint("l", i))
	}
	return lib.D(float32(i%17), float32(i), "g", fmt.Sprint("l", i))
}

func full(i, j int) bool { return true }
func ring(k int) func(i, j int) bool {
	return func(i, j int) bool { return j == (i+1)%k }
}

func target(t uint64, util float64) func(int) *pb.DataConfig {
	return func(int) *pb.DataConfig {
		c := lib.Config("d")
		c.NoTarget, c.TargetN, c.TargetUtilization = false, t, util
		return c
	}
}

// have checks that no datum has been lost.
func (cl *cluster) have(x *kit.X, when string, ds []*pb.Datum) bool {
	u := cl.union()
	for _, d := range ds {
		if u[lib.KeyOf(d)] != lib.ValOf(d) {
			x.Failf("lost", "%s: %s=%s is on no node any more: %s", when, lib.KeyOf(d), lib.ValOf(d), cl.show())
			return false
		}
	}
	return true
}

// spread: every distribution of a few data over a few nodes, one draw taken per round (in turn): every node ends
// with every datum.
func genSpread(g *kit.G) {
	type shape struct {
		k    int
		name string
		edge func(i, j int) bool
	}
	shapes := []shape{{2, "both ways", full}, {3, "complete", full}, {3, "ring", ring(3)}, {4, "ring", ring(4)},
		{3, "chain", func(i, j int) bool { return i-j == 1 || j-i == 1 }}, {4, "star", func(i, j int) bool { return i == 0 || j == 0 }}}
	for _, sh := range shapes {
		for n := 1; n <= 4; n++ {
			if n == 4 && sh.k == 4 && !g.Thorough() {
				continue
			}
			places := 1
			for i := 0; i < n; i++ {
				places *= sh.k
			}
			for p := 0; p < 2*places; p++ {
				same := p >= places // all data in one point: the statistics are alike from the beginning
				if same && sh.k*n > 9 && !g.Thorough() {
					continue
				}
				for turn := 0; turn < n+1; turn++ {
					sh, n, p, turn := sh, n, p%places, turn
					g.Case(func() string {
						return fmt.Sprintf("%d nodes (%s), %d data (in one point: %v) placed by %d, draws start at %d", sh.k, sh.name, n, same, p, turn)
					}, func(x *kit.X) {
						cl := build(x, sh.k, func(int) *pb.DataConfig { return lib.Config("d") }, sh.edge)
						defer lib.Stop(cl.dts...)
						var ds []*pb.Datum
						q := p
						for i := 0; i < n; i++ {
							d := mk(i)
							if same {
								d = lib.D(1, 1, fmt.Sprint("g", i), "l")
							}
							cl.dts[q%sh.k].Insert(lib.Clone(d), &pb.InsertConfig{Count: 1})
							q /= sh.k
							ds = append(ds, d)
						}
						cl.connect()
						for _, d := range cl.dts {
							d.Process(true)
						}
						synctest.Wait()
						round := turn
						for r := 0; r < 3*(n+1)*sh.k; r++ {
							for _, d := range cl.dts {
								draw := 0
								vmc.RandHook = func() float64 {
									draw++
									if (draw-1)%(n+1) == round%(n+1) || turn == n {
										return 0
									}
									return 0.9999999
								}
								if turn == n && r%3 == 2 { // all or nothing
									vmc.RandHook = func() float64 { return 0.9999999 }
								}
								d.Process(true)
								synctest.Wait()
								x.Step(1)
							}
							round++
							if !cl.have(x, "spreading", ds) {
								break
							}
							time.Sleep(7 * time.Second)
						}
						vmc.RandHook = nil
						if turn == n { // the same ones may be drawn again and again
							return
						}
						for i, d := range cl.dts {
							c := lib.Content(d)
							if len(c) != n {
								x.Failf("not-spread", "node %d has %d of %d data although every datum was drawn repeatedly: %s", i, len(c), n, cl.show())
							}
						}
						x.Out("%s", lib.Show(cl.union()))
					})
				}
			}
		}
	}
}

// genBackground: the background rounds alone do it, within hours, and expiry is kept everywhere.
func genBackground(g *kit.G) {
	sizes := []int{1, 2, 3, 5, 12, 60}
	if g.Thorough() {
		sizes = append(sizes, 90, 98)
	}
	for _, k := range []int{2, 3, 5} {
		for _, n := range sizes {
			for _, place := range []string{"one node", "spread", "all but one", "two nodes"} {
				for _, ttl := range []uint64{0, 200000} {
					if n == 60 && k == 5 && !g.Thorough() {
						continue
					}
					k, n, place, ttl := k, n, place, ttl
					g.Case(func() string {
						return fmt.Sprintf("%d nodes, %d data on %s, TTL %d, background rounds", k, n, place, ttl)
					}, func(x *kit.X) {
						seed := uint32(1)
						var mu sync.Mutex
						vmc.RandHook = func() float64 {
							mu.Lock()
							defer mu.Unlock()
							seed = seed*1664525 + 1013904223
							return float64(seed>>8) / (1 << 24)
						}
						defer func() { vmc.RandHook = nil }()
						var cl *cluster
						cl = &cluster{}
						for i := 0; i < k; i++ { // background rounds of different nodes do not coincide
							cl.dts = append(cl.dts, lib.New(x, lib.Config("d")))
							time.Sleep(100 * time.Millisecond)
						}
						defer lib.Stop(cl.dts...)
						for i := 0; i < k; i++ {
							cl.links = append(cl.links, make([]*link, k))
							for j := 0; j < k; j++ {
								if i != j {
									cl.links[i][j] = &link{id: fmt.Sprint("n", j), to: cl.dts[j]}
								}
							}
						}
						cl.connect()
						at := time.Now()
						for i := 0; i < n; i++ {
							d := mk(i)
							to := 0
							switch place {
							case "spread":
								to = i % k
							case "all but one":
								to = i % (k - 1)
							case "two nodes":
								to = i % 2
							}
							cl.dts[to].Insert(d, &pb.InsertConfig{Count: 1, TTL: ttl})
						}
						ok := false
						limit := 40 * 3600
						enough := n
						if n > 12 { // the last ones are drawn rarely
							enough = n * 9 / 10
						}
						for t := 0; t < limit && !ok; t += 300 {
							for s := 0; s < 300; s += 60 { // sources are renewed by the node
								time.Sleep(60 * time.Second)
								cl.connect()
							}
							x.Step(k)
							ok = true
							for _, d := range cl.dts {
								ok = ok && len(lib.Content(d)) >= enough
							}
							if len(cl.union()) != n {
								x.Failf("lost", "after %v: %d of %d data are left", time.Since(at), len(cl.union()), n)
								return
							}
						}
						if !ok {
							var l []int
							for _, d := range cl.dts {
								l = append(l, len(lib.Content(d)))
							}
							x.Failf("not-spread", "after %v the nodes hold %v of %d data", time.Since(at), l, n)
							return
						}
						x.Out("%v", time.Since(at))
						if ttl == 0 {
							return
						}
						time.Sleep(time.Until(at.Add(time.Duration(ttl+20) * time.Second)))
						for i, d := range cl.dts {
							if c := lib.Content(d); len(c) > 0 {
								x.Failf("expiry", "node %d still holds %d data %v after the insert with TTL %d", i, len(c), time.Since(at), ttl)
							}
						}
					})
				}
			}
		}
	}
}

// genAlike: nodes that hold the same rest: hundreds of alike data cause no more than a trickle.
func genAlike(g *kit.G) {
	for _, n := range []int{150, 300} {
		for _, rest := range []int{0, 1, 3} {
			for _, k := range []int{2, 3} {
				n, rest, k := n, rest, k
				g.Case(func() string { return fmt.Sprintf("%d nodes with the same %d data, one has %d less", k, n, rest) }, func(x *kit.X) {
					cl := build(x, k, func(int) *pb.DataConfig { return lib.Config("d") }, full)
					defer lib.Stop(cl.dts...)
					for i := 0; i < n; i++ {
						for j, d := range cl.dts {
							if j == 0 && i < rest {
								continue
							}
							d.Insert(mk(i), &pb.InsertConfig{Count: 1})
						}
					}
					for r := 0; r < 4; r++ {
						for _, d := range cl.dts {
							d.Process(true)
						}
					}
					cl.connect()
					vmc.RandHook = func() float64 { return 0 } // as much as possible
					defer func() { vmc.RandHook = nil }()
					for r := 0; r < 5; r++ {
						for _, d := range cl.dts {
							d.Process(true)
							synctest.Wait()
							x.Step(1)
						}
					}
					for i := range cl.links {
						s := 0
						for _, l := range cl.links[i] {
							if l != nil {
								s += l.sent
							}
						}
						if s > 5*(rest+2)*(k-1)*(k-1) {
							x.Failf("restless", "node %d sent %d data in 5 rounds although all nodes hold almost the same %d", i, s, n)
						}
						x.Out("%d", s)
					}
				})
			}
		}
	}
}

// genTargets: with a size target data moves; whatever the draws, none is lost and nodes below the target get some.
func genTargets(g *kit.G) {
	type tc struct {
		target uint64
		util   float64
	}
	tcs := []tc{{100, 0}, {8, 0.25}, {8, 0.5}, {4, 0.5}, {4, 1}, {6, 0.9}}
	for _, k := range []int{2, 3} {
		for n := 1; n <= 6; n++ {
			for _, c := range tcs {
				for _, place := range []int{0, 1, 2} { // one node, spread, copies everywhere
					for m := 0; m < 16; m++ {
						k, n, c, place, m := k, n, c, place, m
						g.Case(func() string {
							return fmt.Sprintf("%d nodes, target %d/%v, %d data, placed %d, draws %04b", k, c.target, c.util, n, place, m)
						}, func(x *kit.X) {
							cl := build(x, k, target(c.target, c.util), full)
							defer lib.Stop(cl.dts...)
							var ds []*pb.Datum
							for i := 0; i < n; i++ {
								d := mk(i)
								ok := false
								for j, dt := range cl.dts {
									if place == 2 || place == 1 && i%k == j || place == 0 && j == 0 {
										ok = dt.Insert(lib.Clone(d), &pb.InsertConfig{Count: 1}) == nil || ok
									}
								}
								if ok {
									ds = append(ds, d)
								}
							}
							for r := 0; r < 4; r++ {
								for _, d := range cl.dts {
									d.Process(true)
								}
							}
							cl.connect()
							draw := 0
							vmc.RandHook = func() float64 {
								draw++
								if m>>(draw%4)&1 == 1 {
									return 0
								}
								return 0.9999999
							}
							defer func() { vmc.RandHook = nil }()
							for r := 0; r < 8; r++ {
								for i, d := range cl.dts {
									d.Process(true)
									synctest.Wait()
									x.Step(1)
									if !cl.have(x, fmt.Sprintf("round %d of node %d", r, i), ds) {
										return
									}
								}
								time.Sleep(5 * time.Second)
							}
							var l []int
							for _, d := range cl.dts {
								l = append(l, len(lib.Content(d)))
							}
							sort.Ints(l)
							x.Out("%v", l)
						})
					}
				}
			}
		}
	}
}

// schedRound: nodes that hold copies of the same data rebalance at the same time.
func schedRound(k, n int, edge func(i, j int) bool, extra func(cl *cluster) func()) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		cl := build(x, k, target(100, 0), edge)
		defer lib.Stop(cl.dts...)
		var ds []*pb.Datum
		for i := 0; i < n; i++ {
			d := mk(i)
			ds = append(ds, d)
			for _, dt := range cl.dts {
				dt.Insert(lib.Clone(d), &pb.InsertConfig{Count: 1})
			}
		}
		for _, d := range cl.dts {
			d.Process(true)
		}
		cl.connect()
		var fs []func()
		for _, d := range cl.dts {
			d := d
			fs = append(fs, func() {
				d.Process(true)
				time.Sleep(time.Second) // transfers go on after the round
			})
		}
		if extra != nil {
			fs = append(fs, extra(cl))
		}
		lib.Run(x, e, fs...)
		synctest.Wait()
		cl.have(x, "after concurrent rounds", ds)
		x.Out("%s", cl.show())
		for _, d := range cl.dts {
			d.Process(true)
			synctest.Wait()
		}
		cl.have(x, "one round later", ds)
	}
}

func TestCheck(t *testing.T) {
	again := func(cl *cluster) func() {
		return func() { cl.dts[0].Insert(mk(0), &pb.InsertConfig{Count: 1}) }
	}
	kit.Run(t,
		kit.Family{Name: "spread", Gen: genSpread, Share: 2},
		kit.Family{Name: "background", Gen: genBackground},
		kit.Family{Name: "alike", Gen: genAlike},
		kit.Family{Name: "targets", Gen: genTargets, Share: 2},
		kit.Family{Name: "schedules-both-rebalance", Bound: 2, BoundThorough: 3, Delay: true, Sched: schedRound(2, 1, full, nil), Share: 5},
		kit.Family{Name: "schedules-both-rebalance-two-data", Bound: 1, BoundThorough: 2, Delay: true, Sched: schedRound(2, 2, full, nil)},
		kit.Family{Name: "schedules-rebalance-and-insert", Bound: 1, BoundThorough: 2, Delay: true, Sched: schedRound(2, 1, full, again)},
		kit.Family{Name: "schedules-ring-rebalances", Bound: 1, BoundThorough: 2, Delay: true, Sched: schedRound(3, 1, ring(3), nil)},
	)
}

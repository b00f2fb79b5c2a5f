//go:build go1.22

// C18: a search on any graph of nodes.
package c18

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vmc"
	"github.com/bgokden/veri/zzverif/vnet"
)

// graph gives the edges of graph number k over n nodes.
func graph(n, k int) [][]int {
	adj := make([][]int, n)
	b := 0
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j {
				if k>>uint(b)&1 == 1 {
					adj[i] = append(adj[i], j)
				}
				b++
			}
		}
	}
	return adj
}

func reach(adj [][]int, from int) []bool {
	r := make([]bool, len(adj))
	var dfs func(i int)
	dfs = func(i int) {
		if r[i] {
			return
		}
		r[i] = true
		for _, j := range adj[i] {
			dfs(j)
		}
	}
	dfs(from)
	return r
}

var cfg = &pb.DataConfig{Name: "d", NoTarget: true, TargetN: 1000, TargetUtilization: 0.4, Version: 1}

// build makes real nodes whose dataset has exactly the peers of the graph.
func build(x *kit.X, adj [][]int) []*node.Node {
	nlib.Reset()
	vnet.Fault = func(c *vnet.Call) (vnet.Action, time.Duration) {
		if c.Method == "AddPeer" || c.Method == "Join" { // the graph stays as it is
			return vnet.Refuse, 0
		}
		return vnet.OK, 0
	}
	nodes := make([]*node.Node, len(adj))
	for i := range adj {
		nodes[i] = nlib.New(x, i)
	}
	for i := range adj {
		nodes[i].Dataset.GetOrCreateIfNotExists(cfg)
		for _, j := range adj[i] {
			nodes[i].AddPeerElement(&pb.Peer{AddressList: []string{nlib.Addr(j)}, Timestamp: uint64(time.Now().Unix()), DataList: []*pb.DataConfig{cfg}})
		}
		nodes[i].SyncWithPeers()
	}
	synctest.Wait()
	for i := range adj {
		dt, err := nodes[i].Dataset.GetNoCreate("d")
		if err != nil {
			panic(err)
		}
		var want []string
		for _, j := range adj[i] {
			want = append(want, nlib.Addr(j))
		}
		sort.Strings(want)
		if got := nlib.Sources(dt); strings.Join(got, ",") != strings.Join(want, ",") {
			x.Failf("sources", "node %d has peers %v, expected %v", i, got, want)
		}
	}
	return nodes
}

func put(x *kit.X, n *node.Node, d *pb.Datum) {
	dt, err := n.Dataset.GetNoCreate("d")
	if err == nil {
		err = dt.Insert(d, &pb.InsertConfig{Count: 1})
	}
	if err != nil {
		x.Failf("error", "%v", err)
	}
}

type setup struct {
	slow   []time.Duration // how long each forwarded call takes to arrive, in the order they are made
	n, k   int
	adj    [][]int
	place  int // 0: one each; 1: also one that all have; 2: only the last node has data
	nq     int // 1, 2 or 3 queries; 4: the same query twice; 5: and another one
	limit  uint32
	higher bool
	entry  int
}

func (s setup) String() string {
	return fmt.Sprintf("graph %v, delays %v, placement %d, queries %d, limit %d, higher %v, entry %d", s.adj, s.slow, s.place, s.nq, s.limit, s.higher, s.entry)
}

func data(s setup) []map[string]*pb.Datum {
	m := make([]map[string]*pb.Datum, s.n)
	for i := range m {
		m[i] = map[string]*pb.Datum{}
		add := func(d *pb.Datum) { m[i][lib.KeyOf(d)] = d }
		if s.place == 2 && i != s.n-1 {
			continue
		}
		add(lib.D(float32(i+1), 0, "g", fmt.Sprint("own", i)))
		add(lib.D(0.5, float32(i+1), "g", fmt.Sprint("more", i)))
		add(lib.D(0.5, float32(i+1), "h", fmt.Sprint("tied", i)))
		add(lib.D(2, 2, fmt.Sprint("g", i), "tied with the others"))
		add(lib.D(0, 0, fmt.Sprint("z", i), "exactly the query"))
		if s.place == 1 {
			add(lib.D(3, 3, "g", "shared"))
		}
	}
	return m
}

func queries(nq int) []*pb.Datum {
	q := []*pb.Datum{lib.D(0, 0, "", ""), lib.D(4, 4, "", ""), lib.D(0, 3, "", "")}
	if nq == 4 {
		return []*pb.Datum{q[0], lib.Clone(q[0])}
	}
	if nq == 5 {
		return []*pb.Datum{q[0], lib.Clone(q[0]), q[1]}
	}
	return q[:nq]
}

func run(x *kit.X, s setup) {
	nodes := build(x, s.adj)
	defer nlib.Stop(nodes...)
	all := data(s)
	r := reach(s.adj, s.entry)
	best := map[string]float64{}
	for i, m := range all {
		for k, d := range m {
			put(x, nodes[i], lib.Clone(d))
			if r[i] {
				for _, q := range queries(s.nq) {
					sc := lib.Score("VectorDistance", q.Key.Feature, d.Key.Feature)
					if o, ok := best[k]; !ok || lib.Better(sc, o, s.higher) {
						best[k] = sc
					}
				}
			}
		}
	}
	if x.Failed() {
		return
	}
	synctest.Wait()
	vnet.LogCalls = true
	req := nlib.Req("d", s.limit, queries(s.nq)...)
	req.Config.HigherIsBetter = s.higher
	if s.slow != nil {
		req.Config.Timeout = 200000
		fault, nth := vnet.Fault, 0
		var mu sync.Mutex
		vnet.Fault = func(c *vnet.Call) (vnet.Action, time.Duration) {
			if c.Method == "SearchStream" {
				mu.Lock()
				defer mu.Unlock()
				nth++
				if nth > 1 && nth-2 < len(s.slow) { // the first is the client's
					return vnet.OK, s.slow[nth-2]
				}
			}
			return fault(c)
		}
	}
	t0 := time.Now()
	res, err := nlib.Search(nlib.Addr(s.entry), req)
	x.Step(1)
	if err != nil {
		x.Failf("error", "%v", err)
		return
	}
	if e := time.Since(t0); s.slow == nil && e > 1100*time.Millisecond {
		x.Failf("late", "the search took %v", e)
	}
	// results: the best of everything reachable
	var want []float64
	for _, v := range best {
		want = append(want, v)
	}
	sort.Slice(want, func(i, j int) bool { return (want[i] < want[j]) != s.higher })
	if len(want) > int(s.limit) {
		want = want[:s.limit]
	}
	if len(res) != len(want) {
		x.Failf("missing", "%d results, expected %d: %s", len(res), len(want), lib.ShowRes(res))
		return
	}
	seen := map[string]bool{}
	for i, sd := range res {
		k := lib.KeyOf(sd.Datum)
		if seen[k] {
			x.Failf("duplicate", "%s is there twice", k)
		}
		seen[k] = true
		b, ok := best[k]
		if !ok {
			x.Failf("foreign", "%s is not on a reachable node", k)
			return
		}
		if !lib.Near(sd.Score, b) || !lib.Near(sd.Score, want[i]) {
			x.Failf("score", "result %d is %s with %v, its best score is %v, expected %v at this place: %s", i, k, sd.Score, b, want[i], lib.ShowRes(res))
		}
	}
	// executions: a node that executes a query asks each of its peers once
	asked := map[string]int{}
	for _, c := range vnet.Calls() {
		if c.Method == "SearchStream" {
			for _, d := range c.Req.(*pb.SearchRequest).Datum {
				asked[c.To+" "+lib.KeyOf(d)]++
			}
		}
	}
	distinct := map[string]int{}
	for _, q := range queries(s.nq) {
		distinct[lib.KeyOf(q)]++
	}
	for j := range s.adj {
		for q, mult := range distinct {
			in := 0
			for i := range s.adj {
				for _, t := range s.adj[i] {
					if t == j && r[i] {
						in++
					}
				}
			}
			if j == s.entry {
				in += mult // the client
			}
			if got := asked[nlib.Addr(j)+" "+q]; got > in {
				x.Failf("repeated", "node %d was asked %d times for query %s, it has %d reachable askers: some node executed it more than once", j, got, q, in)
			} else if got < in {
				x.Failf("unasked", "node %d was asked %d times for query %s, it has %d reachable askers", j, got, q, in)
			}
		}
	}
	if p := vnet.Problems(); len(p) > 0 {
		x.Failf("stream", "%v", p)
	}
	x.Out("%d", len(res))
}

func three(g *kit.G) {
	for k := 0; k < 64; k++ {
		for place := 0; place < 3; place++ {
			for _, nq := range []int{1, 2, 3, 4, 5} {
				for _, limit := range []uint32{1, 2, 100} {
					for _, higher := range []bool{false, true} {
						s := setup{n: 3, k: k, adj: graph(3, k), place: place, nq: nq, limit: limit, higher: higher}
						g.Case(s.String, func(x *kit.X) { run(x, s) })
					}
				}
			}
		}
	}
}

func four(g *kit.G) {
	for k := 0; k < 4096; k++ {
		s := setup{n: 4, k: k, adj: graph(4, k), place: k % 3, nq: 1 + (k/3)%5, limit: []uint32{100, 2}[k/7%2], entry: 0}
		g.Case(s.String, func(x *kit.X) { run(x, s) })
		if g.Thorough() {
			for e := 1; e < 8; e++ {
				t := s
				t.entry, t.nq, t.place = e%4, 1+(k+e)%5, e%3
				g.Case(t.String, func(x *kit.X) { run(x, t) })
			}
		}
	}
}

// dense: rings and complete graphs of five and six nodes.
func dense(g *kit.G) {
	for n := 5; n <= 6; n++ {
		for kind := 0; kind < 3; kind++ {
			for nq := 1; nq <= 2; nq++ {
				adj := make([][]int, n)
				for i := range adj {
					for j := range adj {
						if i == j {
							continue
						}
						if kind == 0 && j != (i+1)%n || kind == 1 && j != (i+1)%n && i != (j+1)%n {
							continue
						}
						adj[i] = append(adj[i], j)
					}
				}
				s := setup{n: n, adj: adj, place: 1, nq: nq, limit: 100}
				g.Case(s.String, func(x *kit.X) { run(x, s) })
			}
		}
	}
}

// slow: the calls between the nodes take long, each another time; the search allows for that.
func slow(g *kit.G) {
	d := []time.Duration{0, 3 * time.Second, 12 * time.Second}
	for k := 0; k < 64; k++ {
		for m := 0; m < 81; m++ {
			s := setup{n: 3, k: k, adj: graph(3, k), place: m % 3, nq: 1 + m%2, limit: 100}
			s.slow = []time.Duration{d[m%3], d[m/3%3], d[m/9%3], d[m/27%3]}
			if !g.Thorough() && m%2 == 1 && k%2 == 0 {
				continue
			}
			g.Case(s.String, func(x *kit.X) { run(x, s) })
		}
	}
}

// again: one search reaches a node by several ways, the later ones after a while.
func again(g *kit.G) {
	gaps := []time.Duration{0, time.Millisecond, 900 * time.Millisecond, 2 * time.Second, 20 * time.Second, 70 * time.Second, 4 * time.Minute}
	for a := range gaps {
		for b := range gaps {
			a, b := gaps[a], gaps[b]
			g.Case(func() string { return fmt.Sprintf("one search arrives again after %v and %v", a, b) }, func(x *kit.X) {
				nlib.Reset()
				n := nlib.New(x, 0)
				defer nlib.Stop(n)
				dt, _ := n.Dataset.GetOrCreateIfNotExists(cfg)
				dt.Insert(lib.D(1, 1, "g", "l"), &pb.InsertConfig{Count: 1})
				p := &lib.Peer{ID: "p"}
				begin := time.Now()
				for _, at := range []time.Duration{0, a, a + b} {
					time.Sleep(at - time.Since(begin))
					if at >= 290*time.Second {
						break
					}
					dt.AddSource(p)
					p.Searches = 0
					req := nlib.Req("d", 10, queries(1)...)
					req.Config.Uuid = "one-search"
					req.Config.CacheDuration = 0
					if _, err := nlib.Search(nlib.Addr(0), req); err != nil {
						x.Failf("error", "%v", err)
					}
					x.Step(1)
					if at == 0 && p.Searches > 1 || at > 0 && p.Searches > 0 {
						x.Failf("repeated", "the search was executed again after %v", at)
					}
				}
				x.Out("ok")
			})
		}
	}
}

// twice: two searches for the same query do not take each other for repetitions.
func twice(g *kit.G) {
	for k := 0; k < 64; k++ {
		for _, gap := range []time.Duration{0, time.Millisecond, 2 * time.Second} {
			for entry2 := 0; entry2 < 3; entry2++ {
				k, gap, entry2 := k, gap, entry2
				g.Case(func() string { return fmt.Sprintf("graph %v, entries 0 and %d, %v apart", graph(3, k), entry2, gap) }, func(x *kit.X) {
					s := setup{n: 3, adj: graph(3, k)}
					nodes := build(x, s.adj)
					defer nlib.Stop(nodes...)
					all := data(s)
					for i, m := range all {
						for _, d := range m {
							put(x, nodes[i], lib.Clone(d))
						}
					}
					var wg sync.WaitGroup
					for i, e := range []int{0, entry2} {
						wg.Add(1)
						go func() {
							defer wg.Done()
							if i == 1 {
								time.Sleep(gap)
							}
							want := 0
							for j, ok := range reach(s.adj, e) {
								if ok {
									want += len(all[j])
								}
							}
							res, err := nlib.Search(nlib.Addr(e), nlib.Req("d", 100, queries(1)...))
							if err != nil || len(res) != want {
								x.Failf("missing", "search %d through node %d: %d results, expected %d (%v)", i, e, len(res), want, err)
							}
						}()
					}
					wg.Wait()
					x.Step(2)
					x.Out("ok")
				})
			}
		}
	}
}

// sched: the same query arriving at one node from several sides at once is executed once.
func arrivals(nq, sides int) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		nlib.Reset()
		n := nlib.New(x, 0)
		dt, _ := n.Dataset.GetOrCreateIfNotExists(cfg)
		p := &lib.Peer{ID: "p"}
		dt.AddSource(p)
		dt.Insert(lib.D(1, 1, "g", "l"), &pb.InsertConfig{Count: 1})
		synctest.Wait()
		var fs []func()
		got := make([]int, sides)
		for i := 0; i < sides; i++ {
			fs = append(fs, func() {
				req := nlib.Req("d", 10, queries(nq)...)
				req.Config.Uuid = "one-search"
				res, err := nlib.Search(nlib.Addr(0), req)
				if err != nil {
					x.Failf("error", "%v", err)
				}
				got[i] = len(res)
			})
		}
		lib.Run(x, e, fs...)
		sum := 0
		for _, c := range got {
			sum += c
		}
		x.Out("%v", got)
		if p.Searches > nq {
			x.Failf("repeated", "the search was executed %d times for %d queries", p.Searches, nq)
		}
		if p.Searches < nq || sum < 1 {
			x.Failf("missing", "the search was executed %d times for %d queries, results %v", p.Searches, nq, got)
		}
		nlib.Stop(n)
	}
}

// cycle: schedules of a search on a small cyclic graph.
func cycle(adj [][]int) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		s := setup{n: len(adj), adj: adj}
		nodes := build(x, adj)
		want := 0
		for i, m := range data(s) {
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				put(x, nodes[i], lib.Clone(m[k]))
				want++
			}
		}
		synctest.Wait()
		for _, n := range nodes { // how many connections are pooled by now is a matter of chance
			n.ConnectionCache.Provider.Close()
			*n.ConnectionCache = *util.NewConnectionCache()
		}
		lib.Run(x, e, func() {
			res, err := nlib.Search(nlib.Addr(0), nlib.Req("d", 100, queries(1)...))
			if err != nil || len(res) != want {
				x.Failf("missing", "%d results, expected %d (%v)", len(res), want, err)
			}
			x.Out("%d", len(res))
		})
		nlib.Stop(nodes...)
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "three-nodes", Gen: three, Share: 3},
		kit.Family{Name: "four-nodes", Gen: four, Share: 3},
		kit.Family{Name: "larger", Gen: dense},
		kit.Family{Name: "slow", Gen: slow},
		kit.Family{Name: "again", Gen: again},
		kit.Family{Name: "two-searches", Gen: twice},
		kit.Family{Name: "two-arrivals", Bound: 2, BoundThorough: 3, Delay: true, Sched: arrivals(1, 2), Share: 2},
		kit.Family{Name: "three-arrivals", Bound: 1, BoundThorough: 2, Delay: true, Sched: arrivals(1, 3)},
		kit.Family{Name: "two-arrivals-two-queries", Bound: 1, BoundThorough: 2, Delay: true, Sched: arrivals(2, 2)},
		kit.Family{Name: "cycle-of-two", Bound: 1, BoundThorough: 2, Delay: true, Sched: cycle([][]int{{1}, {0}})},
		kit.Family{Name: "triangle", Bound: 1, BoundThorough: 1, Delay: true, Sched: cycle([][]int{{1, 2}, {2}, {1}})},
	)
}

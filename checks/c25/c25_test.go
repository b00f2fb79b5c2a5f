//go:build go1.22

// C25: any node of a cluster answers for the whole cluster.
package c25

import (
	"fmt"
	"math"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vnet"
)

const settle = 200 * time.Second // several rounds of membership and exchange

// topologies: the addresses each node joins.
type topo struct {
	name string
	join [][]int
}

var topos = map[int][]topo{
	2: {{"1 joins 0", [][]int{nil, {0}}}},
	3: {{"1 and 2 join 0", [][]int{nil, {0}, {0}}}, {"2 joins 1 joins 0", [][]int{nil, {0}, {1}}}},
	4: {{"1, 2 and 3 join 0", [][]int{nil, {0}, {0}, {0}}}, {"3 joins 2 joins 1 joins 0", [][]int{nil, {0}, {1}, {2}}}},
}

var configs = []struct {
	name   string
	c      *pb.DataConfig
	copies int // copies an acknowledged insert has
}{
	{"no replication", &pb.DataConfig{Name: "d", NoTarget: true, TargetN: 1000, TargetUtilization: 0.4, Version: 1}, 1},
	{"two copies", &pb.DataConfig{Name: "d", NoTarget: true, TargetN: 1000, TargetUtilization: 0.4, Version: 1, ReplicationOnInsert: 2, EnforceReplicationOnInsert: true}, 2},
	{"default", &pb.DataConfig{Name: "d", TargetN: 1000, TargetUtilization: 0.4, ReplicationOnInsert: 1, EnforceReplicationOnInsert: true}, 1},
}

// op is one step of a history.
type op struct {
	kind byte // i insert, t insert with a time to live, u update, w wait, l lose a node, r restart a node, p cut a node off for a while, P for long, f one call fails
	node int
}

func (o op) String() string {
	return map[byte]string{'i': "insert at ", 't': "insert for 60 s at ", 'u': "update the first at ", 'w': "wait", 'l': "lose ", 'r': "restart ", 'p': "cut off for 130 s ", 'P': "cut off for 900 s ", 'f': "fail the next search of "}[o.kind] + map[bool]string{true: "", false: fmt.Sprint(o.node)}[o.kind == 'w']
}

type datum struct {
	d      *pb.Datum
	vals   map[string]bool // acknowledged values
	at     map[int]bool    // nodes that acknowledged it
	copies int             // the least number of running nodes that hold it
	until  time.Time
	maybe  bool // refused for want of copies: it may be there
}

type cluster struct {
	x     *kit.X
	t     topo
	nodes []*node.Node
	alive []bool
	cut   []bool
	flaky int // calls to this node's search fail
	all   map[string]*datum
	first *pb.Datum
	k     int
	lost  int
	conf  int
}

func (c *cluster) up(i int) {
	var s []string
	for _, j := range c.t.join[i] {
		s = append(s, nlib.Addr(j))
	}
	c.nodes[i] = nlib.NewIn(filepath.Join(c.x.Dir, fmt.Sprint("n", i)), i, s...)
	c.alive[i] = true
}

func num(addr string) int {
	var i int
	if _, err := fmt.Sscanf(addr, "localhost:%d", &i); err != nil {
		return -1
	}
	return i - 7000
}

func form(x *kit.X, t topo, conf, creator int) *cluster {
	nlib.Reset()
	x.Tmp()
	n := len(t.join)
	c := &cluster{x: x, t: t, nodes: make([]*node.Node, n), alive: make([]bool, n), cut: make([]bool, n), flaky: -1, all: map[string]*datum{}, conf: conf}
	vnet.Fault = func(k *vnet.Call) (vnet.Action, time.Duration) {
		if t := num(k.To); t >= 0 && t < n && c.cut[t] {
			return vnet.Refuse, 0
		}
		// what a node that is cut off announces does not arrive either
		var p *pb.Peer
		switch r := k.Req.(type) {
		case *pb.AddPeerRequest:
			p = r.GetPeer()
		case *pb.JoinRequest:
			p = r.GetPeer()
		}
		for _, a := range p.GetAddressList() {
			if t := num(a); t >= 0 && t < n && c.cut[t] {
				return vnet.Refuse, 0
			}
		}
		if c.flaky >= 0 && num(k.To) == c.flaky && k.Method == "SearchStream" {
			return vnet.Refuse, 0
		}
		return vnet.OK, 0
	}
	for i := range t.join {
		c.up(i)
		time.Sleep(time.Second)
	}
	if _, err := nlib.Create(nlib.Addr(creator), configs[conf].c); err != nil {
		x.Failf("error", "create at %d: %v", creator, err)
	}
	// an empty dataset is dropped by maintenance; this one keeps it
	c.insert(creator, lib.D(50, 50, "seed", "seed"), 1, true)
	c.settle()
	return c
}

// settle gives the nodes time to find each other: three minutes, and up to twenty if they need them.
func (c *cluster) settle() {
	time.Sleep(settle)
	held := false
	for i := range c.nodes {
		held = held || c.alive[i] && len(c.content(i)) > 0
	}
	if !held {
		return // an empty dataset need not stay
	}
	for t := 0; t < 50; t++ {
		ok := true
		for i, n := range c.nodes {
			if !c.alive[i] {
				continue
			}
			l := strings.Join(nlib.Sources(nlib.Datasets(n)["d"]), " ")
			for j := range c.nodes {
				ok = ok && (i == j || !c.alive[j] || strings.Contains(l, nlib.Addr(j)))
			}
		}
		if ok {
			return
		}
		time.Sleep(20 * time.Second)
	}
	c.x.Failf("apart", "the nodes of the cluster do not find each other: %s", c.peers())
}

// insert puts a datum; local means without further copies.
func (c *cluster) insert(i int, d *pb.Datum, ttl uint64, local bool) {
	var cfg *pb.InsertConfig
	if local {
		cfg, ttl = &pb.InsertConfig{Count: 1}, 0
	} else if ttl > 0 {
		cfg = &pb.InsertConfig{TTL: ttl}
	}
	k, v := lib.KeyOf(d), lib.ValOf(d)
	e := c.all[k]
	if e == nil {
		e = &datum{d: d, vals: map[string]bool{}, at: map[int]bool{}, maybe: true}
		c.all[k] = e
	}
	if ttl > 0 {
		e.until = time.Now().Add(time.Duration(ttl) * time.Second)
	}
	e.vals[v] = true
	err := nlib.Insert(nlib.Addr(i), "d", lib.Clone(d), cfg)
	c.x.Step(1)
	if err == nil {
		e.maybe = false
		e.at[i] = true
		if !local && configs[c.conf].copies > e.copies {
			e.copies = configs[c.conf].copies
		}
		if local {
			e.copies = 1
		}
	} else if strings.Contains(err.Error(), "Replicas is less") {
		n := 0
		for j := range c.nodes {
			if c.alive[j] && !c.cut[j] {
				n++
			}
		}
		if n >= configs[c.conf].copies && c.lost == 0 {
			c.x.Failf("refused", "an insert at %d with %d nodes up: %v", i, n, err)
		}
	} else {
		c.x.Failf("refused", "an insert at %d: %v", i, err)
	}
}

// gone: the node has stopped, and the data it held in memory with it.
func (c *cluster) gone(i int) {
	c.alive[i], c.nodes[i] = false, nil
	c.lost++
	for _, e := range c.all {
		delete(e.at, i)
		if e.copies > 0 {
			e.copies--
		}
	}
}

func (c *cluster) do(o op) bool {
	switch o.kind {
	case 'i', 't':
		if !c.alive[o.node] {
			return false
		}
		c.k++
		d := lib.D(float32((c.k+1)/2), 0, []string{"g", "h"}[c.k%2], fmt.Sprint("v", c.k)) // two and two are equally far away
		if o.kind == 't' {
			c.insert(o.node, d, 60, false)
			return true
		}
		if c.first == nil {
			c.first = d
		}
		c.insert(o.node, d, 0, false)
	case 'u':
		if !c.alive[o.node] || c.first == nil {
			return false
		}
		c.k++
		d := lib.Clone(c.first)
		d.Value.Version = uint64(c.k)
		d.Value.Label = []byte(fmt.Sprint("u", c.k))
		c.insert(o.node, d, 0, false)
	case 'w':
		c.settle()
	case 'l':
		if !c.alive[o.node] {
			return false
		}
		nlib.Halt(o.node, c.nodes[o.node])
		c.gone(o.node)
	case 'r':
		if !c.alive[o.node] {
			return false
		}
		nlib.Halt(o.node, c.nodes[o.node])
		c.gone(o.node)
		time.Sleep(2 * time.Second)
		c.up(o.node)
		c.settle()
	case 'p', 'P':
		if !c.alive[o.node] {
			return false
		}
		c.cut[o.node] = true
		c.check("while a node is cut off", o.node)
		if o.kind == 'p' {
			time.Sleep(130 * time.Second)
		} else {
			time.Sleep(900 * time.Second)
		}
		c.check("late while a node is cut off", o.node)
		c.cut[o.node] = false
		c.settle()
	case 'f':
		if !c.alive[o.node] {
			return false
		}
		c.flaky = o.node
		c.check("while the searches of a node fail", o.node)
		c.flaky = -1
	}
	return true
}

// check searches through every node; the data only node without holds need not be found by the others (and none but its own by it).
func (c *cluster) check(what string, without int) {
	for i := range c.nodes {
		if !c.alive[i] || i == without {
			continue
		}
		for _, limit := range []uint32{100, 2} {
			c.search(what, i, limit, without)
			if c.x.Failed() {
				return
			}
		}
	}
}

func (c *cluster) search(what string, i int, limit uint32, without int) {
	now := time.Now()
	must, may := map[string]bool{}, map[string]bool{}
	for k, e := range c.all {
		if !e.until.IsZero() && now.After(e.until.Add(3*time.Second)) {
			continue // it has expired
		}
		may[k] = true
		if e.maybe || !e.until.IsZero() && now.After(e.until.Add(-3*time.Second)) {
			continue
		}
		holders := 0
		for j := range e.at {
			if c.alive[j] && j != without {
				holders++
			}
		}
		gone := 0
		if without >= 0 {
			gone = 1
		}
		if holders > 0 || e.copies > gone {
			must[k] = true
		}
	}
	// what a reachable node holds is to be found
	for j := range c.nodes {
		if c.alive[j] && j != without {
			for _, k := range c.content(j) {
				if e := c.all[k]; e == nil {
					c.x.Failf("ghost", "%s: node %d holds %s, which was never inserted", what, j, k)
					return
				} else if may[k] && (e.until.IsZero() || now.Before(e.until.Add(-3*time.Second))) {
					must[k] = true
				}
			}
		}
	}
	q := lib.D(0.25, 0.5, "", "")
	if limit < 100 {
		q = lib.D(1, 0, "", "") // exactly what the first inserts stored
	}
	req := nlib.Req("d", limit, q)
	res, err := nlib.Search(nlib.Addr(i), req)
	c.x.Step(1)
	if err != nil && len(must) == 0 && strings.Contains(err.Error(), "does not exist") {
		return // an empty dataset may be dropped
	}
	if err != nil {
		c.x.Failf("error", "%s: a search through %d: %v", what, i, err)
		return
	}
	if e := time.Since(now); e > 1100*time.Millisecond {
		c.x.Failf("late", "%s: a search through %d took %v", what, i, e)
		return
	}
	got := map[string]bool{}
	last := 0.0
	for _, s := range res {
		k := lib.KeyOf(s.Datum)
		e := c.all[k]
		if e == nil || !may[k] {
			c.x.Failf("ghost", "%s: a search through %d gives %s, which is not (or no longer) there", what, i, k)
			return
		}
		if got[k] {
			c.x.Failf("duplicate", "%s: a search through %d gives %s twice", what, i, k)
			return
		}
		got[k] = true
		if !e.vals[lib.ValOf(s.Datum)] {
			c.x.Failf("value", "%s: a search through %d gives %s the value %s", what, i, k, lib.ValOf(s.Datum))
			return
		}
		if w := lib.Score("VectorDistance", q.Key.Feature, e.d.Key.Feature); !lib.Near(s.Score, w) {
			c.x.Failf("score", "%s: a search through %d gives %s the score %v, not %v", what, i, k, s.Score, w)
			return
		}
		if s.Score < last {
			c.x.Failf("order", "%s: a search through %d: %s", what, i, lib.ShowRes(res))
			return
		}
		last = s.Score
	}
	if len(res) > int(limit) {
		c.x.Failf("limit", "%s: a search through %d gives %d results", what, i, len(res))
		return
	}
	var l []string
	for k := range must {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		w := lib.Score("VectorDistance", q.Key.Feature, c.all[k].d.Key.Feature)
		if !got[k] && (len(res) < int(limit) || w < last && !lib.Near(w, last)) {
			c.x.Failf("missing", "%s: a search through %d (limit %d) misses %s (value %v): %s; peers: %s", what, i, limit, k, c.all[k].vals, lib.ShowRes(res), c.peers())
			return
		}
	}
	if limit == 100 {
		c.x.Out("%d of %d", len(res), len(must))
	}
}

func (c *cluster) peers() string {
	s := ""
	for i, n := range c.nodes {
		if n != nil {
			s += fmt.Sprintf("%d:%v ", i, nlib.Sources(nlib.Datasets(n)["d"]))
		}
	}
	return s
}

func (c *cluster) content(i int) []string {
	d := nlib.Datasets(c.nodes[i])["d"]
	if d == nil {
		return nil
	}
	var l []string
	for k := range lib.Content(d) {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func alphabet(n int) []op {
	var l []op
	for _, k := range []byte("iturlpPf") {
		for i := 0; i < n; i++ {
			l = append(l, op{k, i})
		}
	}
	return append(l, op{'w', 0})
}

// valid leaves out histories that are no different from others.
func valid(h []op) bool {
	dead := map[int]bool{}
	inserted, lost := false, false
	for i, o := range h {
		if o.kind != 'w' && dead[o.node] {
			return false
		}
		switch o.kind {
		case 'i':
			inserted = true
		case 'u':
			if !inserted {
				return false
			}
		case 'l':
			if lost {
				return false
			}
			lost = true
			dead[o.node] = true
		case 'P':
			if lost { // the nodes may have nothing left to join
				return false
			}
		case 'w':
			if i == 0 || h[i-1].kind == 'w' {
				return false
			}
		}
	}
	return true
}

func histories(n, depth int) func(g *kit.G) {
	return func(g *kit.G) {
		al := alphabet(n)
		for _, t := range topos[n] {
			for conf := range configs {
				var rec func(h []op)
				rec = func(h []op) {
					if len(h) == depth {
						t, conf, h := t, conf, append([]op(nil), h...)
						g.Case(func() string { return fmt.Sprintf("%s, %s: %v", t.name, configs[conf].name, h) }, func(x *kit.X) { run(x, t, conf, h) })
						return
					}
					for _, o := range al {
						if nh := append(h, o); valid(nh) {
							rec(nh)
						}
					}
				}
				rec(nil)
			}
		}
	}
}

func run(x *kit.X, t topo, conf int, h []op) {
	c := form(x, t, conf, len(t.join)-1)
	defer func() { nlib.Stop(c.nodes...) }()
	if x.Failed() {
		return
	}
	c.check("after the cluster has formed", -1)
	for i, o := range h {
		if x.Failed() {
			return
		}
		c.do(o)
		if x.Failed() {
			return
		}
		c.check(fmt.Sprintf("after step %d (%v)", i+1, o), -1)
	}
	if x.Failed() {
		return
	}
	time.Sleep(settle)
	synctest.Wait()
	c.check("at the end", -1)
}

func depth(n, quick, thorough int) func(g *kit.G) {
	return func(g *kit.G) {
		d := quick
		if g.Thorough() {
			d = thorough
		}
		histories(n, d)(g)
	}
}

func mk(f []float32, group, label string) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: f, GroupLabel: []byte(group), Size1: 1, Dim1: uint32(len(f))}, Value: &pb.DatumValue{Version: 1, Label: []byte(label)}}
}

func v(f ...float32) []float32 { return f }

// what the queries family stores
func stock() []*pb.Datum {
	return []*pb.Datum{
		mk(v(0, 0), `{"g":1}`, `{"a":1}`),
		mk(v(1, 2), `{"g":1}`, `{"b":1}`),
		mk(v(1, 2), `{"h":1}`, `{"a":{"b":2}}`),
		mk(v(-1, -2), `{"h":1}`, ``),
		mk(v(3, 0), ``, `not json`),
		mk(v(2), `{"g":1}`, `{"a":null}`),
		mk(v(1, 2, 3), `{"h":1}`, `{"a":1,"b":1}`),
		mk(v(0.5, -0.25), ``, `{"a":1}`),
	}
}

var asked = []struct {
	name string
	q    [][]float32
}{
	{"zero", [][]float32{v(0, 0)}}, {"exact", [][]float32{v(1, 2)}}, {"opposite", [][]float32{v(-1, -2)}}, {"between", [][]float32{v(0.7, 0.3)}},
	{"short", [][]float32{v(2)}}, {"long", [][]float32{v(1, 2, 3)}}, {"two", [][]float32{v(0, 0), v(3, 0)}}, {"three", [][]float32{v(1, 2), v(0.5, -0.25), v(9, 9)}},
}

var sieves = []struct{ f, g []string }{{}, {f: []string{"a"}}, {g: []string{"g"}}, {f: []string{"a"}, g: []string{"h"}}, {f: []string{"a.b"}}, {f: []string{"zz"}}}

// queries: every kind of search through every node of a cluster, over data that lies on one, some or all nodes.
func queries(g *kit.G) {
	n := 3
	for ti, t := range topos[n] {
		for place := 0; place < 10; place++ {
			for entry := 0; entry < n; entry++ {
				t, place, entry := t, place, entry
				if !g.Thorough() && (place+entry+ti)%2 == 1 {
					continue
				}
				g.Case(func() string { return fmt.Sprintf("%s, placement %d, searches through %d", t.name, place, entry) }, func(x *kit.X) {
					c := form(x, t, 0, 0)
					defer func() { nlib.Stop(c.nodes...) }()
					if x.Failed() {
						return
					}
					ds := []*pb.Datum{lib.D(50, 50, "seed", "seed")}
					for i, d := range stock() {
						ds = append(ds, d)
						for j := 0; j < n; j++ {
							on := false
							switch {
							case place < 3: // all on one
								on = j == place
							case place < 6: // one each
								on = j == (i+place)%3
							case place < 9: // two each
								on = j != (i+place)%3
							default:
								on = true
							}
							if on {
								if err := nlib.Insert(nlib.Addr(j), "d", lib.Clone(d), &pb.InsertConfig{Count: 1}); err != nil {
									x.Failf("refused", "%v", err)
								}
							}
						}
					}
					c.queries(entry, ds)
				})
			}
		}
	}
}

func (c *cluster) queries(entry int, ds []*pb.Datum) {
	x := c.x
	for _, a := range asked {
		for _, f := range []string{"VectorDistance", "VectorMultiplication", "CosineSimilarity", "QuickVectorDistance", "AngularDistance", "no such function"} {
			for _, hi := range []bool{false, true} {
				for si, s := range sieves {
					for _, lim := range []uint32{1, 3, 100} {
						for ctx := 0; ctx < 3; ctx++ { // none, a context, a prioritised one
							for gl := uint32(0); gl < 3; gl++ {
								if (ctx > 0 || gl > 0) && lim < 100 || ctx > 0 && si > 1 {
									continue // with a limit the candidates of each node differ
								}
								var qs []*pb.Datum
								for _, q := range a.q {
									qs = append(qs, mk(q, "", ""))
								}
								req := nlib.Req("d", lim, qs...)
								req.Config.ScoreFuncName, req.Config.HigherIsBetter = f, hi
								req.Config.Filters, req.Config.GroupFilters = s.f, s.g
								req.Config.GroupLimit = gl
								if ctx > 0 {
									req.Context = &pb.SearchContext{Datum: []*pb.Datum{mk(v(0.4, 1.5), "", "")}, Prioritize: ctx == 2}
								}
								var cand []lib.Scored
								groups := map[string][]lib.Scored{}
								for _, d := range ds {
									if !lib.Passes(d, req.Config) {
										continue
									}
									set, best := false, 0.0
									add := func(s float64) {
										if !set || hi && s > best || !hi && s < best {
											set, best = true, s
										}
									}
									if ctx < 2 {
										for _, q := range a.q {
											add(lib.Score(f, d.Key.Feature, q))
										}
									}
									if ctx > 0 {
										add(lib.Score(f, d.Key.Feature, v(0.4, 1.5)))
									}
									e := lib.Scored{Key: lib.KeyOf(d), Val: lib.ValOf(d), Score: best}
									cand = append(cand, e)
									groups[string(d.Key.GroupLabel)] = append(groups[string(d.Key.GroupLabel)], e)
								}
								tie := false
								if gl > 0 {
									cand = nil
									for _, l := range groups {
										sort.Slice(l, func(i, j int) bool { return (l[i].Score > l[j].Score) == hi && l[i].Score != l[j].Score })
										m, sum := int(gl), 0.0
										if m > len(l) {
											m = len(l)
										}
										for i, e := range l {
											if i < m {
												sum += e.Score
											}
											tie = tie || i > 0 && lib.Near(e.Score, l[0].Score)
										}
										if !hi {
											sum /= float64(m * m)
										}
										cand = append(cand, lib.Scored{Key: l[0].Key, Val: l[0].Val, Score: sum})
									}
								}
								res, err := nlib.Search(nlib.Addr(entry), req)
								x.Step(1)
								what := fmt.Sprintf("%s, %s higher=%v, filters %v %v, limit %d, context %d, group limit %d through node %d", a.name, f, hi, s.f, s.g, lim, ctx, gl, entry)
								if err != nil {
									x.Failf("error", "%s: %v", what, err)
									return
								}
								if tie { // any of the equals may stand for its group
									if len(res) != len(cand) {
										x.Failf("groups", "%s: %d results for %d groups: %s", what, len(res), len(cand), lib.ShowRes(res))
										return
									}
									var got, want []float64
									for i := range cand {
										got, want = append(got, res[i].Score), append(want, cand[i].Score)
									}
									sort.Float64s(got)
									sort.Float64s(want)
									for i := range got {
										if !lib.Near(got[i], want[i]) {
											x.Failf("groups", "%s: group scores %v, expected %v", what, got, want)
											return
										}
									}
									continue
								}
								if sig, msg := lib.TopK(res, cand, int(lim), hi); sig != "" {
									x.Failf("query-"+sig, "%s: %s; results %s", what, msg, lib.ShowRes(res))
									return
								}
							}
						}
					}
				}
			}
		}
	}
	for _, t := range []uint64{50, 1000, 1 << 31, 1 << 32, 1 << 53, math.MaxInt64 / 1000000, math.MaxInt64/1000000 + 1, math.MaxInt64, 1 << 63, math.MaxUint64 - 1000, math.MaxUint64} {
		for _, lim := range []uint32{1, 100} {
			req := nlib.Req("d", lim, mk(v(0.4, 1.5), "", ""))
			req.Config.Timeout, req.Config.ScoreFuncName = t, "VectorDistance"
			var cand []lib.Scored
			for _, d := range ds {
				cand = append(cand, lib.Scored{Key: lib.KeyOf(d), Val: lib.ValOf(d), Score: lib.Score("VectorDistance", d.Key.Feature, v(0.4, 1.5))})
			}
			res, err := nlib.Search(nlib.Addr(entry), req)
			x.Step(1)
			if err != nil {
				x.Failf("error", "timeout %d ms: %v", t, err)
				return
			}
			if sig, msg := lib.TopK(res, cand, int(lim), false); sig != "" {
				x.Failf("timeout-"+sig, "timeout %d ms, limit %d through node %d: %s; results %s", t, lim, entry, msg, lib.ShowRes(res))
				return
			}
		}
	}
	x.Out("%d", entry)
}

// many: more data than any buffer on the way holds.
func many(g *kit.G) {
	for n := 2; n <= 3; n++ {
		for _, t := range topos[n] {
			for _, size := range []int{45, 99, 160, 450} {
				for entry := 0; entry < n; entry++ {
					for place := 0; place <= n; place++ { // all on one node, or one by one
						t, n, size, entry, place := t, n, size, entry, place
						g.Case(func() string {
							return fmt.Sprintf("%s, %d data, placement %d, searches through %d", t.name, size, place, entry)
						}, func(x *kit.X) {
							c := form(x, t, 0, 0)
							defer func() { nlib.Stop(c.nodes...) }()
							if x.Failed() {
								return
							}
							ds := []*pb.Datum{lib.D(50, 50, "seed", "seed")}
							for i := 0; i < size; i++ {
								d := mk(v(float32(i), float32(i%7)), fmt.Sprint("g", i%11), fmt.Sprint("l", i))
								ds = append(ds, d)
								j := place
								if place == n {
									j = i % n
								}
								if err := nlib.Insert(nlib.Addr(j), "d", lib.Clone(d), &pb.InsertConfig{Count: 1}); err != nil {
									x.Failf("refused", "%v", err)
									return
								}
							}
							for _, lim := range []uint32{1, 49, 50, 51, 99, 100, 101, 128, 300, 1000} {
								for _, hi := range []bool{false, true} {
									qs := []*pb.Datum{mk(v(3, 1), "", ""), mk(v(200, 0), "", "")}
									req := nlib.Req("d", lim, qs...)
									req.Config.ScoreFuncName, req.Config.HigherIsBetter = "VectorDistance", hi
									var cand []lib.Scored
									for _, d := range ds {
										best := lib.Score("VectorDistance", d.Key.Feature, qs[0].Key.Feature)
										if b := lib.Score("VectorDistance", d.Key.Feature, qs[1].Key.Feature); lib.Better(b, best, hi) {
											best = b
										}
										cand = append(cand, lib.Scored{Key: lib.KeyOf(d), Val: lib.ValOf(d), Score: best})
									}
									res, err := nlib.Search(nlib.Addr(entry), req)
									x.Step(1)
									if err != nil {
										x.Failf("error", "limit %d: %v", lim, err)
										return
									}
									if sig, msg := lib.TopK(res, cand, int(lim), hi); sig != "" {
										x.Failf("many-"+sig, "limit %d higher=%v: %s", lim, hi, msg)
										return
									}
								}
							}
							x.Out("%d", size)
						})
					}
				}
			}
		}
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "two-nodes", Gen: depth(2, 3, 4), Share: 2},
		kit.Family{Name: "three-nodes", Gen: depth(3, 2, 3), Share: 3},
		kit.Family{Name: "queries", Gen: queries},
		kit.Family{Name: "many", Gen: many},
		kit.Family{Name: "four-nodes", Gen: depth(4, 1, 2)},
	)
}

//go:build go1.22

// C17: membership.
package c17

import (
	"context"
	"fmt"
	"net"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vmc"
	"github.com/bgokden/veri/zzverif/vnet"
)

const tooOld = 300 // seconds, documented in node.IsRecent

func id(p *pb.Peer) string {
	l := append([]string(nil), p.GetAddressList()...)
	sort.Strings(l)
	return strings.Join(l, ",")
}

// peers lists the peer records of a node.
func peers(n *node.Node) map[string][]*pb.Peer {
	m := map[string][]*pb.Peer{}
	for _, p := range n.PeerListItems() {
		m[id(p)] = append(m[id(p)], p)
	}
	return m
}

// ---------------------------------------------------------------- records

type op struct {
	who  int // 0: p, 1: p with its addresses in the other order, 2: q, 3: the node itself, -1: wait
	age  int // seconds
	wait int
	via  int // 0: AddPeer, 1: Join
}

func (o op) String() string {
	if o.who < 0 {
		return fmt.Sprintf("wait %d s", o.wait)
	}
	return fmt.Sprintf("%s of age %d by %s", []string{"p", "p'", "q", "self"}[o.who], o.age, []string{"add", "join"}[o.via])
}

func addrs(who int) []string {
	switch who {
	case 0:
		return []string{"p1:1", "p2:2"}
	case 1:
		return []string{"p2:2", "p1:1"}
	case 2:
		return []string{"q:1"}
	}
	return []string{nlib.Addr(0)}
}

func ops(thorough bool) []op {
	var l []op
	for _, age := range []int{0, 30, 299, 300, 400} {
		l = append(l, op{who: 0, age: age})
	}
	l = append(l, op{who: 1, age: 10}, op{who: 1, age: 100, via: 1}, op{who: 0, age: 200, via: 1}, op{who: 2, age: 20}, op{who: 2, age: 350, via: 1}, op{who: 3, age: 0}, op{who: 3, age: 50, via: 1},
		op{who: -1, wait: 45}, op{who: -1, wait: 301})
	if thorough {
		l = append(l, op{who: 0, age: 301, via: 1}, op{who: -1, wait: 1}, op{who: 2, age: 299})
	}
	return l
}

func records(g *kit.G) {
	depth := 4
	all := ops(g.Thorough())
	var rec func(seq []op)
	rec = func(seq []op) {
		if len(seq) == depth {
			s := append([]op(nil), seq...)
			g.Case(func() string { return fmt.Sprint(s) }, func(x *kit.X) { runRecords(x, s) })
			return
		}
		for _, o := range all {
			rec(append(seq, o))
		}
	}
	rec(nil)
}

type known struct {
	ts   []uint64 // admitted timestamps
	best uint64
	tag  map[uint64]map[string]bool
}

func runRecords(x *kit.X, seq []op) {
	nlib.Reset()
	n := nlib.New(x, 0)
	defer nlib.Stop(n)
	synctest.Wait()
	time.Sleep(500 * time.Millisecond) // not at a tick
	ref := map[string]*known{}
	compare := func(what string) {
		now := uint64(time.Now().Unix())
		got := peers(n)
		for k, l := range got {
			if len(l) > 1 {
				x.Failf("duplicate", "%s: %d records of %s", what, len(l), k)
			}
			if k == nlib.Addr(0) {
				x.Failf("self", "%s: the node is in its own list", what)
			}
			r := ref[k]
			if r == nil {
				x.Failf("admitted", "%s: %s is in the list and was never a valid record", what, k)
				return
			}
			p := l[0]
			if p.Timestamp != r.best || !r.tag[p.Timestamp][p.Version] {
				x.Failf("older", "%s: the record of %s is %q of %d s ago, the newest one received is %d s old", what, k, p.Version, now-p.Timestamp, now-r.best)
			}
			if r.best+tooOld+62 < now {
				x.Failf("stale", "%s: the record of %s is %d s old and still there", what, k, now-r.best)
			}
		}
		for k, r := range ref {
			if len(got[k]) == 0 && r.best+tooOld > now+1 {
				x.Failf("lost", "%s: the record of %s (%d s old) is missing", what, k, now-r.best)
			}
		}
	}
	for i, o := range seq {
		x.Step(1)
		if o.who < 0 {
			time.Sleep(time.Duration(o.wait) * time.Second)
		} else {
			now := uint64(time.Now().Unix())
			p := &pb.Peer{AddressList: addrs(o.who), Timestamp: now - uint64(o.age), Version: fmt.Sprint("r", i)}
			k := id(p)
			var err error
			if o.via == 0 {
				_, err = n.AddPeer(context.Background(), &pb.AddPeerRequest{Peer: p})
			} else {
				cl, done := nlib.Client(nlib.Addr(0))
				_, err = cl.Join(context.Background(), &pb.JoinRequest{Peer: p})
				done()
			}
			if err != nil {
				x.Failf("error", "%v: %v", o, err)
				return
			}
			if o.who != 3 && o.age < tooOld {
				r := ref[k]
				if r == nil {
					r = &known{tag: map[uint64]map[string]bool{}}
					ref[k] = r
				}
				if p.Timestamp >= r.best {
					r.best = p.Timestamp
				}
				if r.tag[p.Timestamp] == nil {
					r.tag[p.Timestamp] = map[string]bool{}
				}
				r.tag[p.Timestamp][p.Version] = true
			}
		}
		compare(fmt.Sprintf("step %d (%v)", i, o))
		if x.Failed() {
			return
		}
	}
	x.Out("%v", len(peers(n)))
	time.Sleep(400 * time.Second)
	compare("400 s later")
}

// ---------------------------------------------------------------- concurrent arrivals

func rec(age int, v string) *pb.Peer {
	return &pb.Peer{AddressList: []string{"p:1"}, Timestamp: uint64(time.Now().Unix()) - uint64(age), Version: v}
}

func arrivals(prep int, sync bool, ages ...int) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		nlib.Reset()
		n := nlib.New(x, 0)
		synctest.Wait()
		if prep >= 0 {
			n.AddPeerElement(rec(prep, "old"))
			if prep > 200 {
				time.Sleep(30 * time.Second)
			}
		}
		var fs []func()
		if sync {
			fs = append(fs, func() { n.SyncWithPeers() })
		}
		best := 1 << 30
		for _, a := range ages {
			if a < best {
				best = a
			}
			p := rec(a, fmt.Sprint("age", a))
			fs = append(fs, func() { n.AddPeerElement(p) })
		}
		lib.Run(x, e, fs...)
		l := peers(n)["p:1"]
		if len(l) != 1 {
			x.Failf("lost", "%d records, one expected", len(l))
		} else {
			x.Out("%s", l[0].Version)
			if l[0].Version != fmt.Sprint("age", best) {
				x.Failf("older", "the record is %q, the newest one received is %d s old", l[0].Version, best)
			}
		}
		nlib.Stop(n)
	}
}

// ---------------------------------------------------------------- topologies

// topologies: every way three nodes can be told about each other, several start orders.
func topologies(g *kit.G) {
	n := 3
	total := 1 << uint(n*(n-1))
	for graph := 0; graph < total; graph++ {
		if !connected(n, graph) {
			continue
		}
		for _, gap := range []int{0, 31} { // no dataset at all
			graph, gap := graph, gap
			g.Case(func() string {
				return fmt.Sprintf("%d nodes, services %v, starts %d s apart, no dataset", n, edges(n, graph), gap)
			}, func(x *kit.X) { runTopology(x, n, graph, gap, -1, "") })
		}
		for _, gap := range []int{0, 7, 95} { // seconds between the starts
			for owner := 0; owner < n; owner++ {
				for _, alias := range []string{"", "host", "zhost"} { // after localhost in the order, or before
					if !g.Thorough() && owner > 0 && (gap == 95 || alias != "") {
						continue
					}
					graph, gap, owner, alias := graph, gap, owner, alias
					g.Case(func() string {
						return fmt.Sprintf("%d nodes, services %v, starts %d s apart, dataset of node %d, own names %q", n, edges(n, graph), gap, owner, alias)
					}, func(x *kit.X) { runTopology(x, n, graph, gap, owner, alias) })
				}
			}
		}
	}
}

// callers: the address from which the nodes are seen to call, with names on both sides of it in the order.
func callers(g *kit.G) {
	n := 3
	for graph := 0; graph < 1<<uint(n*(n-1)); graph++ {
		if !connected(n, graph) || !g.Thorough() && len(edges(n, graph)) > 2 {
			continue
		}
		for _, caller := range []string{"::1", "127.1.2.3", "10.0.0.7", "fe80::7", "8.8.8.8"} {
			for _, alias := range []string{"", "0host", "host"} {
				graph, caller, alias := graph, caller, alias
				g.Case(func() string {
					return fmt.Sprintf("%d nodes, services %v, seen as %s, own names %q", n, edges(n, graph), caller, alias)
				}, func(x *kit.X) { runTopology(x, n, graph, 3, graph%n, alias, caller) })
			}
		}
	}
}

// many: any number of datasets, on any of the nodes.
func many(g *kit.G) {
	for _, k := range []int{2, 3, 4, 5, 9, 17} {
		for graph := 0; graph < 1<<6; graph++ {
			if !connected(3, graph) || len(edges(3, graph)) > 2 {
				continue
			}
			for spread := 0; spread < 4; spread++ { // all on one node, or in turn
				k, graph, spread := k, graph, spread
				g.Case(func() string {
					return fmt.Sprintf("services %v, %d datasets on node %d (3: in turn)", edges(3, graph), k, spread)
				}, func(x *kit.X) {
					nlib.Reset()
					nodes := make([]*node.Node, 3)
					defer func() { nlib.Stop(nodes...) }()
					for i := range nodes {
						var svc []string
						for _, e := range edges(3, graph) {
							if e[0] == i {
								svc = append(svc, nlib.Addr(e[1]))
							}
						}
						nodes[i] = nlib.New(x, i, svc...)
					}
					time.Sleep(1300 * time.Millisecond)
					for d := 0; d < k; d++ {
						at := spread
						if spread == 3 {
							at = d % 3
						}
						name := fmt.Sprint("d", d)
						if _, err := nlib.Create(nlib.Addr(at), &pb.DataConfig{Name: name, NoTarget: true, Version: 1, TargetN: uint64(d)}); err != nil {
							x.Failf("error", "%v", err)
						}
						if err := nlib.Insert(nlib.Addr(at), name, lib.D(float32(d), 1, "g", "l"), &pb.InsertConfig{Count: 1}); err != nil {
							x.Failf("error", "%v", err)
						}
						x.Step(1)
					}
					time.Sleep(400 * time.Second)
					for i, nd := range nodes {
						ds := nlib.Datasets(nd)
						for d := 0; d < k; d++ {
							name := fmt.Sprint("d", d)
							dt := ds[name]
							if dt == nil {
								x.Failf("dataset", "node %d does not know dataset %s", i, name)
								return
							}
							if c := dt.GetConfig(); c.TargetN != uint64(d) || c.Version != 1 || !c.NoTarget {
								x.Failf("config", "node %d has configuration %v of %s", i, c, name)
							}
							want := []string{nlib.Addr((i + 1) % 3), nlib.Addr((i + 2) % 3)}
							got := nlib.Sources(dt)
							sort.Strings(want)
							sort.Strings(got)
							if fmt.Sprint(got) != fmt.Sprint(want) {
								x.Failf("source", "node %d has peers %v of dataset %s, expected %v", i, got, name, want)
								return
							}
						}
					}
					x.Out("%d", k)
				})
			}
		}
	}
}

// services: an address that one node was given is tried by its peers as well, also when that node is gone.
func services(g *kit.G) {
	for _, dir := range []int{0, 1, 2} { // who joins whom
		for _, together := range []int{70, 200, 400, 700, 1300} {
			for _, gone := range []int{5, 65} {
				for _, name := range []string{nlib.Addr(2), "late:7002"} {
					dir, together, gone, name := dir, together, gone, name
					g.Case(func() string {
						return fmt.Sprintf("direction %d, service %s, both up for %d s, the new node %d s after the loss", dir, name, together, gone)
					}, func(x *kit.X) {
						nlib.Reset()
						var s0, s1 []string
						s0 = append(s0, name)
						if dir != 1 {
							s0 = append(s0, nlib.Addr(1))
						}
						if dir != 0 {
							s1 = append(s1, nlib.Addr(0))
						}
						nodes := []*node.Node{nlib.New(x, 0, s0...), nlib.New(x, 1, s1...), nil}
						defer func() { nlib.Stop(nodes...) }()
						x.Step(3)
						time.Sleep(time.Duration(together)*time.Second + 300*time.Millisecond)
						nlib.Halt(0, nodes[0])
						nodes[0] = nil
						time.Sleep(time.Duration(gone) * time.Second)
						nodes[2] = nlib.New(x, 2)
						vnet.Register(name, nodes[2])
						time.Sleep(185 * time.Second)
						for i := 1; i < 3; i++ {
							ids := map[string]bool{}
							for _, p := range nodes[i].PeerListItems() {
								for _, a := range p.AddressList {
									ids[a] = true
								}
							}
							if !ids[nlib.Addr(3-i)] {
								x.Failf("service", "node %d does not know node %d, which is at the address %s that node 0 was given: %v", i, 3-i, name, ids)
							}
						}
						x.Out("found")
					})
				}
			}
		}
	}
}

// halfNamed: one node also announces a name at which it cannot be reached; the nodes still learn of each other.
func halfNamed(g *kit.G) {
	for _, n := range []int{2, 3} {
		for graph := 0; graph < 1<<uint(n*(n-1)); graph++ {
			if !connected(n, graph) {
				continue
			}
			for who := 0; who < n; who++ {
				for _, name := range []string{"0nowhere:9", "nowhere:9"} { // before and after its address in the order
					for _, gap := range []int{0, 20} {
						n, graph, who, name, gap := n, graph, who, name, gap
						g.Case(func() string {
							return fmt.Sprintf("%d nodes, services %v, %d s apart, node %d also announces %s", n, edges(n, graph), gap, who, name)
						}, func(x *kit.X) {
							nlib.Reset()
							nodes := make([]*node.Node, n)
							defer func() { nlib.Stop(nodes...) }()
							for i := range nodes {
								ids := []string{nlib.Addr(i)}
								if i == who {
									ids = append(ids, name)
								}
								var svc []string
								for _, e := range edges(n, graph) {
									if e[0] == i {
										svc = append(svc, nlib.Addr(e[1]))
									}
								}
								nodes[i] = nlib.NewNamed(x, i, ids, svc...)
								time.Sleep(time.Duration(gap) * time.Second)
							}
							time.Sleep(400 * time.Second)
							x.Step(n)
							for i, nd := range nodes {
								ids := map[string]bool{}
								for _, p := range nd.PeerListItems() {
									for _, a := range p.AddressList {
										ids[a] = true
									}
								}
								for j := range nodes {
									if j != i && !ids[nlib.Addr(j)] {
										x.Failf("unknown", "after 400 s node %d does not know node %d: %v", i, j, ids)
									}
								}
							}
							x.Out("known")
						})
					}
				}
			}
		}
	}
}

// four: chains, stars and cycles of four nodes.
func four(g *kit.G) {
	n := 4
	total := 1 << uint(n*(n-1))
	for graph := 0; graph < total; graph++ {
		if len(edges(n, graph)) != 3 || !connected(n, graph) { // spanning trees with any directions
			continue
		}
		graph := graph
		g.Case(func() string { return fmt.Sprintf("4 nodes, services %v", edges(n, graph)) }, func(x *kit.X) { runTopology(x, n, graph, 0, graph%4, "") })
	}
}

func edges(n, graph int) [][2]int {
	var l [][2]int
	b := 0
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j {
				if graph>>uint(b)&1 == 1 {
					l = append(l, [2]int{i, j})
				}
				b++
			}
		}
	}
	return l
}

func connected(n, graph int) bool {
	c := make([]int, n)
	for i := range c {
		c[i] = i
	}
	for r := 0; r < n; r++ {
		for _, e := range edges(n, graph) {
			m := min(c[e[0]], c[e[1]])
			c[e[0]], c[e[1]] = m, m
		}
	}
	for _, v := range c {
		if v != 0 {
			return false
		}
	}
	return true
}

func runTopology(x *kit.X, n, graph, gap, owner int, alias string, caller ...string) {
	nlib.Reset()
	svc := make([][]string, n)
	for _, e := range edges(n, graph) {
		svc[e[0]] = append(svc[e[0]], nlib.Addr(e[1]))
	}
	host := func(i int) string { return fmt.Sprintf("%s%d:%d", alias, i, 7000+i) }
	seen := func(i int) string { return nlib.Addr(i) } // how the others see it
	if len(caller) > 0 {
		vnet.Caller = net.ParseIP(caller[0])
		if !vnet.Caller.IsLoopback() {
			seen = func(i int) string { return net.JoinHostPort(caller[0], fmt.Sprint(7000+i)) }
		}
	}
	nodes := make([]*node.Node, n)
	defer func() { nlib.Stop(nodes...) }()
	start := func(i int) {
		if alias != "" {
			nodes[i] = nlib.NewNamed(x, i, []string{host(i)}, svc[i]...)
			vnet.Register(host(i), nodes[i])
		} else {
			nodes[i] = nlib.New(x, i, svc[i]...)
		}
		vnet.Register(seen(i), nodes[i])
	}
	halt := func(i int) {
		if alias != "" {
			vnet.Unregister(host(i))
		}
		vnet.Unregister(seen(i))
		nlib.Halt(i, nodes[i])
	}
	for i := 0; i < n; i++ {
		start(i)
		if i == owner {
			nlib.Create(nlib.Addr(i), &pb.DataConfig{Name: "d", NoTarget: true, Version: 1})
			nlib.Insert(nlib.Addr(i), "d", lib.D(1, 1, "g", "l"), &pb.InsertConfig{Count: 1})
		}
		time.Sleep(time.Duration(gap) * time.Second)
	}
	names := func(i int) []string { return []string{nlib.Addr(i), host(i), seen(i)} }
	is := func(addr string, i int) bool { a := names(i); return addr == a[0] || addr == a[1] || addr == a[2] }
	self := func(what string) {
		for i, nd := range nodes {
			if nd == nil {
				continue
			}
			for _, p := range nd.PeerListItems() {
				own := len(p.AddressList) > 0
				for _, a := range p.AddressList {
					own = own && is(a, i)
				}
				for _, a := range p.AddressList {
					known := false
					for j := range nodes {
						known = known || is(a, j)
					}
					if !known {
						x.Failf("address", "%s: node %d lists a peer at %q, where no node is", what, i, a)
					}
				}
				if own {
					x.Failf("self", "%s: node %d is in its own peer list: %v", what, i, p.AddressList)
				}
			}
			for name, dt := range nlib.Datasets(nd) {
				for _, s := range nlib.Sources(dt) {
					if is(s, i) {
						x.Failf("self", "%s: node %d is a peer of its own dataset %s", what, i, name)
					}
				}
			}
		}
	}
	complete := func(what string, alive func(i int) bool) {
		for i, nd := range nodes {
			if !alive(i) {
				continue
			}
			for j := range nodes {
				if i == j || !alive(j) {
					continue
				}
				found := false
				for _, p := range nd.PeerListItems() {
					for _, a := range p.AddressList {
						found = found || is(a, j)
					}
				}
				if !found {
					x.Failf("unknown", "%s: node %d does not know node %d", what, i, j)
					return
				}
				if owner < 0 {
					continue
				}
				dt, err := nd.Dataset.GetNoCreate("d")
				if err != nil {
					x.Failf("dataset", "%s: node %d does not know the dataset: %v", what, i, err)
					return
				}
				found = false
				for _, s := range nlib.Sources(dt) {
					found = found || is(s, j)
				}
				if !found {
					x.Failf("source", "%s: node %d is not a peer of the dataset of node %d (%v)", what, j, i, nlib.Sources(dt))
					return
				}
			}
		}
	}
	all := func(int) bool { return true }
	for t := 0; t < 600; t += 10 {
		x.Step(1)
		time.Sleep(10 * time.Second)
		self(fmt.Sprintf("%d s after the last start", t+10))
		if x.Failed() {
			return
		}
	}
	complete("600 s after the last start", all)
	if x.Failed() {
		return
	}
	// it stays so, and a new configuration spreads
	last := (owner + 1) % n
	if owner < 0 {
		x.Out("known")
		return
	}
	nlib.Create(nlib.Addr(last), &pb.DataConfig{Name: "d", NoTarget: true, Version: 2, TargetN: 77})
	for t := 0; t < 1500; t += 10 {
		time.Sleep(10 * time.Second)
		what := fmt.Sprintf("%d s after the last start", 610+t)
		self(what)
		complete(what, all)
		if t >= 300 {
			for i, nd := range nodes {
				if dt, err := nd.Dataset.GetNoCreate("d"); err == nil && (dt.GetConfig().Version != 2 || dt.GetConfig().TargetN != 77) {
					x.Failf("config", "%s: node %d has configuration %v", what, i, dt.GetConfig())
				}
			}
		}
		if x.Failed() {
			return
		}
	}
	// one node is started again at once, while the others still have its records
	time.Sleep(5500 * time.Millisecond) // nothing it sent is on its way
	again := (owner + 1) % n
	halt(again)
	start(again)
	for t := 0; t < 420; t += 10 {
		time.Sleep(10 * time.Second)
		self(fmt.Sprintf("%d s after the restart of node %d", t+10, again))
		if x.Failed() {
			return
		}
	}
	complete(fmt.Sprintf("420 s after the restart of node %d", again), all)
	if x.Failed() {
		return
	}
	// one node disappears: it leaves the lists, the others stay
	dead := (owner + 2) % n
	halt(dead)
	nodes[dead] = nil
	alive := func(i int) bool { return i != dead }
	for t := 0; t < 540; t += 20 {
		time.Sleep(20 * time.Second)
		what := fmt.Sprintf("%d s after the loss of node %d", t+20, dead)
		self(what)
		complete(what, alive)
		if t > 460 {
			for i, nd := range nodes {
				if nd == nil {
					continue
				}
				for _, p := range nd.PeerListItems() {
					for _, a := range p.AddressList {
						if is(a, dead) {
							x.Failf("stale", "%s: node %d still lists it (record of %d s ago)", what, i, uint64(time.Now().Unix())-p.Timestamp)
						}
					}
				}
			}
		}
		if x.Failed() {
			return
		}
	}
	// and comes back
	start(dead)
	if len(svc[dead]) > 0 { // otherwise it can only be found by nodes that keep asking for it
		for t := 0; t < 300; t += 10 {
			time.Sleep(10 * time.Second)
			self(fmt.Sprintf("%d s after the return of node %d", t+10, dead))
		}
		complete("after the return", all)
	}
	x.Out("ok")
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "records", Gen: records, Share: 3},
		kit.Family{Name: "topologies", Gen: topologies, Share: 3},
		kit.Family{Name: "callers", Gen: callers},
		kit.Family{Name: "many-datasets", Gen: many},
		kit.Family{Name: "services", Gen: services},
		kit.Family{Name: "half-named", Gen: halfNamed},
		kit.Family{Name: "four-nodes", Gen: four, Share: 3, OnlyThorough: true},
		kit.Family{Name: "two-arrivals", Bound: 2, BoundThorough: 3, Sched: arrivals(-1, false, 50, 10)},
		kit.Family{Name: "two-arrivals-over-old", Bound: 2, BoundThorough: 3, Sched: arrivals(100, false, 10, 50)},
		kit.Family{Name: "three-arrivals", Bound: 1, BoundThorough: 2, Sched: arrivals(-1, false, 50, 10, 30)},
		kit.Family{Name: "arrival-vs-sync-of-stale", Bound: 1, BoundThorough: 2, Sched: arrivals(280, true, 10)},
		kit.Family{Name: "two-arrivals-vs-sync-of-stale", Bound: 1, BoundThorough: 2, Delay: true, Sched: arrivals(280, true, 50, 10)},
	)
}

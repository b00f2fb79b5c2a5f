//go:build go1.22

// C21: the connection pool.
package c21

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/util"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vmc"
	"github.com/bgokden/veri/zzverif/vnet"
	"google.golang.org/grpc/connectivity"
)

func ping(c *util.Connection) error {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	_, err := pb.NewVeriServiceClient(c.Conn).Ping(ctx, &pb.PingRequest{})
	return err
}

// held is one use of a connection.
type held struct {
	c    *util.Connection
	a    int
	gone bool // may have been closed: somebody returned it broken, closed it, or the pool expired
}

// world is the reference: which peers are up, who holds what.
type world struct {
	x    *kit.X
	cc   *util.ConnectionCache
	up   []bool
	held []*held
	st   []connectivity.State
}

func newWorld(x *kit.X, n int) *world {
	nlib.Reset()
	w := &world{x: x, cc: util.NewConnectionCache()}
	for i := 0; i < n; i++ {
		nlib.NewFake(i)
		w.up = append(w.up, true)
		w.st = append(w.st, connectivity.Ready)
	}
	vnet.State = func(t string) connectivity.State {
		for i := range w.st {
			if nlib.Addr(i) == t {
				return w.st[i]
			}
		}
		return connectivity.Ready
	}
	return w
}

func (w *world) end() {
	for _, h := range w.held {
		h.c.Close()
	}
	w.cc.Provider.Close()
	synctest.Wait()
	time.Sleep(time.Second)
}

func (w *world) get(a int) {
	c := w.cc.Get(nlib.Addr(a))
	synctest.Wait()
	if c == nil || c.Conn == nil {
		w.x.Failf("none", "asking for a connection to peer %d gave none", a)
		return
	}
	if c.Conn.Target() != nlib.Addr(a) || c.Address != nlib.Addr(a) {
		w.x.Failf("address", "asking for a connection to %s gave one to %s (%s)", nlib.Addr(a), c.Conn.Target(), c.Address)
	}
	if c.Conn.GetState() == connectivity.Shutdown {
		w.x.Failf("closed", "asking for a connection to peer %d gave a closed one", a)
		return
	}
	if err := ping(c); (err == nil) != w.up[a] {
		w.x.Failf("unusable", "peer %d up: %v, ping over the connection: %v", a, w.up[a], err)
	}
	for _, h := range w.held {
		if h.c == c {
			w.held = append(w.held, &held{c, a, h.gone})
			return
		}
	}
	w.held = append(w.held, &held{c, a, false})
}

// use: a connection that is in use and that nobody gave up still works.
func (w *world) use() {
	for _, h := range w.held {
		if !h.gone && h.c.Conn.GetState() == connectivity.Shutdown {
			w.x.Failf("in-use", "a healthy connection to peer %d that is in use was closed", h.a)
		}
	}
}

func (w *world) drop(i int, closes bool) {
	h := w.held[i]
	w.held = append(append([]*held(nil), w.held[:i]...), w.held[i+1:]...)
	if closes {
		for _, o := range w.held {
			if o.c == h.c {
				o.gone = true
			}
		}
	}
}

func (w *world) put(i int) {
	h := w.held[i]
	before := h.c.Conn.GetState()
	w.cc.Put(h.c)
	synctest.Wait()
	after := h.c.Conn.GetState()
	if before == connectivity.Ready && after != connectivity.Ready {
		w.x.Failf("closed-healthy", "returning a healthy connection closed it")
	}
	if (before == connectivity.TransientFailure || before == connectivity.Shutdown) && after != connectivity.Shutdown {
		w.x.Failf("kept-broken", "a broken connection (%v) was kept when it was returned", before)
	}
	w.drop(i, before != connectivity.Ready)
}

type op struct {
	name string
	do   func(w *world) bool
}

func ops(addresses int) []op {
	var l []op
	for a := 0; a < addresses; a++ {
		a := a
		l = append(l,
			op{fmt.Sprintf("get %d", a), func(w *world) bool { w.get(a); return true }},
			op{fmt.Sprintf("peer %d breaks", a), func(w *world) bool {
				if !w.up[a] {
					return false
				}
				w.up[a], w.st[a] = false, connectivity.TransientFailure
				nlib.Down(a)
				return true
			}},
			op{fmt.Sprintf("peer %d is back", a), func(w *world) bool {
				if w.up[a] {
					return false
				}
				w.up[a], w.st[a] = true, connectivity.Ready
				nlib.NewFake(a)
				return true
			}},
		)
	}
	return append(l,
		op{"put newest", func(w *world) bool {
			if len(w.held) == 0 {
				return false
			}
			w.put(len(w.held) - 1)
			return true
		}},
		op{"put oldest", func(w *world) bool {
			if len(w.held) < 2 {
				return false
			}
			w.put(0)
			return true
		}},
		op{"close newest", func(w *world) bool {
			if len(w.held) == 0 {
				return false
			}
			h := w.held[len(w.held)-1]
			w.cc.Close(h.c)
			synctest.Wait()
			if h.c.Conn.GetState() == connectivity.Shutdown {
				w.drop(len(w.held)-1, true)
			}
			return true
		}},
		op{"connection of the newest dies", func(w *world) bool {
			if len(w.held) == 0 {
				return false
			}
			c := w.held[len(w.held)-1].c
			c.Conn.Close()
			for _, o := range w.held {
				if o.c == c {
					o.gone = true
				}
			}
			return true
		}},
		op{"50 seconds", func(w *world) bool { time.Sleep(50 * time.Second); return true }}, // a call can take that long
		op{"6 minutes", func(w *world) bool { w.wait(6 * time.Minute); return true }},
		op{"25 minutes", func(w *world) bool { w.wait(25 * time.Minute); return true }},
	)
}

func (w *world) wait(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
	for _, h := range w.held { // nothing is in use for that long
		h.gone = true
	}
}

func histories(addresses, depth, depthThorough int) func(g *kit.G) {
	return func(g *kit.G) {
		l := ops(addresses)
		d := depth
		if g.Thorough() {
			d = depthThorough
		}
		var seq []int
		var rec func()
		rec = func() {
			if len(seq) == d {
				s := append([]int(nil), seq...)
				g.Case(func() string {
					t := ""
					for _, i := range s {
						t += l[i].name + "; "
					}
					return t
				}, func(x *kit.X) {
					w := newWorld(x, addresses)
					defer w.end()
					for _, i := range s {
						if !l[i].do(w) {
							return // not applicable: the shorter history is covered by another case
						}
						x.Step(1)
						w.use()
						if x.Failed() {
							return
						}
					}
					// whatever happened: a peer that is up is reachable
					for a := range w.up {
						if !w.up[a] {
							w.up[a], w.st[a] = true, connectivity.Ready
							nlib.NewFake(a)
						}
						w.get(a)
						w.get(a)
					}
					w.use()
					x.State(fmt.Sprint(w.up, len(w.held), vnet.Open()))
				})
				return
			}
			gets, puts := 0, 0
			for _, i := range seq {
				switch {
				case strings.HasPrefix(l[i].name, "get"):
					gets++
				case strings.HasPrefix(l[i].name, "put"):
					puts++
				}
			}
			for i := range l {
				n := l[i].name
				if gets == puts && (strings.Contains(n, "newest") || strings.Contains(n, "oldest")) || gets < puts+2 && n == "put oldest" {
					continue // nothing to return
				}
				seq = append(seq, i)
				rec()
				seq = seq[:len(seq)-1]
			}
		}
		rec()
	}
}

// many users at once: a connection is shared by a limited number of them, and use in turn does not open more and more.
func load(g *kit.G) {
	for _, users := range []int{1, 2, 19, 20, 21, 22, 40, 41, 63, 100} {
		for _, rounds := range []int{1, 2, 5} {
			for _, order := range []string{"oldest first", "newest first"} {
				for _, brk := range []bool{false, true} {
					users, rounds, order, brk := users, rounds, order, brk
					g.Case(func() string {
						return fmt.Sprintf("%d users at once, %d rounds, returned %s, break in between %v", users, rounds, order, brk)
					}, func(x *kit.X) {
						w := newWorld(x, 1)
						defer w.end()
						for r := 0; r < rounds && !x.Failed(); r++ {
							for u := 0; u < users && !x.Failed(); u++ {
								w.get(0)
								x.Step(1)
							}
							if x.Failed() {
								return
							}
							w.use()
							if brk {
								w.st[0] = connectivity.TransientFailure
							}
							for len(w.held) > 0 && !x.Failed() {
								if order == "oldest first" {
									w.put(0)
								} else {
									w.put(len(w.held) - 1)
								}
								w.use()
							}
							w.st[0] = connectivity.Ready
						}
					})
				}
			}
		}
	}
	for _, n := range []int{10, 100, 400} {
		for _, brk := range []int{0, 1, 2, 7} {
			n, brk := n, brk
			g.Case(func() string { return fmt.Sprintf("%d uses in turn, every %dth returned broken", n, brk) }, func(x *kit.X) {
				w := newWorld(x, 1)
				defer w.end()
				broken := 0
				for i := 0; i < n && !x.Failed(); i++ {
					w.get(0)
					if x.Failed() {
						return
					}
					x.Step(2)
					if brk > 0 && i%brk == 0 {
						w.st[0] = connectivity.TransientFailure
						broken++
					}
					w.put(0)
					w.st[0] = connectivity.Ready
				}
				if k := vnet.Dials(); k > 20+broken {
					x.Failf("not-reused", "%d uses in turn, %d of them broken, opened %d connections", n, broken, k)
				}
				if k := vnet.Open(); k > 20 {
					x.Failf("leak", "%d connections are open after %d uses in turn", k, n)
				}
			})
		}
	}
}

// ---- a node's calls over peers that come and go

type call struct {
	name string
	do   func(n *node.Node, d *node.DataSourceClient) error
}

var calls = []call{
	{"ping", func(n *node.Node, d *node.DataSourceClient) error { return n.SendPingRequest(nlib.Addr(1)) }},
	{"insert", func(n *node.Node, d *node.DataSourceClient) error {
		return d.Insert(lib.D(1, 1, "g", "l"), &pb.InsertConfig{Count: 1})
	}},
	{"info", func(n *node.Node, d *node.DataSourceClient) error {
		if d.GetDataInfo() == nil {
			return fmt.Errorf("no information")
		}
		return nil
	}},
	{"search", func(n *node.Node, d *node.DataSourceClient) error {
		var wg sync.WaitGroup
		wg.Add(1)
		err := d.StreamSearch(lib.D(1, 1, "g", "l"), make(chan *pb.ScoredDatum, 10), &wg, nlib.Req("d", 1).Config)
		wg.Wait()
		if len(vnet.Calls()) == 0 {
			return fmt.Errorf("the peer was not asked")
		}
		return err
	}},
	{"add peer", func(n *node.Node, d *node.DataSourceClient) error {
		return n.SendAddPeerRequest(nlib.Addr(1), &pb.Peer{Timestamp: uint64(time.Now().Unix()), AddressList: []string{"elsewhere:1"}})
	}},
}

func comeAndGo(g *kit.G) {
	type ev struct {
		name string
		k    int
	}
	var evs []ev
	for i, c := range calls {
		evs = append(evs, ev{c.name, i})
	}
	evs = append(evs, ev{"down", -1}, ev{"up", -2}, ev{"5 minutes", -3}, ev{"11 minutes", -4}, ev{"21 minutes", -5})
	depth := 4
	if g.Thorough() {
		depth = 5
	}
	var seq []ev
	var rec func()
	rec = func() {
		if len(seq) == depth {
			s := append([]ev(nil), seq...)
			for last := range calls {
				last := last
				g.Case(func() string { return fmt.Sprint(s, " then up and ", calls[last].name) }, func(x *kit.X) {
					nlib.Reset()
					nlib.NewFake(1)
					n := nlib.New(x, 0)
					defer nlib.Stop(n)
					synctest.Wait()
					d := node.GetDataSourceClient(nil, "d", nlib.Addr(1), n.ConnectionCache).(*node.DataSourceClient)
					up := true
					for _, e := range s {
						x.Step(1)
						switch e.k {
						case -1:
							nlib.Down(1)
							up = false
						case -2:
							if !up {
								nlib.NewFake(1)
								up = true
							}
						case -3:
							time.Sleep(5 * time.Minute)
						case -4:
							time.Sleep(11 * time.Minute)
						case -5:
							time.Sleep(21 * time.Minute)
						default:
							err := calls[e.k].do(n, d)
							if e.name != "search" && (err == nil) != up {
								x.Failf("unreachable", "peer up: %v, %s: %v", up, e.name, err)
								return
							}
						}
					}
					if !up {
						nlib.NewFake(1)
					}
					vnet.LogCalls = true
					if err := calls[last].do(n, d); err != nil && calls[last].name != "search" {
						x.Failf("unreachable", "the peer is up again, %s: %v", calls[last].name, err)
					}
					ok := false
					for _, c := range vnet.Calls() {
						ok = ok || c.To == nlib.Addr(1) && c.Err == nil
					}
					if !ok {
						x.Failf("unreachable", "the peer is up again and %s did not reach it", calls[last].name)
					}
				})
			}
			return
		}
		for _, e := range evs {
			if len(seq) > 0 && seq[len(seq)-1].k < 0 && seq[len(seq)-1].k == e.k {
				continue
			}
			seq = append(seq, e)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

// ---- schedules

func users(n int, stale bool, pre int) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		w := newWorld(x, 1)
		for i := 0; i < pre; i++ {
			w.get(0)
		}
		for len(w.held) > 0 {
			w.put(0)
		}
		if stale { // a connection that is in the pool several times dies
			w.get(0)
			if !x.Failed() {
				w.held[0].c.Conn.Close()
				w.held = nil
			}
		}
		var mu sync.Mutex
		var fs []func()
		for u := 0; u < n; u++ {
			fs = append(fs, func() {
				for k := 0; k < 2; k++ {
					c := w.cc.Get(nlib.Addr(0))
					if c == nil || c.Conn == nil {
						mu.Lock()
						x.Failf("none", "asking for a connection gave none")
						mu.Unlock()
						return
					}
					err := ping(c)
					if err != nil {
						mu.Lock()
						x.Failf("unusable", "the connection does not work although nobody broke it: %v", err)
						mu.Unlock()
					}
					w.cc.Put(c)
				}
			})
		}
		lib.Run(x, e, fs...)
		synctest.Wait()
		w.get(0)
		x.Out("%d", vnet.Dials())
		w.end()
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "histories-one-peer", Gen: histories(1, 6, 8), Share: 2},
		kit.Family{Name: "histories-two-peers", Gen: histories(2, 5, 6), Share: 2},
		kit.Family{Name: "load", Gen: load},
		kit.Family{Name: "come-and-go", Gen: comeAndGo, Share: 2},
		kit.Family{Name: "schedules-two-users", Bound: 2, BoundThorough: 3, Delay: true, Sched: users(2, false, 1)},
		kit.Family{Name: "schedules-two-users-fresh", Bound: 2, BoundThorough: 3, Delay: true, Sched: users(2, false, 0)},
		kit.Family{Name: "schedules-two-users-stale", Bound: 2, BoundThorough: 3, Delay: true, Sched: users(2, true, 3)},
		kit.Family{Name: "schedules-three-users", Bound: 1, BoundThorough: 2, Delay: true, Sched: users(3, false, 1)},
	)
}

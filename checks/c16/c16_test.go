//go:build go1.22

// C16: periodic maintenance.
package c16

import (
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/go-cache"
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vmc"
	"github.com/bgokden/veri/zzverif/vnet"
)

func cfg(name string) *pb.DataConfig { return lib.Config(name) }

func stop(s *data.Dataset) {
	synctest.Wait()
	for _, it := range s.DataList.Items() {
		if d, ok := it.Object.(*data.Data); ok {
			lib.Kill(d)
		}
	}
	cache.VerifStopAll()
	time.Sleep(3 * time.Second)
	synctest.Wait()
}

// src is a peer whose information requests are counted.
type src struct {
	lib.Peer
	kind   string
	mu     sync.Mutex
	calls  int
	inside int
	over   int
}

func (p *src) GetDataInfo() *pb.DataInfo {
	vmc.P(-50)
	p.mu.Lock()
	p.calls++
	p.inside++
	if p.inside > p.over {
		p.over = p.inside
	}
	p.mu.Unlock()
	defer func() {
		p.mu.Lock()
		p.inside--
		p.mu.Unlock()
	}()
	switch p.kind {
	case "holds":
		return &pb.DataInfo{N: 7}
	case "empty":
		return &pb.DataInfo{}
	case "slow":
		time.Sleep(4 * time.Second)
		return &pb.DataInfo{N: 3}
	case "hangs":
		time.Sleep(10 * time.Second)
		return nil
	}
	return nil // down
}

var kinds = []string{"down", "empty", "holds", "hangs", "slow"}

// conditions: every local content and every pair of peer conditions, maintenance run once and repeatedly.
func conditions(g *kit.G) {
	np := 4
	if g.Thorough() {
		np = 6
	}
	var peers [][]string
	var rec func(l []string, from int)
	rec = func(l []string, from int) {
		peers = append(peers, append([]string(nil), l...))
		if len(l) == np {
			return
		}
		for i := from; i < len(kinds); i++ {
			rec(append(l, kinds[i]), i)
		}
	}
	rec(nil, 0)
	for _, ps := range peers {
		for local := 0; local < 3; local++ { // 0: nothing, 1: not counted yet, 2: counted
			for other := 0; other < 3; other++ {
				for _, rounds := range []int{1, 3} {
					ps, local, other, rounds := ps, local, other, rounds
					g.Case(func() string {
						return fmt.Sprintf("peers %v, local data %d, other datasets %d, %d rounds", ps, local, other, rounds)
					}, func(x *kit.X) { runCondition(x, ps, local, other, rounds) })
				}
			}
		}
	}
}

func runCondition(x *kit.X, ps []string, local, other, rounds int) {
	s := data.NewDataset(x.Tmp())
	defer stop(s)
	dt, err := s.GetOrCreateIfNotExists(cfg("a"))
	if err != nil {
		x.Failf("error", "%v", err)
		return
	}
	keep := map[string]string{}
	switch other {
	case 1:
		s.GetOrCreateIfNotExists(cfg("b")) // empty, without peers
	case 2: // some empty, some not, on both sides
		for _, n := range []string{"0", "1", "9", "A", "b", "c", "y", "z"} {
			o, err := s.GetOrCreateIfNotExists(cfg(n))
			if err != nil {
				x.Failf("error", "%v", err)
				return
			}
			if n == "1" || n == "A" || n == "b" || n == "z" {
				o.Insert(lib.D(3, 3, n, n), &pb.InsertConfig{Count: 1})
				keep[n] = lib.Show(lib.Content(o))
			}
		}
	}
	synctest.Wait()
	var srcs []*src
	holds := local > 0
	for i, k := range ps {
		p := &src{kind: k}
		p.ID = fmt.Sprint("p", i)
		p.Peer.Accept = func(*pb.Datum, *pb.InsertConfig) error { return lib.ErrDown }
		srcs = append(srcs, p)
		dt.AddSource(p)
		if k == "holds" || k == "slow" {
			holds = true
		}
	}
	if local > 0 {
		if err := dt.Insert(lib.D(1, 2, "g", "l"), &pb.InsertConfig{Count: 1}); err != nil {
			x.Failf("error", "%v", err)
			return
		}
		if local == 2 {
			dt.Process(true)
		}
	}
	want := lib.Show(lib.Content(dt))
	for r := 0; r < rounds; r++ {
		x.Step(1)
		if err := s.ReloadRuns(); err != nil {
			x.Failf("error", "maintenance: %v", err)
		}
		synctest.Wait()
		for n, c := range keep {
			if o, err := s.GetNoCreate(n); err != nil {
				x.Failf("removed", "round %d: dataset %s was removed: %v", r, n, err)
			} else if got := lib.Show(lib.Content(o)); got != c {
				x.Failf("content", "round %d: dataset %s holds %s, expected %s", r, n, got, c)
			}
		}
		now, err := s.GetNoCreate("a")
		if holds && err != nil {
			x.Failf("removed", "round %d: the dataset was removed: %v", r, err)
			return
		}
		x.Out("%v", err == nil)
		if err != nil {
			return
		}
		if now != dt {
			x.Failf("replaced", "round %d: the dataset was replaced", r)
			return
		}
		if got := lib.Show(lib.Content(now)); got != want {
			x.Failf("content", "round %d: content %s, expected %s", r, got, want)
		}
		if holds {
			if err := now.Insert(lib.D(float32(r), 9, "g", "more"), &pb.InsertConfig{Count: 1}); err != nil {
				x.Failf("refused", "round %d: an insert after maintenance is refused: %v", r, err)
			}
			want = lib.Show(lib.Content(now))
		}
		time.Sleep(20 * time.Second)
	}
	if len(srcs) == 0 || x.Failed() {
		return
	}
	// the background processor asks each peer about once per 10 s (each ask can itself take some time)
	time.Sleep(15 * time.Second)
	before := make([]int, len(srcs))
	for i, p := range srcs {
		p.mu.Lock()
		before[i], p.over = p.calls, p.inside
		p.mu.Unlock()
	}
	time.Sleep(200 * time.Second)
	for i, p := range srcs {
		p.mu.Lock()
		n, over := p.calls-before[i], p.over
		p.mu.Unlock()
		if n > 21 {
			x.Failf("processors", "peer %s was asked %d times in 200 s: more than one processor runs", p.kind, n)
		}
		if over > 1 {
			x.Failf("processors", "peer %s was asked by %d processors at once", p.kind, over)
		}
		if n == 0 {
			x.Failf("processors", "peer %s was never asked in 200 s: no processor runs", p.kind)
		}
	}
}

// timeline: a node with its periodic work; an insert at any moment around a tick stays visible.
func timeline(g *kit.G) {
	offsets := []int{0, 1, 59, 60, 61, 119, 120, 121, 179, 181}
	if g.Thorough() {
		offsets = append(offsets, 30, 58, 90, 122, 180, 239, 240, 241)
	}
	for _, peer := range []string{"none", "down", "hangs", "empty", "holds"} {
		for _, at := range offsets {
			for _, pre := range []int{-1, 0, 30} { // the dataset is created explicitly before (or by the insert)
				for _, tick := range []int{-1, 0, 1} { // a millisecond before, at and after the second
					peer, at, pre, tick := peer, at, pre, tick
					if pre > at || (tick < 0 && at == 0) {
						continue
					}
					g.Case(func() string {
						return fmt.Sprintf("peer %s, created at %d s, insert at %d s %+d ms", peer, pre, at, tick)
					}, func(x *kit.X) { runTimeline(x, peer, at, pre, tick) })
				}
			}
		}
	}
}

// srv is a scripted node.
type srv struct {
	pb.UnimplementedVeriServiceServer
}

func runTimeline(x *kit.X, peer string, at, pre, tick int) {
	nlib.Reset()
	var other *node.Node
	svc := []string{}
	if peer != "none" {
		svc = append(svc, nlib.Addr(1))
	}
	if peer == "empty" || peer == "holds" {
		other = nlib.New(x, 1)
		if peer == "holds" {
			nlib.Create(nlib.Addr(1), cfg("a"))
			nlib.Insert(nlib.Addr(1), "a", lib.D(5, 5, "g", "there"), nil)
		}
	}
	if peer == "hangs" {
		vnet.Fault = func(c *vnet.Call) (vnet.Action, time.Duration) {
			if c.To == nlib.Addr(1) {
				return vnet.Hang, 0
			}
			return vnet.OK, 0
		}
		vnet.Register(nlib.Addr(1), &stub{})
	}
	start := time.Now()
	n := nlib.New(x, 0, svc...)
	defer nlib.Stop(n, other)
	if peer == "down" || peer == "hangs" {
		n.AddPeerElement(&pb.Peer{AddressList: []string{nlib.Addr(1)}, Timestamp: uint64(time.Now().Unix()), DataList: []*pb.DataConfig{cfg("a")}})
	}
	if pre >= 0 {
		time.Sleep(time.Until(start.Add(time.Duration(pre) * time.Second)))
		if _, err := n.Dataset.GetOrCreateIfNotExists(cfg("a")); err != nil {
			x.Failf("error", "%v", err)
			return
		}
	}
	time.Sleep(time.Until(start.Add(time.Duration(at)*time.Second + time.Duration(tick)*time.Millisecond)))
	d := lib.D(1, 2, "g", "mine")
	if err := nlib.Insert(nlib.Addr(0), "a", d, &pb.InsertConfig{Count: 1}); err != nil {
		x.Out("refused")
		// allowed while the empty dataset is being removed (its peers are asked, which may take as long as their
		// timeouts); a retry works
		for r := 0; r < 30 && err != nil; r++ {
			time.Sleep(2 * time.Second)
			err = nlib.Insert(nlib.Addr(0), "a", d, &pb.InsertConfig{Count: 1})
		}
		if err != nil {
			x.Failf("refused", "an insert is refused again for a minute: %v", err)
			return
		}
	}
	for r := 0; r < 14; r++ {
		x.Step(1)
		dt, err := n.Dataset.GetNoCreate("a")
		if err != nil {
			x.Failf("removed", "%v after the insert: %v", time.Duration(r)*20*time.Second, err)
			return
		}
		if m := lib.Content(dt); m[lib.KeyOf(d)] != lib.ValOf(d) {
			x.Failf("content", "%v after the insert: content %s", time.Duration(r)*20*time.Second, lib.Show(m))
			return
		}
		time.Sleep(20 * time.Second)
	}
	if peer == "holds" {
		// the other node still holds the dataset too
		if dt, err := other.Dataset.GetNoCreate("a"); err != nil || len(lib.Content(dt)) == 0 {
			x.Failf("removed", "the other node lost its dataset: %v", err)
		}
	}
	x.Out("kept")
}

type stub struct{ srv }

// remote: a node without local data keeps a dataset that a peer holds, for as long as the peer is there.
func remote(g *kit.G) {
	for _, dir := range []int{0, 1} { // who joins whom
		for _, minutes := range []int{3, 12, 25} {
			if minutes > 12 && !g.Thorough() {
				continue
			}
			dir, minutes := dir, minutes
			g.Case(func() string { return fmt.Sprintf("direction %d, %d minutes", dir, minutes) }, func(x *kit.X) {
				nlib.Reset()
				var a, b *node.Node
				if dir == 0 {
					a = nlib.New(x, 0)
					b = nlib.New(x, 1, nlib.Addr(0))
				} else {
					a = nlib.New(x, 0, nlib.Addr(1))
					b = nlib.New(x, 1)
				}
				defer nlib.Stop(a, b)
				nlib.Create(nlib.Addr(0), cfg("d"))
				nlib.Insert(nlib.Addr(0), "d", lib.D(1, 1, "g", "l"), &pb.InsertConfig{Count: 1})
				time.Sleep(200 * time.Second) // enough gossip for both to know each other and the dataset
				for m := 0; m < minutes*3; m++ {
					x.Step(1)
					for i, n := range []*node.Node{a, b} {
						if _, err := n.Dataset.GetNoCreate("d"); err != nil {
							x.Failf("removed", "node %d does not have the dataset at %d s: %v", i, 200+m*20, err)
							return
						}
					}
					time.Sleep(20 * time.Second)
				}
				x.Out("kept")
			})
		}
	}
}

// ---------------------------------------------------------------- schedules

type outcome struct {
	mu  sync.Mutex
	ack map[string]string
}

func (o *outcome) insert(x *kit.X, s *data.Dataset, d *pb.Datum) {
	dt, err := s.Get("a")
	if err != nil {
		return
	}
	if dt.Insert(d, &pb.InsertConfig{Count: 1}) == nil {
		o.mu.Lock()
		o.ack[lib.KeyOf(d)] = lib.ValOf(d)
		o.mu.Unlock()
	}
}

func (o *outcome) check(x *kit.X, s *data.Dataset) {
	x.Out("%d acknowledged", len(o.ack))
	if len(o.ack) == 0 {
		return
	}
	dt, err := s.GetNoCreate("a")
	if err != nil {
		x.Failf("removed", "an insert was acknowledged and the dataset is gone: %v", err)
		return
	}
	m := lib.Content(dt)
	for k, v := range o.ack {
		if m[k] != v {
			x.Failf("lost", "acknowledged insert %s is not visible: %s", k, lib.Show(m))
		}
	}
}

func sched(prep string, peers []string, acts func(x *kit.X, o *outcome, s *data.Dataset) []func()) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		s := data.NewDataset(x.Tmp())
		synctest.Wait()
		o := &outcome{ack: map[string]string{}}
		if prep != "none" {
			dt, _ := s.GetOrCreateIfNotExists(cfg("a"))
			synctest.Wait()
			for i, k := range peers {
				p := &src{kind: k}
				p.ID = fmt.Sprint("p", i)
				dt.AddSource(p)
			}
			if prep == "data" {
				o.insert(x, s, lib.D(9, 9, "g", "before"))
			}
			if prep == "expired" { // counted, but gone by now
				dt.Insert(lib.D(9, 9, "g", "short"), &pb.InsertConfig{Count: 1, TTL: 1})
				time.Sleep(2 * time.Second)
			}
		}
		synctest.Wait()
		lib.Run(x, e, acts(x, o, s)...)
		synctest.Wait()
		o.check(x, s)
		// later maintenance does not change it
		if !x.Failed() {
			s.ReloadRuns()
			synctest.Wait()
			o.check(x, s)
		}
		stop(s)
	}
}

func reload(s *data.Dataset) func() { return func() { s.ReloadRuns() } }

func vsInsert(x *kit.X, o *outcome, s *data.Dataset) []func() {
	return []func(){reload(s), func() { o.insert(x, s, lib.D(1, 1, "g", "new")) }}
}
func twoVsInsert(x *kit.X, o *outcome, s *data.Dataset) []func() {
	return []func(){reload(s), reload(s), func() { o.insert(x, s, lib.D(1, 1, "g", "new")) }}
}
func vsTwoInserts(x *kit.X, o *outcome, s *data.Dataset) []func() {
	return []func(){reload(s), func() {
		o.insert(x, s, lib.D(1, 1, "g", "new"))
		o.insert(x, s, lib.D(2, 1, "g", "new"))
	}}
}
func vsRefresh(x *kit.X, o *outcome, s *data.Dataset) []func() {
	dt, _ := s.GetNoCreate("a")
	return []func(){reload(s), func() { dt.Process(true) }, func() { o.insert(x, s, lib.D(1, 1, "g", "new")) }}
}

// one processor: maintenance restarts a processor that may be starting, running or stopping.
func runs(x *kit.X, e *vmc.Engine) {
	dt := data.NewPreData(cfg("a"), x.Tmp())
	p := &src{kind: "slow"}
	p.ID = "p"
	lib.Run(x, e,
		func() {
			dt.InitData() // starts the first one
			dt.AddSource(p)
			go dt.Run()
			go dt.Run()
			time.Sleep(time.Second) // they run while this thread waits
		})
	time.Sleep(60 * time.Second)
	p.mu.Lock()
	over := p.over
	p.mu.Unlock()
	if over > 1 {
		x.Failf("processors", "%d processors at once", over)
	}
	x.Out("%d", over)
	lib.Kill(dt)
	cache.VerifStopAll()
	time.Sleep(20 * time.Second)
	synctest.Wait()
}

// starting: the first processor of a fresh dataset against one started by maintenance.
func starting(x *kit.X, e *vmc.Engine) {
	s := data.NewDataset(x.Tmp())
	synctest.Wait()
	p := &src{kind: "slow"}
	p.ID = "p"
	lib.Run(x, e,
		func() {
			dt, err := s.GetOrCreateIfNotExists(cfg("a"))
			if err == nil {
				dt.AddSource(p)
				dt.Insert(lib.D(1, 1, "g", "l"), &pb.InsertConfig{Count: 1})
			}
		},
		func() { s.ReloadRuns(); time.Sleep(time.Second) },
		func() { s.ReloadRuns(); time.Sleep(time.Second) })
	time.Sleep(15 * time.Second) // maintenance asks peers too, it is over now
	p.mu.Lock()
	p.over, p.calls = p.inside, 0
	p.mu.Unlock()
	time.Sleep(60 * time.Second)
	p.mu.Lock()
	over, calls := p.over, p.calls
	p.mu.Unlock()
	if over > 1 {
		x.Failf("processors", "%d processors at once", over)
	}
	if calls > 12 {
		x.Failf("processors", "%d rounds in a minute", calls)
	}
	x.Out("%d", over)
	stop(s)
	time.Sleep(20 * time.Second)
}

// info: the report of a node against changes of its datasets.
func info(act func(n *node.Node)) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		nlib.Reset()
		n := nlib.New(x, 0)
		synctest.Wait()
		n.Dataset.GetOrCreateIfNotExists(cfg("a"))
		synctest.Wait()
		got := ""
		lib.Run(x, e, func() { got = n.Info() }, func() { act(n) })
		if got == "" {
			x.Failf("info", "no report")
		}
		x.Out("%d", len(got)/100)
		nlib.Stop(n)
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "conditions", Gen: conditions},
		kit.Family{Name: "timeline", Gen: timeline, Share: 2},
		kit.Family{Name: "remote", Gen: remote},
		kit.Family{Name: "reload-vs-insert", Bound: 2, BoundThorough: 3, Delay: true, Sched: sched("empty", nil, vsInsert), Share: 2},
		kit.Family{Name: "reload-vs-insert-peer-empty", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched("empty", []string{"empty"}, vsInsert)},
		kit.Family{Name: "reload-vs-insert-peer-down", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched("empty", []string{"down", "empty"}, vsInsert)},
		kit.Family{Name: "reload-vs-creating-insert", Bound: 2, BoundThorough: 4, Delay: true, Sched: sched("none", nil, vsInsert)},
		kit.Family{Name: "reload-vs-insert-after-expiry", Bound: 2, BoundThorough: 3, Delay: true, Sched: sched("expired", nil, vsInsert)},
		kit.Family{Name: "reload-vs-insert-uncounted", Bound: 1, BoundThorough: 2, Sched: sched("data", nil, vsInsert)},
		kit.Family{Name: "reload-vs-two-inserts", Bound: 1, BoundThorough: 2, Sched: sched("empty", nil, vsTwoInserts)},
		kit.Family{Name: "two-reloads-vs-insert", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched("empty", nil, twoVsInsert), Share: 3},
		kit.Family{Name: "reload-vs-refresh-and-insert", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched("empty", nil, vsRefresh), Share: 2},
		kit.Family{Name: "two-processors", Bound: 2, BoundThorough: 3, Delay: true, Sched: runs},
		kit.Family{Name: "first-processor-vs-maintenance", Bound: 1, BoundThorough: 2, Delay: true, Sched: starting, Share: 2},
		kit.Family{Name: "info-vs-delete", Bound: 1, BoundThorough: 2, Sched: info(func(n *node.Node) { n.Dataset.Delete("a") })},
		kit.Family{Name: "info-vs-creation", Bound: 1, BoundThorough: 2, Sched: info(func(n *node.Node) { n.Dataset.GetOrCreateIfNotExists(cfg("b")) })},
		kit.Family{Name: "info-vs-maintenance", Bound: 1, BoundThorough: 2, Sched: info(func(n *node.Node) { n.Dataset.ReloadRuns() })},
	)
}

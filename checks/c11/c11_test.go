//go:build go1.22

// C11: closing a dataset drains it to its peers (dataset level).
package c11

import (
	"fmt"
	"runtime"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/vmc"
)

// dpeer is a scripted peer with a brake: an endless drain runs into virtual time.
type dpeer struct {
	*lib.Peer
	calls  int
	end    bool
	downAt func(n int) bool // information request n fails
	infoN  int
	slow   time.Duration
	alike  *data.Data
}

func (p *dpeer) brake() {
	p.calls++
	if p.end {
		runtime.Goexit()
	}
	if p.calls > 20000 {
		time.Sleep(time.Hour)
	}
}
func (p *dpeer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	p.brake()
	if p.slow > 0 {
		time.Sleep(p.slow)
	}
	return p.Peer.Insert(d, c)
}
func (p *dpeer) GetDataInfo() *pb.DataInfo {
	p.brake()
	n := p.infoN
	p.infoN++
	if p.downAt != nil && p.downAt(n) {
		return nil
	}
	if p.alike != nil {
		return p.alike.GetDataInfo()
	}
	return p.Peer.GetDataInfo()
}

var behaviours = []struct {
	name    string
	err     func(n int) error
	down    func(n int) bool
	takes   bool // accepts everything that is offered again and again
	slow    time.Duration
	peerN   uint64
	refuses bool
	alike   bool
}{
	{name: "accepts", err: func(int) error { return nil }, takes: true},
	{name: "accepts, holds more", err: func(int) error { return nil }, takes: true, peerN: 100000},
	{name: "accepts slowly", err: func(int) error { return nil }, takes: true, slow: 2 * time.Second},
	{name: "accepts very slowly", err: func(int) error { return nil }, takes: true, slow: 20 * time.Second},
	{name: "full", err: func(int) error { return lib.ErrFull }, refuses: true},
	{name: "down", err: func(int) error { return lib.ErrDown }, down: func(int) bool { return true }, refuses: true},
	{name: "every other", err: func(n int) error {
		if n%2 == 0 {
			return lib.ErrDown
		}
		return nil
	}, takes: true},
	{name: "refuses three times", err: func(n int) error {
		if n < 3 {
			return lib.ErrFull
		}
		return nil
	}, takes: true},
	{name: "takes two, then full", err: func(n int) error {
		if n < 2 {
			return nil
		}
		return lib.ErrFull
	}},
	{name: "first information request fails", err: func(int) error { return nil }, down: func(n int) bool { return n < 1 }, takes: true},
	{name: "information requests fail for a while", err: func(int) error { return nil }, down: func(n int) bool { return n < 5 }, takes: true},
	{name: "accepts, holds the same", err: func(int) error { return nil }, takes: true, alike: true},
	{name: "answers inserts only", err: func(int) error { return nil }, down: func(int) bool { return true }},
}

func mk(id string, b int) *dpeer {
	s := behaviours[b]
	p := &dpeer{Peer: &lib.Peer{ID: id, Info: &pb.DataInfo{Name: "d", N: s.peerN}}, downAt: s.down, slow: s.slow}
	k := 0
	p.Accept = func(*pb.Datum, *pb.InsertConfig) error {
		err := s.err(k)
		k++
		return err
	}
	return p
}

var ttls = [][]uint64{{0}, {600}, {0, 600, 25, 100000, 4, 40, 90}}

type item struct {
	d   *pb.Datum
	ttl uint64
	at  time.Time
}

func mkItems(n int, ttl int) []item {
	var l []item
	for i := 0; i < n; i++ {
		l = append(l, item{lib.D(float32(i+1), float32(i%5), "g", fmt.Sprint("l", i)), ttls[ttl][i%len(ttls[ttl])], time.Now()})
	}
	return l
}

// closeIt closes the dataset; it reports whether the close ended.
func closeIt(dt *data.Data, limit time.Duration, ps []*dpeer) (time.Duration, bool) {
	done := make(chan struct{})
	t0 := time.Now()
	go func() {
		defer close(done)
		dt.Close()
	}()
	select {
	case <-done:
		return time.Since(t0), true
	case <-time.After(limit):
		for _, p := range ps {
			p.end = true
		}
		return time.Since(t0), false
	}
}

func check(x *kit.X, items []item, ps []*dpeer, endedAt time.Time, all bool) {
	got := 0
	for _, it := range items {
		k, v := lib.KeyOf(it.d), lib.ValOf(it.d)
		ok := false
		for _, p := range ps {
			for i, g := range p.Got {
				if lib.KeyOf(g.Datum) != k || p.At[i].After(endedAt) {
					continue
				}
				if lib.ValOf(g.Datum) != v {
					x.Failf("wrong-value", "%s=%s was handed over as %s", k, v, lib.ValOf(g.Datum))
				}
				ok = true
				if g.Config.GetCount() == 0 {
					x.Failf("loop", "a drained datum was sent as an original insert")
				}
				ttl := int64(g.Config.GetTTL())
				left := int64(it.ttl) - int64(p.At[i].Sub(it.at)/time.Second)
				if it.ttl == 0 && ttl != 0 {
					x.Failf("ttl", "a datum without expiry was handed over with TTL %d", ttl)
				}
				margin := int64(2)
				for _, q := range ps { // data waits for its turn
					if q.slow > 0 {
						margin += int64(q.slow/time.Second) * int64(len(items))
					}
				}
				if it.ttl != 0 && (ttl == 0 || ttl > left+margin || ttl < left-2) {
					x.Failf("ttl", "a datum with %d s left was handed over with TTL %d", left, ttl)
				}
			}
		}
		if ok {
			got++
		} else if all && (it.ttl == 0 || int64(it.ttl)-int64(endedAt.Sub(it.at)/time.Second) > 15) { // it was never about to expire
			x.Failf("lost", "%s=%s (TTL %d) was not handed over when the close ended, although a peer takes everything", k, v, it.ttl)
		}
	}
	x.Out("%d of %d handed over", got, len(items))
}

func run(x *kit.X, n, ttl int, noTarget bool, wait int, refresh bool, bs []int) {
	c := lib.Config("d")
	c.NoTarget = noTarget
	dt := lib.New(x, c)
	var ps []*dpeer
	takes := false
	refuses := true
	for i, b := range bs {
		p := mk(fmt.Sprint("p", i), b)
		if behaviours[b].alike {
			p.alike = dt
		}
		ps = append(ps, p)
		takes = takes || behaviours[b].takes
		refuses = refuses && behaviours[b].refuses
	}
	defer lib.Stop(dt)
	items := mkItems(n, ttl)
	for i, it := range items {
		if err := dt.Insert(lib.Clone(it.d), &pb.InsertConfig{TTL: it.ttl, Count: 1}); err != nil {
			x.Failf("insert", "%v", err)
			return
		}
		items[i].at = time.Now()
		if i == n/2 && refresh {
			dt.Process(true)
		}
	}
	for _, p := range ps {
		dt.AddSource(p)
	}
	time.Sleep(time.Duration(wait) * time.Second)
	synctest.Wait()
	limit := time.Duration(60+40*n) * time.Second
	d, ok := closeIt(dt, limit, ps)
	at := time.Now()
	synctest.Wait()
	x.Step(n + 1)
	if !ok {
		x.Failf("endless", "the close of a dataset with %d data has not ended after %v", n, limit)
		return
	}
	x.Out("%d s", int(d.Seconds())/10)
	check(x, items, ps, at, takes)
	if err := dt.Insert(lib.D(99, 99, "late", "late"), &pb.InsertConfig{Count: 1}); err == nil {
		synctest.Wait()
		ok := false
		for _, p := range ps {
			ok = ok || p.Has(lib.KeyOf(lib.D(99, 99, "late", "late")), "v1:late")
		}
		if !ok {
			x.Failf("late-insert", "an insert after the close was acknowledged and is nowhere else")
		}
	}
}

func gen(g *kit.G) {
	var sets [][]int
	for b := range behaviours {
		sets = append(sets, []int{b})
	}
	for b := range behaviours {
		for b2 := range behaviours {
			sets = append(sets, []int{b, b2})
		}
	}
	sizes := []int{0, 1, 2, 3, 5, 12}
	if g.Thorough() {
		sizes = append(sizes, 4, 7, 25, 60)
	}
	for _, n := range sizes {
		for ttl := range ttls {
			for _, nt := range []bool{false, true} {
				for _, w := range []int{0, 70} {
					for _, r := range []bool{false, true} {
						for _, s := range sets {
							if !g.Thorough() && len(s) == 2 && (nt || ttl == 1) {
								continue
							}
							n, ttl, nt, w, r, s := n, ttl, nt, w, r, s
							g.Case(func() string {
								d := fmt.Sprintf("%d data, TTLs %v, no target %v, closed %d s after the last insert, refreshed half way %v, peers:", n, ttls[ttl], nt, w, r)
								for _, b := range s {
									d += " [" + behaviours[b].name + "]"
								}
								return d
							}, func(x *kit.X) { run(x, n, ttl, nt, w, r, s) })
						}
					}
				}
			}
		}
	}
}

// genMany: sizes beyond the per-round transfer limit.
func genMany(g *kit.G) {
	for _, n := range []int{150, 1001, 2100} {
		for _, b := range []int{0, 1, 6, 11} {
			if b == 1 && !g.Thorough() {
				continue
			}
			n, b := n, b
			g.Case(func() string { return fmt.Sprintf("%d data, peer %s", n, behaviours[b].name) }, func(x *kit.X) {
				run(x, n, 0, true, 0, true, []int{b})
			})
		}
	}
}

// genNoPeers: without peers a close ends at once.
func genNoPeers(g *kit.G) {
	for _, n := range []int{0, 1, 3} {
		n := n
		g.Case(func() string { return fmt.Sprintf("%d data, no peer", n) }, func(x *kit.X) { run(x, n, 0, true, 0, true, nil) })
	}
}

func sched(nIns int, b int, background bool) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		dt := lib.New(x, lib.Config("d"))
		defer lib.Stop(dt)
		items := mkItems(1, 0)
		dt.Insert(lib.Clone(items[0].d), &pb.InsertConfig{Count: 1})
		p := mk("p", b)
		dt.AddSource(p)
		at := time.Now()
		fs := []func(){func() { dt.Close() }}
		errs := make([]error, nIns)
		late := make([]*pb.Datum, nIns)
		for i := 0; i < nIns; i++ {
			i := i
			late[i] = lib.D(50, float32(i), "g", "late")
			fs = append(fs, func() { errs[i] = dt.Insert(lib.Clone(late[i]), &pb.InsertConfig{Count: 1}) })
		}
		if background {
			fs = append(fs, func() { dt.Process(true) })
		}
		lib.Run(x, e, fs...)
		synctest.Wait()
		for i := range late {
			if errs[i] == nil {
				items = append(items, item{late[i], 0, at})
			} else {
				x.Out("refused")
			}
		}
		check(x, items, []*dpeer{p}, time.Now(), true)
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "patterns", Gen: gen, Share: 3},
		kit.Family{Name: "many", Gen: genMany},
		kit.Family{Name: "no-peers", Gen: genNoPeers},
		kit.Family{Name: "schedules-insert-vs-close", Bound: 2, BoundThorough: 3, Delay: true, Sched: sched(1, 0, false), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-two-inserts-vs-close", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched(2, 0, false), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-refresh-vs-close", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched(0, 0, true), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-insert-refresh-close", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched(1, 0, true), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-flapping-peer", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched(1, 7, false), EndDeadlock: "stuck"},
	)
}

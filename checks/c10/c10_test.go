//go:build go1.22

// C10: rebalancing between peers (dataset level).
package c10

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/vmc"
)

// behaviours of a peer: the answer to its n-th insert.
var behaviours = []struct {
	name string
	err  func(n int) error
}{
	{"accepts", func(int) error { return nil }},
	{"full", func(int) error { return lib.ErrFull }},
	{"down", func(int) error { return lib.ErrDown }},
	{"takes one", func(n int) error {
		if n == 0 {
			return nil
		}
		return lib.ErrFull
	}},
	{"every other", func(n int) error {
		if n%2 == 0 {
			return lib.ErrDown
		}
		return nil
	}},
}

var infos = []string{"empty", "equal", "larger", "unknown"}

func info(kind int, n int) *pb.DataInfo {
	switch kind {
	case 0:
		return &pb.DataInfo{Name: "d"}
	case 1:
		return &pb.DataInfo{Name: "d", N: uint64(n), Avg: []float32{9, 9}}
	case 2:
		return &pb.DataInfo{Name: "d", N: uint64(n) * 3}
	}
	return nil
}

type peerSpec struct{ behaviour, info int }

func (p peerSpec) String() string { return infos[p.info] + "/" + behaviours[p.behaviour].name }

func mkPeer(id string, s peerSpec, n int) *lib.Peer {
	p := &lib.Peer{ID: id, Info: info(s.info, n)}
	k := 0
	p.Accept = func(*pb.Datum, *pb.InsertConfig) error {
		err := behaviours[s.behaviour].err(k)
		k++
		return err
	}
	return p
}

var ttls = [][]uint64{
	{0, 0, 0, 0, 0, 0},
	{600, 0, 30, 0, 5, 12},
	{30, 30, 30, 12, 600, 100000},
}

// item is what was inserted last under a key.
type item struct {
	d   *pb.Datum
	ttl uint64
	at  time.Time
}

func (i item) left(now time.Time) int64 { return int64(i.ttl) - int64(now.Sub(i.at)/time.Second) }

// conserve: every unexpired datum is still here, or a peer accepted this very version with its remaining life.
func conserve(x *kit.X, dt *data.Data, items map[string]item, ps []*lib.Peer, sent time.Time) int {
	local := lib.Content(dt)
	gone := 0
	for k, it := range items {
		if it.ttl != 0 && it.left(time.Now()) <= 0 {
			continue
		}
		v := lib.ValOf(it.d)
		if local[k] == v {
			continue
		}
		if local[k] != "" {
			x.Failf("stale", "%s is %s locally, the last insert was %s", k, local[k], v)
			return gone
		}
		gone++
		ok := false
		for _, p := range ps {
			for _, g := range p.Got {
				if lib.KeyOf(g.Datum) == k && lib.ValOf(g.Datum) == v {
					ok = true
				}
			}
		}
		if !ok {
			x.Failf("lost", "%s=%s is gone and no peer accepted it", k, v)
			return gone
		}
	}
	for k, v := range local {
		if it, ok := items[k]; !ok || lib.ValOf(it.d) != v {
			x.Failf("ghost", "%s=%s", k, v)
		}
	}
	return gone
}

// transfers checks what was sent at time sent.
func transfers(x *kit.X, items map[string]item, ps []*lib.Peer, sent time.Time) {
	for _, p := range ps {
		for _, g := range p.All {
			it, ok := items[lib.KeyOf(g.Datum)]
			if !ok || lib.ValOf(it.d) != lib.ValOf(g.Datum) {
				x.Failf("wrong-datum", "sent %s=%s", lib.KeyOf(g.Datum), lib.ValOf(g.Datum))
				return
			}
			if g.Config.GetCount() == 0 {
				x.Failf("loop", "a moved datum was sent as an original insert: %s would replicate it again", p.ID)
			}
			got := int64(g.Config.GetTTL())
			if it.ttl == 0 {
				if got != 0 {
					x.Failf("ttl", "a datum without expiry was sent with TTL %d", got)
				}
				continue
			}
			if want := it.left(sent); got > want || got < want-1 || got == 0 { // (no time passes during a transfer)
				x.Failf("ttl", "a datum with %d s left was sent with TTL %d", want, got)
			}
		}
	}
}

func run(x *kit.X, n int, ttl int, threshold int, mask int, specs []peerSpec) {
	c := lib.Config("d")
	if threshold >= 0 {
		c.NoTarget = false
		c.TargetN = 20
		c.TargetUtilization = float64(threshold) / 20
	}
	if threshold == -2 { // a target that does not count
		threshold = -1
		c.TargetN = 1
		c.TargetUtilization = 0.5
	}
	dt := lib.New(x, c)
	defer lib.Stop(dt)
	items := map[string]item{}
	for i := 0; i < n; i++ {
		d := lib.D(float32(i+1), float32(7-i), "g", fmt.Sprint("l", i))
		switch i { // unusual shapes
		case 1:
			d.Value.Label = nil
		case 3:
			d.Key.GroupLabel = nil
			d.Value.Version = 0
		case 5:
			d.Key.Feature = []float32{0, 0}
			d.Value.Label = make([]byte, 3000)
		}
		if err := dt.Insert(lib.Clone(d), &pb.InsertConfig{TTL: ttls[ttl][i], Count: 1}); err != nil {
			x.Failf("insert", "%v", err)
			return
		}
		items[lib.KeyOf(d)] = item{d, ttls[ttl][i], time.Now()}
	}
	for i := 0; i < 4; i++ { // statistics settle
		dt.Process(true)
	}
	time.Sleep(3 * time.Second)
	var ps []*lib.Peer
	for i, s := range specs {
		p := mkPeer(fmt.Sprint("p", i), s, n)
		ps = append(ps, p)
		dt.AddSource(p)
	}
	draw := 0
	vmc.RandHook = func() float64 {
		draw++
		if mask>>uint(draw-1)&1 == 1 {
			return 0
		}
		return 0.9999999
	}
	defer func() { vmc.RandHook = nil }()
	sent := time.Now()
	dt.Process(true)
	synctest.Wait()
	x.Step(n + 1)
	gone := conserve(x, dt, items, ps, sent)
	transfers(x, items, ps, sent)
	x.Out("gone %d of %d", gone, n)
	for _, p := range ps {
		x.Out("%s %d/%d", p.ID, len(p.Got), len(p.All))
	}
	if threshold < 0 && gone > 0 {
		x.Failf("no-target", "%d data were evicted although there is no size target", gone)
	}
	if gone > 0 && n-gone < threshold-1 {
		x.Failf("over-evicted", "%d of %d left, the threshold is %d", n-gone, n, threshold)
	}
	// a dataset above its threshold offers data to an empty peer which takes it
	if threshold >= 0 && n >= threshold && n > 0 && mask == 63 && len(specs) == 1 && specs[0] == (peerSpec{0, 0}) {
		if gone == 0 {
			x.Failf("idle", "%d stored, threshold %d, an empty accepting peer got %d", n, threshold, len(ps[0].Got))
		}
	}
	// a second round still conserves everything
	time.Sleep(2 * time.Second)
	dt.Process(true)
	synctest.Wait()
	conserve(x, dt, items, ps, sent)
}

func gen(g *kit.G) {
	var sets [][]peerSpec
	for b := range behaviours {
		for i := range infos {
			sets = append(sets, []peerSpec{{b, i}})
		}
	}
	for b := range behaviours {
		for b2 := range behaviours {
			for i := range infos {
				if !g.Thorough() && i != 0 && b != 0 && b2 != 0 {
					continue
				}
				for i2 := range infos {
					if !g.Thorough() && i2 > 1 {
						continue
					}
					sets = append(sets, []peerSpec{{b, i}, {b2, i2}})
				}
			}
		}
	}
	for _, n := range []int{0, 1, 2, 4, 6} {
		for _, th := range []int{-1, -2, 0, 2, 4, 6} {
			for ttl := range ttls {
				for _, mask := range []int{63, 0, 1, 2, 21, 42, 48, 7} {
					if mask>>uint(n) != 0 && mask != 63 {
						continue
					}
					for _, s := range sets {
						n, th, ttl, mask, s := n, th, ttl, mask, s
						g.Case(func() string {
							return fmt.Sprintf("%d stored with TTLs %v, threshold %d, draws %06b, peers %v", n, ttls[ttl][:n], th, mask, s)
						}, func(x *kit.X) { run(x, n, ttl, th, mask, s) })
					}
				}
			}
		}
	}
}

// genRounds: the background loop with inserts, updates and deletes between rounds.
func genRounds(g *kit.G) {
	type op int
	const (
		fresh op = iota
		update
		remove
		renew
		idle
	)
	names := []string{"insert", "update", "delete", "longer TTL", "-"}
	rounds := 3
	if g.Thorough() {
		rounds = 4
	}
	total := 1
	for i := 0; i < rounds; i++ {
		total *= 5
	}
	for code := 0; code < total; code++ {
		for b := range behaviours {
			for _, th := range []int{-1, 0, 3} {
				for _, m := range []int{0, 1, 2} {
					code, b, th, m := code, b, th, m
					ops := make([]op, rounds)
					for i, c := 0, code; i < rounds; i, c = i+1, c/5 {
						ops[i] = op(c % 5)
					}
					g.Case(func() string {
						s := ""
						for _, o := range ops {
							s += names[o] + ", "
						}
						return fmt.Sprintf("rounds %sthreshold %d, draw pattern %d, peer %s", s, th, m, behaviours[b].name)
					}, func(x *kit.X) {
						c := lib.Config("d")
						if th >= 0 {
							c.NoTarget = false
							c.TargetN = 20
							c.TargetUtilization = float64(th) / 20
						}
						dt := lib.New(x, c)
						defer lib.Stop(dt)
						p := mkPeer("p", peerSpec{b, 0}, 0)
						dt.AddSource(p)
						draw := 0
						vmc.RandHook = func() float64 {
							draw++
							if m == 0 || m == 1 && draw%2 == 0 {
								return 0
							}
							return 0.9999
						}
						defer func() { vmc.RandHook = nil }()
						items := map[string]item{}
						ver := 0
						put := func(i int, ttl uint64, same bool) {
							d := lib.D(float32(i+1), float32(7-i), "g", "l")
							if !same {
								ver++
								d.Value.Version = uint64(ver)
							} else if it, ok := items[lib.KeyOf(d)]; ok {
								d.Value.Version = it.d.Value.Version
							}
							if err := dt.Insert(lib.Clone(d), &pb.InsertConfig{TTL: ttl, Count: 1}); err != nil {
								x.Failf("insert", "%v", err)
							}
							items[lib.KeyOf(d)] = item{d, ttl, time.Now()}
							x.Step(1)
						}
						put(0, 0, false)
						put(1, 2000, false)
						put(2, 0, false)
						put(3, 0, false)
						for i, o := range ops {
							time.Sleep(75 * time.Second)
							synctest.Wait()
							conserve(x, dt, items, []*lib.Peer{p}, time.Now())
							switch o {
							case fresh:
								put(4+i, 0, false)
							case update:
								put(i%4, 0, false)
							case remove:
								d := lib.D(float32(i+1), float32(7-i), "g", "l")
								dt.Delete(d)
								delete(items, lib.KeyOf(d))
							case renew:
								put(1, 5000, true)
							}
							dt.AddSource(p)
						}
						time.Sleep(75 * time.Second)
						synctest.Wait()
						conserve(x, dt, items, []*lib.Peer{p}, time.Now())
						x.Out("%s | %d/%d", lib.Show(lib.Content(dt)), len(p.Got), len(p.All))
					})
				}
			}
		}
	}
}

// sched: a transfer against a concurrent change of the same data.
func sched(b int, change func(dt *data.Data, items map[string]item) error) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		c := lib.Config("d")
		c.NoTarget = false
		c.TargetN = 20
		c.TargetUtilization = 0
		dt := lib.New(x, c)
		defer lib.Stop(dt)
		items := map[string]item{}
		for i := 0; i < 2; i++ {
			d := lib.D(float32(i+1), 0, "g", "old")
			dt.Insert(lib.Clone(d), &pb.InsertConfig{TTL: 1000, Count: 1})
			items[lib.KeyOf(d)] = item{d, 1000, time.Now()}
		}
		dt.Process(true)
		p := mkPeer("p", peerSpec{b, 0}, 0)
		dt.AddSource(p)
		var err error
		lib.Run(x, e, func() { dt.Process(true) }, func() { err = change(dt, items) })
		if err != nil {
			x.Failf("change", "%v", err)
		}
		synctest.Wait()
		x.Out("%s %d/%d", lib.Show(lib.Content(dt)), len(p.Got), len(p.All))
		conserve(x, dt, items, []*lib.Peer{p}, time.Now())
	}
}

func update(dt *data.Data, items map[string]item) error {
	d := lib.D(1, 0, "g", "new")
	items[lib.KeyOf(d)] = item{d, 0, time.Now()}
	return dt.Insert(lib.Clone(d), &pb.InsertConfig{Count: 1})
}

func fresh(dt *data.Data, items map[string]item) error {
	d := lib.D(5, 0, "g", "new")
	items[lib.KeyOf(d)] = item{d, 0, time.Now()}
	return dt.Insert(lib.Clone(d), &pb.InsertConfig{Count: 1})
}

func twice(dt *data.Data, items map[string]item) error {
	if err := update(dt, items); err != nil {
		return err
	}
	d := lib.D(1, 0, "g", "old") // back to the first value
	items[lib.KeyOf(d)] = item{d, 0, time.Now()}
	return dt.Insert(lib.Clone(d), &pb.InsertConfig{Count: 1})
}

// renewal: the same value with no expiry, inserted while the version with 1000 s left is being moved, must not be lost.
func schedRenew(x *kit.X, e *vmc.Engine) {
	c := lib.Config("d")
	c.NoTarget = false
	c.TargetN = 20
	c.TargetUtilization = 0
	dt := lib.New(x, c)
	defer lib.Stop(dt)
	d := lib.D(1, 0, "g", "v")
	dt.Insert(lib.Clone(d), &pb.InsertConfig{TTL: 1000, Count: 1})
	dt.Process(true)
	p := mkPeer("p", peerSpec{0, 0}, 0)
	dt.AddSource(p)
	var err error
	lib.Run(x, e, func() { dt.Process(true) }, func() { err = dt.Insert(lib.Clone(d), &pb.InsertConfig{Count: 1}) })
	synctest.Wait()
	if err != nil {
		x.Failf("change", "%v", err)
	}
	here := lib.Content(dt)[lib.KeyOf(d)] != ""
	there := false
	for _, g := range p.Got {
		there = there || g.Config.GetTTL() == 0
	}
	x.Out("%v %v", here, there)
	if !here && !there {
		x.Failf("lost", "the datum was renewed without expiry, only the expiring version exists (at the peer)")
	}
}

// pauses: the process stands still for a while before any one step of a transfer.  What reaches a peer still
// ends no later than its own life plus the pause, and nothing gets a life without end.
func pauses(ttl uint64, pause time.Duration, drain bool) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		c := lib.Config("d")
		c.NoTarget = false
		c.TargetN = 20
		c.TargetUtilization = 0
		dt := lib.New(x, c)
		defer lib.Stop(dt)
		items := map[string]item{}
		for i, t := range []uint64{ttl, 0, 1000} {
			d := lib.D(float32(i+1), 0, "g", "v")
			dt.Insert(lib.Clone(d), &pb.InsertConfig{TTL: t, Count: 1})
			items[lib.KeyOf(d)] = item{d, t, time.Now()}
		}
		dt.Process(true)
		p := mkPeer("p", peerSpec{0, 0}, 0)
		late := map[int]time.Duration{}
		start := time.Now()
		p.Accept = func(*pb.Datum, *pb.InsertConfig) error {
			late[len(p.All)] = time.Since(start)
			return nil
		}
		dt.AddSource(p)
		e.Pause = pause
		f := func() { dt.Process(true) }
		if drain {
			f = func() { dt.Close() }
		}
		lib.Run(x, e, f)
		synctest.Wait()
		conserve(x, dt, items, []*lib.Peer{p}, time.Now())
		for _, g := range p.All {
			it := items[lib.KeyOf(g.Datum)]
			got := g.Config.GetTTL()
			switch {
			case it.d == nil:
				x.Failf("wrong-datum", "sent %s", lib.KeyOf(g.Datum))
			case it.ttl == 0 && got != 0:
				x.Failf("ttl", "a datum without expiry was sent with TTL %d", got)
			case it.ttl != 0 && (got == 0 || got > it.ttl):
				x.Failf("ttl", "a datum that was inserted with TTL %d was sent with TTL %d", it.ttl, got)
			}
		}
		x.Out("%d", len(p.All))
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "patterns", Gen: gen, Share: 2},
		kit.Family{Name: "rounds", Gen: genRounds, Share: 2},
		kit.Family{Name: "schedules-update", Share: 3, Bound: 2, BoundThorough: 3, Delay: true, Sched: sched(0, update)},
		kit.Family{Name: "schedules-insert", Bound: 1, BoundThorough: 3, Sched: sched(0, fresh)},
		kit.Family{Name: "schedules-update-twice", Bound: 1, BoundThorough: 2, Sched: sched(0, twice)},
		kit.Family{Name: "schedules-update-refusing", Bound: 1, BoundThorough: 3, Sched: sched(1, update)},
		kit.Family{Name: "schedules-renew", Share: 2, Bound: 2, BoundThorough: 3, Delay: true, Sched: schedRenew},
		kit.Family{Name: "pauses-short", Bound: 1, BoundThorough: 2, Delay: true, Sched: pauses(20, 15*time.Second, false)},
		kit.Family{Name: "pauses-beyond", Bound: 1, BoundThorough: 2, Delay: true, Sched: pauses(20, 30*time.Second, false)},
		kit.Family{Name: "pauses-drain", Bound: 1, BoundThorough: 2, Delay: true, Sched: pauses(20, 30*time.Second, true)},
	)
}

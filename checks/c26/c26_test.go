//go:build go1.22

// C26: retention removes only datasets whose retention has passed.
package c26

import (
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vmc"
)

const day = 86400

// period is the retention in seconds as documented.
func period(r uint64) time.Duration {
	if r == 0 {
		return 14 * day * time.Second
	}
	return time.Duration(r) * time.Second
}

// event is a step of a history: what is done after a part of the retention has passed.
type event struct {
	after float64 // of the retention
	use   string
}

var uses = []string{"insert", "stream", "info", "create", "nothing", "newer"}

type run struct {
	x    *kit.X
	n    *node.Node
	want map[string]string
	last time.Time
	r    uint64
	k    int
}

func (t *run) has() bool { return nlib.Datasets(t.n)["d"] != nil }

// present: the dataset and everything in it is there.
func (t *run) present(what string) bool {
	if !t.has() {
		t.x.Failf("early", "%s: the dataset is gone %v after its last use, its retention is %v", what, time.Since(t.last), period(t.r))
		return false
	}
	req := nlib.Req("d", 1000, lib.D(0, 0, "", ""))
	l, err := nlib.Search(nlib.Addr(0), req)
	got := map[string]string{}
	for _, s := range l {
		got[lib.KeyOf(s.Datum)] = lib.ValOf(s.Datum)
	}
	if err != nil || lib.Show(got) != lib.Show(t.want) {
		t.x.Failf("early", "%s: a search finds %s, inserted were %s (%v)", what, lib.Show(got), lib.Show(t.want), err)
		return false
	}
	return true
}

func (t *run) use(u string) {
	t.x.Step(1)
	a := nlib.Addr(0)
	var err error
	switch u {
	case "insert":
		t.k++
		d := lib.D(float32(t.k), 1, "g", fmt.Sprint("l", t.k))
		t.want[lib.KeyOf(d)] = lib.ValOf(d)
		err = nlib.Insert(a, "d", d, &pb.InsertConfig{Count: 1})
	case "stream":
		_, err = nlib.Stream(a, "d")
	case "info":
		_, err = nlib.Info(a, "d")
	case "create":
		_, err = nlib.Create(a, cfg(t.r, 1))
	case "newer": // the retention changes with it
		t.r = t.r*2 + 1000
		_, err = nlib.Create(a, cfg(t.r, uint64(100+t.k)))
		t.k++
	case "nothing":
		return
	}
	if err != nil {
		t.x.Failf("error", "%s: %v", u, err)
	}
	t.last = time.Now()
}

func cfg(r, version uint64) *pb.DataConfig {
	return &pb.DataConfig{Name: "d", NoTarget: true, TargetN: 1000, TargetUtilization: 0.4, Version: version, Retention: r}
}

func start(x *kit.X, r uint64) *run {
	nlib.Reset()
	t := &run{x: x, n: nlib.New(x, 0), want: map[string]string{}, r: r}
	if _, err := nlib.Create(nlib.Addr(0), cfg(r, 1)); err != nil {
		x.Failf("error", "%v", err)
	}
	// another one that is to outlive all of it
	c := cfg(1<<32, 1)
	c.Name = "other"
	nlib.Create(nlib.Addr(0), c)
	nlib.Insert(nlib.Addr(0), "other", lib.D(1, 1, "o", "o"), &pb.InsertConfig{Count: 1})
	t.use("insert")
	return t
}

// watch is a peer that counts how often it is asked.
type watch struct {
	lib.Peer
	n atomic.Int32
}

func (w *watch) GetDataInfo() *pb.DataInfo {
	w.n.Add(1)
	return w.Peer.GetDataInfo()
}

func (t *run) end() {
	// just before the end
	p := period(t.r)
	if left := time.Until(t.last.Add(p)) - 3*time.Second; left > 0 {
		time.Sleep(left)
		if !t.present("just before the end") {
			return
		}
	}
	w := &watch{}
	w.ID, w.Info = "watch", &pb.DataInfo{Name: "d"}
	w.Accept = func(*pb.Datum, *pb.InsertConfig) error { return lib.ErrDown }
	if dt := nlib.Datasets(t.n)["d"]; dt != nil {
		dt.AddSource(w)
	}
	// well after it
	time.Sleep(time.Until(t.last.Add(p)) + 130*time.Second)
	synctest.Wait()
	if t.has() {
		t.x.Failf("kept", "the dataset is still there %v after its last use, its retention is %v", time.Since(t.last), p)
		return
	}
	before := w.n.Load()
	time.Sleep(45 * time.Second)
	if w.n.Load() != before {
		t.x.Failf("kept", "%v after the last use of the dataset its peers are still asked about it, its retention is %v", time.Since(t.last), p)
		return
	}
	l, _ := os.ReadDir(filepath.Join(t.n.Dataset.DataPath))
	if len(l) > 1 {
		t.x.Failf("files", "the files of the dataset are still there")
		return
	}
	if o := nlib.Datasets(t.n)["other"]; o == nil || len(lib.Content(o)) != 1 {
		t.x.Failf("other", "the dataset that is kept for longer has lost its data")
		return
	}
	// it can be made again, and is empty
	if err := nlib.Insert(nlib.Addr(0), "d", lib.D(99, 99, "n", "n"), &pb.InsertConfig{Count: 1}); err != nil {
		t.x.Failf("error", "an insert afterwards: %v", err)
		return
	}
	r, err := nlib.Search(nlib.Addr(0), nlib.Req("d", 1000, lib.D(0, 0, "", "")))
	if err != nil || len(r) != 1 || lib.ValOf(r[0].Datum) != "v1:n" {
		t.x.Failf("again", "the new dataset holds %s, %v", lib.ShowRes(r), err)
	}
	t.x.Out("gone")
}

func gen(g *kit.G) {
	rs := []uint64{30, 61, 600, 3600, 20000}
	if g.Thorough() {
		rs = append(rs, 0, 90, 7200, 100000)
	}
	fr := []float64{0.3, 0.7, 0.95}
	depth := 2
	if g.Thorough() {
		depth = 3
	}
	for _, r := range rs {
		var rec func(h []event)
		rec = func(h []event) {
			r, hh := r, append([]event(nil), h...)
			g.Case(func() string { return fmt.Sprintf("retention %d: %v", r, hh) }, func(x *kit.X) {
				t := start(x, r)
				defer nlib.Stop(t.n)
				for _, e := range hh {
					p := period(t.r)
					d := time.Duration(e.after * float64(p))
					if t.r >= 600 && d > 0 {
						d -= d % time.Second
					}
					if e.use == "nothing" && time.Since(t.last)+d > p-3*time.Second {
						break
					}
					if time.Since(t.last)+d > p-3*time.Second {
						d = p - 3*time.Second - time.Since(t.last)
					}
					time.Sleep(d)
					if !t.present(fmt.Sprintf("before %v", e)) {
						return
					}
					t.use(e.use)
					if x.Failed() {
						return
					}
				}
				t.end()
			})
			if len(h) == depth {
				return
			}
			for _, f := range fr {
				for _, u := range uses {
					rec(append(h, event{f, u}))
				}
			}
		}
		rec(nil)
	}
}

// long: the default, two weeks, and long retentions with a use now and then.
func long(g *kit.G) {
	for _, r := range []uint64{0, 14 * day, 30 * day} {
		for _, u := range []string{"nothing", "insert", "stream", "info", "create"} {
			r, u := r, u
			g.Case(func() string { return fmt.Sprintf("retention %d, %s after ten days", r, u) }, func(x *kit.X) {
				t := start(x, r)
				defer nlib.Stop(t.n)
				time.Sleep(10 * day * time.Second)
				if !t.present("after ten days") {
					return
				}
				t.use(u)
				time.Sleep(5*day*time.Second + time.Duration(0))
				if u != "nothing" || r > 15*day {
					if !t.present("after fifteen days") {
						return
					}
				}
				if !x.Failed() {
					t.end()
				}
			})
		}
	}
}

// absurd retentions do not make a dataset disappear.
func absurd(g *kit.G) {
	for _, r := range []uint64{9223372036, 9223372037, 18446744073, 18446744074, 18446744075, 1 << 40, 1 << 62, 1 << 63, 1<<64 - 1} {
		r := r
		g.Case(func() string { return fmt.Sprintf("retention %d", r) }, func(x *kit.X) {
			t := start(x, r)
			defer nlib.Stop(t.n)
			for i := 0; i < 20; i++ {
				time.Sleep(30 * time.Minute)
				if !t.present("soon") {
					return
				}
				t.use(uses[i%4])
			}
		})
	}
}

// library: without a node; a dataset that was made, or read from the index, and then hardly or not at all used.
func library(g *kit.G) {
	rs := []uint64{1, 2, 29, 30, 59, 60, 61, 75, 90, 119, 121, 600, 3599, 3601, 90061}
	if g.Thorough() {
		rs = append(rs, 0, 15*day+1)
	}
	waits := []float64{0, 0.5, 0.9}
	for _, r := range rs {
		for _, way := range []string{"made", "read", "made twice", "newer"} {
			for _, n := range []int{0, 1, 3} { // times it is used
				for _, w := range waits {
					r, way, n, w := r, way, n, w
					if n == 0 && w > 0 {
						continue
					}
					g.Case(func() string {
						return fmt.Sprintf("retention %d, %s, used %d times after %v of it each", r, way, n, w)
					}, func(x *kit.X) { unused(x, r, way, n, w) })
				}
			}
		}
	}
}

func unused(x *kit.X, r uint64, way string, n int, w float64) {
	dir := filepath.Join(x.Tmp(), "lib")
	ds := data.NewDataset(dir)
	ds.CreateIfNotExists(cfg(r, 1))
	switch way {
	case "read":
		ds.SaveIndex()
		synctest.Wait()
		ds.Close()
		synctest.Wait()
		ds = data.NewDataset(dir)
	case "made twice":
		ds.CreateIfNotExists(cfg(r, 1))
	case "newer":
		ds.CreateIfNotExists(cfg(r*3+1000, 2)) // counts from the next use on
	}
	defer nlib.Stop()
	d, err := ds.GetNoCreate("d")
	if err != nil {
		x.Failf("early", "the dataset is not there: %v", err)
		return
	}
	k := lib.D(1, 1, "g", "l")
	d.Insert(k, nil)
	last := time.Now()
	p := period(r)
	there := func() bool {
		d, err := ds.GetNoCreate("d")
		if err != nil || len(lib.Content(d)) != 1 {
			x.Failf("early", "the dataset is gone %v after its last use, its retention is %v (%v)", time.Since(last), p, err)
			return false
		}
		return true
	}
	for i := 0; i < n; i++ {
		time.Sleep(time.Duration(w * float64(p)))
		if !there() {
			return
		}
		if _, err := ds.Get("d"); err != nil {
			x.Failf("error", "%v", err)
			return
		}
		last = time.Now()
		if way == "newer" && r != 0 {
			p = period(r*3 + 1000)
		} else if way == "newer" {
			p = period(1000)
		}
		x.Step(1)
	}
	time.Sleep(p - p/20 - time.Millisecond)
	if !there() {
		return
	}
	time.Sleep(time.Until(last.Add(p)) + 130*time.Second)
	if _, err := ds.GetNoCreate("d"); err == nil {
		x.Failf("kept", "the dataset is still there %v after its last use, its retention is %v", time.Since(last), p)
	}
	x.Out("gone")
	lib.Kill(d)
}

// lastMoment: a use shortly before the end of the retention by a process that stands still for a while before
// any one step: what was acknowledged is there.
func lastMoment(pause time.Duration) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		nlib.Reset()
		t := &run{x: x, n: nlib.New(x, 0), want: map[string]string{}, r: 600}
		defer nlib.Stop(t.n)
		nlib.Create(nlib.Addr(0), cfg(600, 1))
		t.use("insert")
		time.Sleep(599 * time.Second)
		e.Pause = pause
		ok := false
		d := lib.D(2, 1, "g", "last")
		lib.Run(x, e, func() {
			ok = nlib.Insert(nlib.Addr(0), "d", d, &pb.InsertConfig{Count: 1}) == nil
		})
		synctest.Wait()
		x.Step(1)
		if !ok {
			x.Out("refused")
			return
		}
		for _, w := range []time.Duration{0, 70 * time.Second, 300 * time.Second} {
			time.Sleep(w)
			dt := nlib.Datasets(t.n)["d"]
			if dt == nil {
				x.Failf("early", "an insert was acknowledged, %v later the dataset is gone", w)
				return
			}
			if lib.Content(dt)[lib.KeyOf(d)] == "" {
				x.Failf("early", "an insert was acknowledged, %v later the dataset does not have it", w)
				return
			}
		}
		x.Out("%d", len(lib.Content(nlib.Datasets(t.n)["d"])))
	}
}

// slow is a peer that takes its time.
type slow struct {
	lib.Peer
	d time.Duration
}

func (s *slow) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	time.Sleep(s.d)
	return s.Peer.Insert(d, c)
}

// farewell: a dataset that is used again while its old data is still being handed over, after its retention.
func farewell(g *kit.G) {
	for _, r := range []uint64{30, 61, 90} {
		for _, n := range []int{1, 4} {
			for _, accepts := range []bool{true, false} {
				for _, d := range []time.Duration{0, 3 * time.Second, 20 * time.Second} {
					for off := 1; off < 190; off += 6 {
						r, n, accepts, d, off := r, n, accepts, d, off
						g.Case(func() string {
							return fmt.Sprintf("retention %d, %d data, a peer that accepts: %v, takes %v for each, used again %d s after the end", r, n, accepts, d, off)
						}, func(x *kit.X) {
							t := start(x, r)
							defer nlib.Stop(t.n)
							for i := 1; i < n; i++ {
								t.use("insert")
							}
							p := &slow{d: d}
							p.ID, p.Info = "p", &pb.DataInfo{Name: "d"}
							p.Accept = func(*pb.Datum, *pb.InsertConfig) error {
								if !accepts {
									return lib.ErrFull
								}
								return nil
							}
							nlib.Datasets(t.n)["d"].AddSource(p)
							time.Sleep(period(r) + time.Duration(off)*time.Second + 300*time.Millisecond)
							k := lib.D(77, 1, "g", "again")
							if err := nlib.Insert(nlib.Addr(0), "d", k, &pb.InsertConfig{Count: 1}); err != nil {
								x.Out("refused")
								return
							}
							for _, w := range []time.Duration{0, 40 * time.Second, 100 * time.Second, 300 * time.Second} {
								time.Sleep(w)
								x.Step(1)
								l, err := nlib.Search(nlib.Addr(0), nlib.Req("d", 1000, lib.D(0, 0, "", "")))
								ok := false
								for _, s := range l {
									ok = ok || lib.KeyOf(s.Datum) == lib.KeyOf(k)
								}
								if !ok {
									x.Failf("early", "an insert after the retention was acknowledged; %v later a search finds %s (%v)", w, lib.ShowRes(l), err)
									return
								}
							}
							x.Out("found")
						})
					}
				}
			}
		}
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "histories", Gen: gen, Share: 3},
		kit.Family{Name: "farewell", Gen: farewell},
		kit.Family{Name: "weeks", Gen: long},
		kit.Family{Name: "library", Gen: library},
		kit.Family{Name: "last-moment-insert", Bound: 1, BoundThorough: 2, Delay: true, Sched: lastMoment(3 * time.Second)},
		kit.Family{Name: "last-moment-insert-long", Bound: 1, BoundThorough: 2, Delay: true, Sched: lastMoment(90 * time.Second)},
		kit.Family{Name: "absurd", Gen: absurd},
	)
}

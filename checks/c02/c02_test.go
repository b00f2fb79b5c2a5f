//go:build go1.22

// C02: a dataset behaves like a map from keys to values with expiry.
package c02

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
)

// ref is the reference: per key the value and the interval in which its expiry lies (0,0: never).
type ref map[string]*rent
type rent struct {
	val    string
	lo, hi int64
	key    string
}

func (r *rent) dead(now int64) bool  { return r.hi != 0 && now > r.hi } // certainly expired
func (r *rent) live(now int64) bool  { return r.lo == 0 || now < r.lo } // certainly live
func (r *rent) maybe(now int64) bool { return !r.dead(now) && !r.live(now) }
func now() int64                     { return time.Now().Unix() }

type op struct {
	name string
	do   func(x *kit.X, dt *data.Data, r ref)
}

func ins(name string, mk func() *pb.Datum, ttl uint64, nilConfig bool) op {
	return op{name, func(x *kit.X, dt *data.Data, r ref) {
		d := mk()
		k, v := lib.KeyOf(d), lib.ValOf(d)
		var c *pb.InsertConfig
		if !nilConfig {
			c = &pb.InsertConfig{TTL: ttl}
		}
		if err := dt.Insert(d, c); err != nil {
			x.Failf("refused", "insert of %s refused: %v", k, err)
			return
		}
		lo, hi := int64(0), int64(0)
		if ttl != 0 && ttl < 1<<40 {
			lo = now() + int64(ttl)
			hi = lo
		}
		old := r[k]
		e := &rent{key: k, val: v, lo: lo, hi: hi}
		if old != nil && !old.dead(now()) && old.val == v && (old.lo == 0) == (lo == 0) && lo != 0 {
			// an identical re-insert may keep the old expiry when it is close (less than 10 s) to the new one
			if d := lo - old.lo; d < 10 && d > -10 {
				if old.lo < e.lo {
					e.lo = old.lo
				}
			}
			if d := hi - old.hi; d < 10 && d > -10 {
				if old.hi > e.hi {
					e.hi = old.hi
				}
			}
		}
		r[k] = e
		if m := lib.Content(dt); m[k] != v && (lo == 0 || ttl > 0) {
			x.Failf("not-at-once", "insert of %s=%s was acknowledged, but the content is %s", k, v, lib.Show(m))
		}
	}}
}

// short: times that land exactly on each expiry, and between seconds.
func short() []op {
	a1 := func() *pb.Datum { return lib.D(1, 0, "g", "a1") }
	a2 := func() *pb.Datum { return lib.D(1, 0, "g", "a2") }
	b1 := func() *pb.Datum { return lib.D(2, 0, "g", "b1") }
	wait := func(d time.Duration) op {
		return op{d.String(), func(x *kit.X, dt *data.Data, r ref) { time.Sleep(d) }}
	}
	return []op{
		ins("a1/1s", a1, 1, false),
		ins("a1/3s", a1, 3, false),
		ins("a2/3s", a2, 3, false),
		ins("a1", a1, 0, false),
		ins("b1/2s", b1, 2, false),
		ins("b1", b1, 0, true),
		wait(time.Second), wait(2 * time.Second), wait(500 * time.Millisecond),
		{"look", func(x *kit.X, dt *data.Data, r ref) {
			check(x, "stream", lib.Content(dt), r)
			check(x, "search", lib.SearchAll(dt), r)
		}},
	}
}

func genShort(g *kit.G) {
	all := short()
	depth := 5
	if g.Thorough() {
		depth = 6
	}
	var rec func(p []op)
	rec = func(p []op) {
		if !g.More() {
			return
		}
		if len(p) == depth {
			q := append([]op(nil), p...)
			g.Case(func() string { return name(q) }, run(q))
			return
		}
		for _, o := range all {
			if len(p) > 0 && o.name == "look" && p[len(p)-1].name == "look" {
				continue
			}
			rec(append(p, o))
		}
	}
	rec(nil)
}

// genFar: an entry with a far expiry is there, at once and for a day.
func genFar(g *kit.G) {
	var ttls []uint64
	for k := 14; k < 64; k++ {
		ttls = append(ttls, 1<<k-1, 1<<k, 1<<k+1, 3<<k/2)
	}
	for p, k := uint64(100000), 5; k < 20; k++ {
		ttls = append(ttls, p, 2147*p/100, 2148*p/100, 4295*p/100)
		p *= 10
	}
	ttls = append(ttls, 1<<64-1)
	for _, ttl := range ttls {
		ttl := ttl
		if ttl <= 4000 {
			continue // wrapped around
		}
		g.Case(func() string { return fmt.Sprintf("TTL %d s", ttl) }, func(x *kit.X) {
			dt := lib.New(x, lib.Config("d"))
			defer lib.Stop(dt)
			r := ref{}
			ins("a", func() *pb.Datum { return lib.D(1, 0, "g", "a") }, ttl, false).do(x, dt, r)
			for _, s := range []time.Duration{0, time.Second, 9 * time.Second, 50 * time.Second, 59 * time.Minute} {
				time.Sleep(s)
				if len(lib.Content(dt)) != 1 || len(lib.SearchAll(dt)) != 1 {
					x.Failf("expired", "inserted with a TTL of %d s, and not there after another %v", ttl, s)
					return
				}
				x.Step(1)
			}
			x.Out("there")
		})
	}
}

// genLong: an entry is there until its expiry and gone after it, however long that is.
func genLong(g *kit.G) {
	for _, ttl := range []uint64{11, 59, 61, 127, 128, 255, 256, 3600, 32767, 32768, 40000, 65535, 65536, 86399, 86401, 100000, 200000, 1<<21 + 5} {
		for _, mode := range []string{"alone", "re-inserted near its end", "shortened", "refreshed near its end"} {
			ttl, mode := ttl, mode
			g.Case(func() string { return fmt.Sprintf("TTL %d s, %s", ttl, mode) }, func(x *kit.X) {
				dt := lib.New(x, lib.Config("d"))
				defer lib.Stop(dt)
				r := ref{}
				a := func() *pb.Datum { return lib.D(1, 0, "g", "a") }
				look := func() {
					check(x, "stream", lib.Content(dt), r)
					check(x, "search", lib.SearchAll(dt), r)
					x.Step(1)
				}
				if mode == "shortened" {
					ins("first", a, 3*ttl, false).do(x, dt, r)
				}
				ins("a", a, ttl, false).do(x, dt, r)
				ins("b", func() *pb.Datum { return lib.D(2, 0, "g", "b") }, 0, false).do(x, dt, r)
				look()
				time.Sleep(time.Duration(ttl-1) * time.Second)
				look()
				switch mode {
				case "re-inserted near its end":
					ins("again", a, ttl, false).do(x, dt, r)
					time.Sleep(2 * time.Second)
					look()
					time.Sleep(time.Duration(ttl-3) * time.Second)
				case "refreshed near its end":
					dt.Process(true)
				}
				look()
				time.Sleep(2 * time.Second)
				look()
				x.Out("%s", lib.Show(lib.Content(dt)))
			})
		}
	}
}

func ops() []op {
	a1 := func() *pb.Datum { return lib.D(1, 0, "g", "a1") }
	a2 := func() *pb.Datum { return lib.D(1, 0, "g", "a2") }
	b1 := func() *pb.Datum { return lib.D(1, 0, "h", "b1") } // same feature, other group label
	return []op{
		ins("a1", a1, 0, true),
		ins("a1/15s", a1, 15, false),
		ins("a1/40s", a1, 40, false),
		ins("a2", a2, 0, false),
		ins("a2/20s", a2, 20, false),
		ins("a1/huge", a1, 1<<63+5, false),
		ins("a1'", func() *pb.Datum { d := a1(); d.Value.Version = 2; return d }, 0, true), // same label, other version
		ins("b1/30s", b1, 30, false),
		{"del a", func(x *kit.X, dt *data.Data, r ref) {
			if err := dt.Delete(a1()); err != nil {
				x.Failf("delete", "%v", err)
			}
			delete(r, lib.KeyOf(a1()))
		}},
		{"del b", func(x *kit.X, dt *data.Data, r ref) {
			if err := dt.Delete(b1()); err != nil {
				x.Failf("delete", "%v", err)
			}
			delete(r, lib.KeyOf(b1()))
		}},
		{"7s", func(x *kit.X, dt *data.Data, r ref) { time.Sleep(7 * time.Second) }},
		{"25s", func(x *kit.X, dt *data.Data, r ref) { time.Sleep(25 * time.Second) }},
		{"refresh", func(x *kit.X, dt *data.Data, r ref) { dt.Process(true) }},
		{"search", func(x *kit.X, dt *data.Data, r ref) { check(x, "search", lib.SearchAll(dt), r) }},
	}
}

func check(x *kit.X, where string, got map[string]string, r ref) {
	t := now()
	for k, e := range r {
		v, ok := got[k]
		switch {
		case e.live(t) && !ok:
			x.Failf("lost", "%s: %s=%s is missing (have %s)", where, k, e.val, lib.Show(got))
		case e.dead(t) && ok:
			x.Failf("expired-visible", "%s: %s=%s is visible after its expiry", where, k, v)
		case ok && v != e.val:
			x.Failf("stale", "%s: %s is %s, expected %s", where, k, v, e.val)
		}
	}
	for k, v := range got {
		if r[k] == nil {
			x.Failf("ghost", "%s: %s=%s was never inserted or was deleted", where, k, v)
		}
	}
}

func run(seq []op) func(x *kit.X) {
	return func(x *kit.X) {
		dt := lib.New(x, lib.Config("d"))
		defer lib.Stop(dt)
		r := ref{}
		for _, o := range seq {
			o.do(x, dt, r)
			x.Step(1)
		}
		synctest.Wait()
		m, n := lib.ContentN(dt)
		if n != len(m) {
			x.Failf("duplicate", "a key is stored twice: %d entries, %d keys", n, len(m))
		}
		check(x, "stream", m, r)
		check(x, "search", lib.SearchAll(dt), r)
		// the count of a refresh agrees
		dt.Process(true)
		lo, hi := 0, 0
		for _, e := range r {
			if e.live(now()) {
				lo++
			}
			if !e.dead(now()) {
				hi++
			}
		}
		if c := int(dt.GetDataInfo().N); c < lo || c > hi {
			x.Failf("count", "published count %d, expected %d..%d", c, lo, hi)
		}
		x.Out("%s", lib.Show(m))
		x.State(lib.Show(m))
	}
}

func gen(g *kit.G) {
	all := ops()
	depth := 4
	if g.Thorough() {
		depth = 5
	}
	var rec func(p []op)
	rec = func(p []op) {
		if !g.More() {
			return
		}
		q := append([]op(nil), p...)
		g.Case(func() string { return name(q) }, run(q))
		if len(p) == depth {
			return
		}
		for _, o := range all {
			if len(p) > 0 && o.name == p[len(p)-1].name && (strings.HasPrefix(o.name, "del") || o.name == "search" || o.name == "refresh") {
				continue // idempotent immediately after itself
			}
			rec(append(p, o))
		}
	}
	rec(nil)
}

// genDeep: longer histories over one key with expiry.
func genDeep(g *kit.G) {
	all := ops()
	pick := []op{all[1], all[2], all[4], all[8], all[10], all[13]}
	depth := 6
	if g.Thorough() {
		depth = 7
	}
	var rec func(p []op)
	rec = func(p []op) {
		if !g.More() {
			return
		}
		if len(p) == depth {
			q := append([]op(nil), p...)
			g.Case(func() string { return name(q) }, run(q))
			return
		}
		for _, o := range pick {
			rec(append(p, o))
		}
	}
	rec(nil)
}

// genAlike: keys that differ in one field only are different keys, however long they are.
func genAlike(g *kit.G) {
	for _, width := range []int{1, 8, 30, 64, 300, 1500} {
		for _, label := range []int{1, 40, 300} {
			key := func(field int) *pb.DatumKey {
				k := &pb.DatumKey{Feature: make([]float32, width), GroupLabel: make([]byte, label), Size1: 1, Size2: 1, Dim1: 2, Dim2: 1}
				switch field {
				case 1:
					k.Feature[width-1] = 4
				case 2:
					k.GroupLabel[label-1] = 1
				case 3:
					k.Size1 = 2
				case 4:
					k.Size2 = 2
				case 5:
					k.Dim1 = 3
				case 6:
					k.Dim2 = 2
				}
				return k
			}
			for f := 0; f < 7; f++ {
				for h := 0; h < 7; h++ {
					if f == h || !g.Thorough() && f > 0 && h > 0 {
						continue
					}
					var all []op
					for i, field := range []int{f, h} {
						mk := func(l string) func() *pb.Datum {
							return func() *pb.Datum {
								return &pb.Datum{Key: key(field), Value: &pb.DatumValue{Version: 1, Label: []byte(l)}}
							}
						}
						n := string(rune('a' + i))
						all = append(all, ins(n+"1", mk(n+"1"), 0, false), ins(n+"2/30s", mk(n+"2"), 30, false),
							op{"delete " + n, func(x *kit.X, dt *data.Data, r ref) {
								d := mk("x")()
								dt.Delete(d)
								delete(r, lib.KeyOf(d))
							}})
					}
					for i := 0; i < 216; i++ {
						w, l, fh := width, label, [2]int{f, h}
						seq := []op{all[i%6], all[i/6%6], all[i/36]}
						g.Case(func() string {
							return fmt.Sprintf("%d features, label of %d bytes, keys that differ in fields %v: %s", w, l, fh, name(seq))
						}, run(seq))
					}
				}
			}
		}
	}
}

func name(q []op) string {
	var l []string
	for _, o := range q {
		l = append(l, o.name)
	}
	return fmt.Sprintf("[%s]", strings.Join(l, "; "))
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "histories", Gen: gen, Share: 1},
		kit.Family{Name: "expiry-histories", Gen: genDeep, Share: 1},
		kit.Family{Name: "far", Gen: genFar, Share: 1},
		kit.Family{Name: "long", Gen: genLong, Share: 1},
		kit.Family{Name: "alike-keys", Gen: genAlike, Share: 1},
		kit.Family{Name: "exact-times", Gen: genShort, Share: 1},
	)
}

//go:build go1.22

// C03: concurrent operations on one dataset.
package c03

import (
	"fmt"
	"testing"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/vmc"
)

var (
	a1 = func() *pb.Datum { return lib.D(1, 0, "g", "a1") }
	a2 = func() *pb.Datum { return lib.D(1, 0, "g", "a2") }
	a3 = func() *pb.Datum { return lib.D(1, 0, "g", "a3") }
	b1 = func() *pb.Datum { return lib.D(0, 1, "g", "b1") }
	c1 = func() *pb.Datum { return lib.D(1, 1, "g", "c1") }
)

func ttl(s uint64) *pb.InsertConfig { return &pb.InsertConfig{TTL: s} }

// act is one operation of a thread.
type act struct {
	name string
	do   func(dt *data.Data) (string, error)
}

func ins(mk func() *pb.Datum, t uint64) act {
	d := mk()
	return act{fmt.Sprintf("insert %s ttl %d", lib.ValOf(d), t), func(dt *data.Data) (string, error) { return "", dt.Insert(mk(), ttl(t)) }}
}
func del(mk func() *pb.Datum) act {
	return act{"delete " + lib.KeyOf(mk()), func(dt *data.Data) (string, error) { return "", dt.Delete(mk()) }}
}

var (
	search  = act{"search", func(dt *data.Data) (string, error) { return lib.Show(lib.SearchAll(dt)), nil }}
	stream  = act{"stream", func(dt *data.Data) (string, error) { return lib.Show(lib.Content(dt)), nil }}
	refresh = act{"refresh", func(dt *data.Data) (string, error) { return "", dt.Process(true) }}
)

// scenario: prepare, let an entry of a expire, run the threads, compare with the values a sequential order
// could leave.
type scenario struct {
	name    string
	prep    []act
	wait    int
	threads []act
	// final allowed values per key ("" = absent)
	final map[string][]string
	bound int
	thor  int
	// seen: values which a concurrent read of the key may report ("" = absent)
	seen map[string][]string
	// later: values allowed 40 seconds later, per value of key a directly afterwards
	later map[string][]string
	only  bool // in the thorough tier
}

func has(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

func (s scenario) sched(x *kit.X, e *vmc.Engine) {
	dt := lib.New(x, lib.Config("d"))
	defer lib.Stop(dt)
	for _, a := range s.prep {
		if _, err := a.do(dt); err != nil {
			x.Failf("prepare", "%s: %v", a.name, err)
		}
	}
	time.Sleep(time.Duration(s.wait) * time.Second)
	out := make([]string, len(s.threads))
	var fs []func()
	reads := make([]map[string]string, len(s.threads))
	for i, a := range s.threads {
		i, a := i, a
		fs = append(fs, func() {
			var err error
			switch a.name {
			case "search":
				reads[i] = lib.SearchAll(dt)
			case "stream":
				reads[i] = lib.Content(dt)
			default:
				_, err = a.do(dt)
			}
			if err != nil {
				out[i] = err.Error()
				x.Failf("error", "%s: %v", a.name, err)
			}
		})
	}
	lib.Run(x, e, fs...)
	m, n := lib.ContentN(dt)
	x.Out("%s", lib.Show(m))
	if n != len(m) {
		x.Failf("duplicate", "%d entries, %d keys", n, len(m))
	}
	for k, l := range s.final {
		if !has(l, m[k]) {
			x.Failf("lost", "%s is %q afterwards, allowed %q (content %s)", k, m[k], l, lib.Show(m))
		}
	}
	for k := range m {
		if s.final[k] == nil {
			x.Failf("ghost", "unexpected key %s", k)
		}
	}
	for i, r := range reads {
		if r == nil {
			continue
		}
		x.Out("%s", lib.Show(r))
		for k, l := range s.seen {
			if !has(l, r[k]) {
				x.Failf("read", "%s reports %q for %s, allowed %q", s.threads[i].name, r[k], k, l)
			}
		}
	}
	if s2 := lib.SearchAll(dt); lib.Show(s2) != lib.Show(m) {
		x.Failf("inconsistent", "search sees %s, stream sees %s", lib.Show(s2), lib.Show(m))
	}
	// and the next refresh counts exactly what is there
	dt.Process(true)
	if c := int(dt.GetDataInfo().N); c != len(m) {
		x.Failf("count", "published count %d, content %s", c, lib.Show(m))
	}
	if s.later != nil {
		time.Sleep(40 * time.Second)
		m2 := lib.Content(dt)
		if !has(s.later[m[ka]], m2[ka]) {
			x.Failf("later", "%s is %q afterwards and %q 40 seconds later, allowed %q", ka, m[ka], m2[ka], s.later[m[ka]])
		}
		if m2[kb] != "v1:b1" {
			x.Failf("later", "%s is %q 40 seconds later", kb, m2[kb])
		}
	}
}

// generated: all combinations of what is there before and of the operations of two or three threads on one key;
// the oracle runs the writes in all sequential orders.
func generated(n int, bound, thor int) []scenario {
	type state struct {
		val string
		ttl uint64
	}
	type before struct {
		name string
		prep []act
		wait int
		st   state
	}
	type op struct {
		name string
		a    act
		w    func(s state) state
	}
	set := func(v string, t uint64) func(state) state { return func(state) state { return state{v, t} } }
	befores := []before{
		{"none", nil, 0, state{}},
		{"kept", []act{ins(a1, 0)}, 0, state{"v1:a1", 0}},
		{"live", []act{ins(a1, 30)}, 1, state{"v1:a1", 30}},
		{"expired", []act{ins(a1, 5)}, 6, state{}},
	}
	ops := []op{
		{"insert", ins(a2, 0), set("v1:a2", 0)},
		{"insert-ttl", ins(a3, 30), set("v1:a3", 30)},
		{"insert-same", ins(a1, 0), set("v1:a1", 0)},
		{"delete", del(a1), set("", 0)},
		{"search", search, nil},
		{"stream", stream, nil},
		{"refresh", refresh, nil},
	}
	var l []scenario
	var rec func(from int, th []op)
	add := func(b before, th []op) {
		s := scenario{prep: append([]act{ins(b1, 0)}, b.prep...), wait: b.wait, bound: bound, thor: thor, later: map[string][]string{}}
		s.name = "all-" + b.name
		seen := map[string]bool{b.st.val: true}
		var w []op
		for _, o := range th {
			s.name += "-" + o.name
			s.threads = append(s.threads, o.a)
			if o.w != nil {
				w = append(w, o)
				seen[o.w(state{}).val] = true
			}
		}
		if len(w) == 0 {
			return
		}
		s.only = len(th) == 3 && (len(w) == 3 || th[0].name == th[1].name || th[1].name == th[2].name || has([]string{th[0].name, th[1].name, th[2].name}, "stream"))
		final := map[string]bool{}
		var perm func(st state, used int)
		perm = func(st state, used int) {
			if used == 1<<len(w)-1 {
				final[st.val] = true
				v := st.val
				if st.ttl != 0 {
					v = ""
				}
				s.later[st.val] = append(s.later[st.val], v)
			}
			for i, o := range w {
				if used&(1<<i) == 0 {
					perm(o.w(st), used|1<<i)
				}
			}
		}
		perm(b.st, 0)
		s.final = map[string][]string{ka: nil, kb: {"v1:b1"}}
		s.seen = map[string][]string{ka: nil, kb: {"v1:b1"}}
		for v := range final {
			s.final[ka] = append(s.final[ka], v)
		}
		for v := range seen {
			s.seen[ka] = append(s.seen[ka], v)
		}
		l = append(l, s)
	}
	rec = func(from int, th []op) {
		if len(th) == n {
			for _, b := range befores {
				add(b, th)
			}
			return
		}
		for i := from; i < len(ops); i++ {
			rec(i, append(append([]op(nil), th...), ops[i]))
		}
	}
	rec(0, nil)
	return l
}

var ka, kb, kc = lib.KeyOf(a1()), lib.KeyOf(b1()), lib.KeyOf(c1())

func TestCheck(t *testing.T) {
	only := func(v ...string) []string { return v }
	scs := []scenario{
		{name: "reinsert-vs-search-sweep", prep: []act{ins(a1, 5), ins(b1, 0)}, wait: 6, threads: []act{ins(a2, 0), search},
			final: map[string][]string{ka: only("v1:a2"), kb: only("v1:b1")}, seen: map[string][]string{ka: only("", "v1:a2"), kb: only("v1:b1")}, bound: 2, thor: 3},
		{name: "same-value-reinsert-vs-sweep", prep: []act{ins(a1, 5), ins(b1, 0)}, wait: 6, threads: []act{ins(a1, 30), stream},
			final: map[string][]string{ka: only("v1:a1"), kb: only("v1:b1")}, seen: map[string][]string{ka: only("", "v1:a1"), kb: only("v1:b1")}, bound: 2, thor: 3},
		{name: "reinsert-vs-refresh-sweep", prep: []act{ins(a1, 5), ins(b1, 0)}, wait: 6, threads: []act{ins(a2, 0), refresh},
			final: map[string][]string{ka: only("v1:a2"), kb: only("v1:b1")}, bound: 2, thor: 3},
		{name: "reinsert-vs-two-sweeps", prep: []act{ins(a1, 5), ins(b1, 0)}, wait: 6, threads: []act{search, ins(a2, 0), stream},
			final: map[string][]string{ka: only("v1:a2"), kb: only("v1:b1")}, bound: 1, thor: 2},
		{name: "two-inserts-one-key", prep: []act{ins(a1, 0)}, threads: []act{ins(a2, 0), ins(a3, 0)},
			final: map[string][]string{ka: only("v1:a2", "v1:a3")}, bound: 2, thor: 3},
		{name: "two-inserts-one-key-and-search", prep: []act{ins(a1, 0)}, threads: []act{ins(a2, 0), ins(a3, 0), search},
			final: map[string][]string{ka: only("v1:a2", "v1:a3")}, seen: map[string][]string{ka: only("v1:a1", "v1:a2", "v1:a3")}, bound: 1, thor: 2},
		{name: "update-vs-search", prep: []act{ins(a1, 0), ins(b1, 0)}, threads: []act{ins(a2, 0), search},
			final: map[string][]string{ka: only("v1:a2"), kb: only("v1:b1")}, seen: map[string][]string{ka: only("v1:a1", "v1:a2"), kb: only("v1:b1")}, bound: 2, thor: 3},
		{name: "insert-vs-delete", prep: []act{ins(a1, 0), ins(b1, 0)}, threads: []act{ins(a2, 0), del(a1)},
			final: map[string][]string{ka: only("", "v1:a2"), kb: only("v1:b1")}, bound: 2, thor: 3},
		{name: "insert-vs-delete-of-live", prep: []act{ins(a1, 30), ins(b1, 0)}, threads: []act{ins(a2, 0), del(a1)},
			final: map[string][]string{ka: only("", "v1:a2"), kb: only("v1:b1")}, bound: 2, thor: 3},
		{name: "different-keys", threads: []act{ins(a1, 0), ins(b1, 0), ins(c1, 0)},
			final: map[string][]string{ka: only("v1:a1"), kb: only("v1:b1"), kc: only("v1:c1")}, bound: 1, thor: 2},
		{name: "insert-vs-refresh", prep: []act{ins(b1, 0)}, threads: []act{ins(a1, 0), refresh, refresh},
			final: map[string][]string{ka: only("v1:a1"), kb: only("v1:b1")}, bound: 1, thor: 2},
		{name: "delete-vs-refresh-vs-search", prep: []act{ins(a1, 0), ins(b1, 0)}, threads: []act{del(a1), refresh, search},
			final: map[string][]string{ka: only(""), kb: only("v1:b1")}, seen: map[string][]string{ka: only("", "v1:a1"), kb: only("v1:b1")}, bound: 1, thor: 2},
	}
	scs = append(scs, generated(2, 1, 3)...)
	scs = append(scs, generated(3, 1, 2)...)
	var fams []kit.Family
	for _, s := range scs {
		share := 4.0
		if s.later != nil {
			share = 1
		}
		fams = append(fams, kit.Family{Name: s.name, Bound: s.bound, BoundThorough: s.thor, Sched: s.sched, OnlyThorough: s.only, Share: share, EndDeadlock: "stuck"})
	}
	kit.Run(t, fams...)
}

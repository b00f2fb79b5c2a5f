//go:build go1.22

// C08: the query cache.
package c08

import (
	"fmt"
	"testing"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"google.golang.org/protobuf/proto"
)

func mk(a, b float32, group, label string) *pb.Datum { return lib.D(a, b, group, label) }

type query struct {
	name string
	d    *pb.Datum
	c    *pb.SearchConfig
}

// base and variants which each differ from it in one respect.
func queries(cache uint64) []query {
	c := func(f func(c *pb.SearchConfig)) *pb.SearchConfig {
		x := &pb.SearchConfig{DataName: "d", ScoreFuncName: "VectorDistance", Limit: 5, Timeout: 1000, CacheDuration: cache, Uuid: "u1"}
		if f != nil {
			f(x)
		}
		return x
	}
	q := mk(1, 1, "", "")
	key := func(f func(k *pb.DatumKey)) *pb.Datum {
		d := mk(1, 1, "", "")
		f(d.Key)
		return d
	}
	return []query{
		{"base", q, c(nil)},
		{"other uuid", q, c(func(c *pb.SearchConfig) { c.Uuid = "u2" })},
		{"other feature", mk(1, 2, "", ""), c(nil)},
		{"feature swapped", mk(2, 1, "", ""), c(nil)},
		{"other group label", mk(1, 1, "g", ""), c(nil)},
		{"other size1", key(func(k *pb.DatumKey) { k.Size1 = 77 }), c(nil)},
		{"other size2", key(func(k *pb.DatumKey) { k.Size2 = 77 }), c(nil)},
		{"other dim1", key(func(k *pb.DatumKey) { k.Dim1 = 77 }), c(nil)},
		{"other dim2", key(func(k *pb.DatumKey) { k.Dim2 = 77 }), c(nil)},
		{"longer feature", key(func(k *pb.DatumKey) { k.Feature = append(k.Feature, 0) }), c(nil)},
		{"long feature", key(func(k *pb.DatumKey) { k.Feature = append([]float32{1, 1}, make([]float32, 300)...) }), c(nil)},
		{"long feature, other end", key(func(k *pb.DatumKey) { k.Feature = append(append([]float32{1, 1}, make([]float32, 299)...), 1) }), c(nil)},
		{"long feature, other middle", key(func(k *pb.DatumKey) {
			k.Feature = append([]float32{1, 1}, make([]float32, 300)...)
			k.Feature[20] = 1
		}), c(nil)},
		{"long group label", key(func(k *pb.DatumKey) { k.GroupLabel = make([]byte, 300) }), c(nil)},
		{"long group label, other end", key(func(k *pb.DatumKey) { k.GroupLabel = append(make([]byte, 299), 1) }), c(nil)},
		{"other data name", q, c(func(c *pb.SearchConfig) { c.DataName = "e" })},
		{"group limit", q, c(func(c *pb.SearchConfig) { c.GroupLimit = 1 })},
		{"group score", q, c(func(c *pb.SearchConfig) { c.GroupScoreFuncName = "x" })},
		{"other timeout", q, c(func(c *pb.SearchConfig) { c.Timeout = 1001 })},
		{"other timestamp", q, c(func(c *pb.SearchConfig) { c.Timestamp = 9 })},
		{"filters a b", q, c(func(c *pb.SearchConfig) { c.Filters = []string{"a", "b"} })},
		{"filter a, group filter b", q, c(func(c *pb.SearchConfig) { c.Filters = []string{"a"}; c.GroupFilters = []string{"b"} })},
		{"limit 1", q, c(func(c *pb.SearchConfig) { c.Limit = 1 })},
		{"higher", q, c(func(c *pb.SearchConfig) { c.HigherIsBetter = true })},
		{"cosine", q, c(func(c *pb.SearchConfig) { c.ScoreFuncName = "CosineSimilarity" })},
		{"filter a", q, c(func(c *pb.SearchConfig) { c.Filters = []string{"a"} })},
		{"filter b", q, c(func(c *pb.SearchConfig) { c.Filters = []string{"b"} })},
		{"group filter a", q, c(func(c *pb.SearchConfig) { c.GroupFilters = []string{"a"} })},
		{"result limit 1", q, c(func(c *pb.SearchConfig) { c.ResultLimit = 1 })},
		{"longer cache", q, c(func(c *pb.SearchConfig) { c.CacheDuration++ })},
		{"shorter cache", q, c(func(c *pb.SearchConfig) { c.CacheDuration -= c.CacheDuration / 2 })},
		{"no cache", q, c(func(c *pb.SearchConfig) { c.CacheDuration = 0 })},
	}
}

// same reports whether two queries may share a cached answer.
func same(a, b query) bool {
	ca, cb := proto.Clone(a.c).(*pb.SearchConfig), proto.Clone(b.c).(*pb.SearchConfig)
	ca.Uuid, cb.Uuid = "", ""
	return proto.Equal(ca, cb) && proto.Equal(a.d.Key, b.d.Key) && a.c.CacheDuration > 0
}

func initial() []*pb.Datum {
	return []*pb.Datum{mk(1, 0, `{"a":1}`, `{"a":1}`), mk(5, 5, `{"b":1}`, `{"b":1}`)}
}
func extra() []*pb.Datum {
	return []*pb.Datum{mk(1, 1, `{"a":1}`, `{"a":1,"b":1}`), mk(9, 9, `{"b":1}`, `{"b":2}`), mk(2, 1, `{"a":2}`, `{"a":2,"b":1}`)}
}

func ask(x *kit.X, dt *data.Data, q query) []*pb.ScoredDatum {
	r, err := dt.MultiAggregatedSearch([]*pb.Datum{lib.Clone(q.d)}, proto.Clone(q.c).(*pb.SearchConfig), nil)
	x.Step(1)
	if err != nil {
		x.Failf("error", "%v", err)
	}
	// what a caller does with its answer is its own business
	out := make([]*pb.ScoredDatum, len(r))
	for i, e := range r {
		out[i] = &pb.ScoredDatum{Score: e.Score, Datum: e.Datum}
	}
	for i := range r {
		r[i].Score = -77
		r[i] = nil
	}
	return out
}

func fresh(x *kit.X, what string, res []*pb.ScoredDatum, ds []*pb.Datum, q query) {
	lim := int(q.c.Limit)
	if q.c.ResultLimit > 0 && int(q.c.ResultLimit) < lim {
		lim = int(q.c.ResultLimit)
	}
	var cand []lib.Scored
	for _, d := range ds {
		if lib.Passes(d, q.c) {
			cand = append(cand, lib.Scored{Key: lib.KeyOf(d), Val: lib.ValOf(d), Score: lib.Score(q.c.ScoreFuncName, d.Key.Feature, q.d.Key.Feature)})
		}
	}
	if q.c.GroupLimit > 0 { // the best of each group
		best := map[string]lib.Scored{}
		for _, d := range ds {
			for _, c := range cand {
				g := string(d.Key.GroupLabel)
				if o, ok := best[g]; c.Key == lib.KeyOf(d) && (!ok || lib.Better(c.Score, o.Score, q.c.HigherIsBetter)) {
					best[g] = c
				}
			}
		}
		cand = nil
		for _, c := range best {
			cand = append(cand, c)
		}
	}
	if sig, msg := lib.TopK(res, cand, lim, q.c.HigherIsBetter); sig != "" {
		x.Failf("stale-"+sig, "%s: query %q must be answered from the current data: %s; results %s", what, q.name, msg, lib.ShowRes(res))
	}
}

func equal(a, b []*pb.ScoredDatum) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !lib.Near(a[i].Score, b[i].Score) {
			return false
		}
	}
	m := map[string]int{}
	for i := range a {
		m[lib.KeyOf(a[i].Datum)]++
		m[lib.KeyOf(b[i].Datum)]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

func setup(x *kit.X, peer bool) (*data.Data, []*pb.Datum, *lib.Peer) {
	dt := lib.New(x, lib.Config("d"))
	ds := initial()
	for _, d := range ds {
		dt.Insert(lib.Clone(d), nil)
	}
	var p *lib.Peer
	if peer {
		p = lib.SetPeer("p", nil, 0)
		dt.AddSource(p)
	}
	return dt, ds, p
}

// genPairs: a first query, a change of the data, a second query within the cache duration, a third after it.
func genPairs(g *kit.G) {
	for _, dur := range []uint64{3, 60, 200} {
		for _, wait := range []time.Duration{0, time.Second} {
			qs := queries(dur)
			for _, a := range qs {
				for _, b := range qs {
					for change := 0; change < 3; change++ {
						for _, peer := range []bool{false, true} {
							a, b, change, wait, dur, peer := a, b, change, wait, dur, peer
							g.Case(func() string {
								return fmt.Sprintf("%q (cache %d s), change %d, %v, %q, peer %v", a.name, dur, change, wait, b.name, peer)
							}, func(x *kit.X) {
								dt, ds, p := setup(x, peer)
								defer lib.Stop(dt)
								first := ask(x, dt, a)
								fresh(x, "first", first, ds, a)
								switch change {
								case 1:
									for _, d := range extra() {
										ds = append(ds, d)
										dt.Insert(lib.Clone(d), nil)
									}
								case 2:
									dt.Delete(ds[0])
									ds = ds[1:]
								}
								time.Sleep(wait)
								n := 0
								if p != nil {
									n = p.Searches
								}
								second := ask(x, dt, b)
								if same(a, b) {
									if !equal(first, second) {
										x.Failf("not-cached", "%q then %q within the cache duration: %s, then %s", a.name, b.name, lib.ShowRes(first), lib.ShowRes(second))
									}
									if p != nil && p.Searches != n {
										x.Failf("not-cached", "the cached query was sent to the peer again")
									}
								} else {
									fresh(x, "second", second, ds, b)
									if p != nil && p.Searches != n+1 {
										x.Failf("peer-skipped", "query %q after %q: the peer was asked %d times", b.name, a.name, p.Searches-n)
									}
								}
								x.Out("%s %s", lib.ShowRes(first), lib.ShowRes(second))
								// well after the last use and the longest possible life of the entry
								time.Sleep(time.Duration(2*dur+5) * time.Second)
								fresh(x, "after expiry", ask(x, dt, b), ds, b)
								if b.c.CacheDuration > 0 {
									// and cached again, from this answer
									third := ask(x, dt, b)
									dt.Insert(mk(1, 1.5, `{"a":1,"b":1}`, `{"a":1,"b":1}`), nil)
									if !equal(third, ask(x, dt, b)) {
										x.Failf("not-cached", "%q is not cached again", b.name)
									}
								}
							})
						}
					}
				}
			}
		}
	}
}

// genMulti: searches with several queries; each query of the search is cached for itself.
func genMulti(g *kit.G) {
	qs := []*pb.Datum{mk(1, 1, "", ""), mk(5, 4, "", ""), mk(0, 3, "", "")}
	for m1 := 1; m1 < 8; m1++ {
		for m2 := 1; m2 < 8; m2++ {
			for _, hi := range []bool{false, true} {
				m1, m2, hi := m1, m2, hi
				g.Case(func() string { return fmt.Sprintf("queries %03b then %03b, higher %v", m1, m2, hi) }, func(x *kit.X) {
					dt, ds, _ := setup(x, false)
					defer lib.Stop(dt)
					pick := func(m int) []*pb.Datum {
						var l []*pb.Datum
						for i := range qs {
							if m>>i&1 == 1 {
								l = append(l, lib.Clone(qs[i]))
							}
						}
						return l
					}
					c := &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: hi, Limit: 1, Timeout: 1000, CacheDuration: 100}
					after := append(append([]*pb.Datum(nil), ds...), extra()...)
					r1, _ := dt.MultiAggregatedSearch(pick(m1), proto.Clone(c).(*pb.SearchConfig), nil)
					x.Step(2)
					check := func(what string, r []*pb.ScoredDatum, m int, cached int) {
						var cand []lib.Scored
						for i, q := range qs {
							if m>>i&1 == 0 {
								continue
							}
							set := after
							if cached>>i&1 == 1 {
								set = ds
							}
							// per query only its best datum counts
							best := lib.Rank(set, q.Key.Feature, c)
							cand = append(cand, best...)
						}
						if sig, msg := lib.TopK(r, cand, 1, hi); sig != "" {
							x.Failf("multi-"+sig, "%s: %s; results %s", what, msg, lib.ShowRes(r))
						}
					}
					check("first", r1, m1, 7)
					for _, d := range extra() {
						dt.Insert(lib.Clone(d), nil)
					}
					r2, _ := dt.MultiAggregatedSearch(pick(m2), proto.Clone(c).(*pb.SearchConfig), nil)
					check("second", r2, m2, m1)
					x.Out("%s %s", lib.ShowRes(r1), lib.ShowRes(r2))
				})
			}
		}
	}
}

// genHits: the life of an answer is counted from its search; hits in between do not stretch it.
func genHits(g *kit.G) {
	for _, dur := range []uint64{1, 4, 40, 400} {
		for mask := 0; mask < 16; mask++ {
			for _, peer := range []bool{false, true} {
				dur, mask, peer := dur, mask, peer
				g.Case(func() string {
					return fmt.Sprintf("cache %d s, hits %04b in the fifths of its life, peer %v", dur, mask, peer)
				}, func(x *kit.X) {
					dt, ds, p := setup(x, peer)
					defer lib.Stop(dt)
					q := queries(dur)[0]
					start := time.Now()
					first := ask(x, dt, q)
					fresh(x, "first", first, ds, q)
					for _, d := range extra() {
						ds = append(ds, d)
						dt.Insert(lib.Clone(d), nil)
					}
					life := time.Duration(dur) * time.Second
					for i := 0; i < 4; i++ {
						time.Sleep(time.Until(start.Add(life / 5 * time.Duration(i+1))))
						if mask>>i&1 == 1 {
							if r := ask(x, dt, q); !equal(first, r) {
								x.Failf("not-cached", "%d fifths of the cache duration: %s, then %s", i+1, lib.ShowRes(first), lib.ShowRes(r))
							}
						}
					}
					time.Sleep(time.Until(start.Add(life + life/20 + 2*time.Millisecond)))
					n := 0
					if p != nil {
						n = p.Searches
					}
					r := ask(x, dt, q)
					fresh(x, "after the cache duration", r, ds, q)
					if p != nil && p.Searches != n+1 {
						x.Failf("peer-skipped", "after the cache duration the peer was asked %d times", p.Searches-n)
					}
					x.Out("%s", lib.ShowRes(r))
				})
			}
		}
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "pairs", Gen: genPairs},
		kit.Family{Name: "several-queries", Gen: genMulti},
		kit.Family{Name: "hits", Gen: genHits},
	)
}

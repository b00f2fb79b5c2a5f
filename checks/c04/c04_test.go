//go:build go1.22

// C04: an exact search returns the best matching data.
package c04

import (
	"fmt"
	"math"
	"sync"
	"testing"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
)

func v(f ...float32) []float32 { return f }

func mk(f []float32, group, label string) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: f, GroupLabel: []byte(group), Size1: 1, Dim1: uint32(len(f))}, Value: &pb.DatumValue{Version: 1, Label: []byte(label)}}
}

// pool: same directions, opposite directions, zero, ties, other dimensions, JSON and non-JSON labels.
var pool = []func() *pb.Datum{
	func() *pb.Datum { return mk(v(1, 0), `{"g":1}`, `{"a":1}`) },
	func() *pb.Datum { return mk(v(2, 0), `{"g":2}`, `{"a":1,"b":{"c":2}}`) },
	func() *pb.Datum { return mk(v(0, 3), `plain`, `{"b":{"c":null}}`) },
	func() *pb.Datum { return mk(v(-1, -1), `{"g":1,"h":0}`, `text`) },
	func() *pb.Datum { return mk(v(0, 0), ``, ``) },
	func() *pb.Datum { return mk(v(1, 0), `{"h":1}`, `{"a":false}`) }, // the feature of the first, another group
	func() *pb.Datum { return mk(v(5, 5, 1), `{"g":1}`, `{"a":1}`) },
	func() *pb.Datum { return mk(v(-4), `{"g":{"x":1}}`, `{"b":1}`) },
}

var queries = [][]float32{v(1, 0), v(1, 2), v(-3, 1), v(0, 0), v(1, 1, 1), v(2)}
var funcs = []string{"VectorDistance", "VectorMultiplication", "CosineSimilarity", "QuickVectorDistance", "AngularDistance", "", "NoSuchFunction"}

func subsets(max int) [][]int {
	var out [][]int
	for m := 0; m < 1<<len(pool); m++ {
		var s []int
		for i := range pool {
			if m>>i&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) <= max || len(s) == len(pool) {
			out = append(out, s)
		}
	}
	return out
}

type flt struct{ f, g []string }

var filters = []flt{{}, {f: []string{"a"}}, {f: []string{"b.c"}}, {g: []string{"g"}}, {f: []string{"a"}, g: []string{"g"}}, {f: []string{"a", "b"}}, {g: []string{"h", "g"}}, {f: []string{"zzz"}}}

func search(dt *data.Data, q []float32, c *pb.SearchConfig, how int) []*pb.ScoredDatum {
	d := mk(q, "", "")
	switch how {
	case 0:
		r, _ := dt.MultiAggregatedSearch([]*pb.Datum{d}, c, nil)
		return r
	case 1:
		return dt.Search(d, c, nil).List
	default:
		ch := make(chan *pb.ScoredDatum, 1000)
		var wg sync.WaitGroup
		wg.Add(1)
		dt.StreamSearch(d, ch, &wg, c)
		wg.Wait()
		close(ch)
		var l []*pb.ScoredDatum
		for r := range ch {
			l = append(l, r)
		}
		return l
	}
}

func one(x *kit.X, dt *data.Data, ds []*pb.Datum, q []float32, c *pb.SearchConfig, how int) {
	var cand []lib.Scored
	for _, d := range ds {
		if lib.Passes(d, c) {
			cand = append(cand, lib.Scored{Key: lib.KeyOf(d), Val: lib.ValOf(d), Score: lib.Score(c.ScoreFuncName, d.Key.Feature, q)})
		}
	}
	res := search(dt, q, c, how)
	x.Step(1)
	if sig, msg := lib.TopK(res, cand, int(c.Limit), c.HigherIsBetter); sig != "" {
		x.Failf(sig, "query %v, %s, higher=%v, limit %d, filters %v group filters %v, way %d: %s; results %s, candidates %v", q, c.ScoreFuncName, c.HigherIsBetter, c.Limit, c.Filters, c.GroupFilters, how, msg, lib.ShowRes(res), cand)
	}
	x.Out("%s", lib.ShowRes(res))
}

func load(x *kit.X, s []int) (*data.Data, []*pb.Datum) {
	dt := lib.New(x, lib.Config("d"))
	var ds []*pb.Datum
	for _, i := range s {
		d := pool[i]()
		ds = append(ds, d)
		if err := dt.Insert(lib.Clone(d), nil); err != nil {
			x.Failf("insert", "%v", err)
		}
	}
	return dt, ds
}

// genScores: every dataset, query, score function, direction and limit.
func genScores(g *kit.G) {
	max := 3
	if g.Thorough() {
		max = 8
	}
	for _, s := range subsets(max) {
		s := s
		g.Case(func() string { return fmt.Sprintf("data %v", s) }, func(x *kit.X) {
			dt, ds := load(x, s)
			defer lib.Stop(dt)
			for _, q := range queries {
				for _, f := range funcs {
					for _, hi := range []bool{true, false} {
						for _, lim := range []uint32{0, 1, 2, 3, 20} {
							for how := 0; how < 3; how++ {
								one(x, dt, ds, q, &pb.SearchConfig{ScoreFuncName: f, HigherIsBetter: hi, Limit: lim, Timeout: 1000}, how)
							}
						}
					}
				}
			}
		})
	}
}

// genFilters: every dataset, filter combination and limit.
func genFilters(g *kit.G) {
	max := 4
	if g.Thorough() {
		max = 8
	}
	for _, s := range subsets(max) {
		s := s
		g.Case(func() string { return fmt.Sprintf("data %v", s) }, func(x *kit.X) {
			dt, ds := load(x, s)
			defer lib.Stop(dt)
			for _, fl := range filters {
				for _, hi := range []bool{true, false} {
					for _, lim := range []uint32{1, 2, 20} {
						for how := 0; how < 2; how++ {
							one(x, dt, ds, v(1, 2), &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: hi, Limit: lim, Timeout: 1000, Filters: fl.f, GroupFilters: fl.g}, how)
						}
					}
				}
			}
		})
	}
}

// genMany: all insertion orders of data with pairwise different scores into a small top-k.
func genMany(g *kit.G) {
	n := 6
	if g.Thorough() {
		n = 7
	}
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			p := append([]int(nil), perm...)
			g.Case(func() string { return fmt.Sprintf("scores %v", p) }, func(x *kit.X) {
				dt := lib.New(x, lib.Config("d"))
				defer lib.Stop(dt)
				var ds []*pb.Datum
				for i, s := range p {
					d := mk(v(float32(s+1), 0), fmt.Sprint(i), "l")
					ds = append(ds, d)
					dt.Insert(lib.Clone(d), nil)
				}
				for _, hi := range []bool{true, false} {
					for lim := uint32(1); lim <= uint32(n); lim++ {
						one(x, dt, ds, v(0, 0), &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: hi, Limit: lim, Timeout: 1000}, int(lim)%2)
					}
				}
			})
			return
		}
		for i := k; i < n; i++ {
			perm[k], perm[i] = perm[i], perm[k]
			rec(k + 1)
			perm[k], perm[i] = perm[i], perm[k]
		}
	}
	rec(0)
}

// special values: fractions, large and tiny numbers, parallel vectors whose cosine rounds beyond one,
// long vectors, null and nested labels.
func long(n int, f func(i int) float32) []float32 {
	l := make([]float32, n)
	for i := range l {
		l[i] = f(i)
	}
	return l
}

var special = []func() *pb.Datum{
	func() *pb.Datum { return mk(v(0.25, 0.5), `{"g":null}`, `{"a":null}`) },
	func() *pb.Datum { return mk(v(0.3, 0.1), `{"g":false}`, `{"a":{"b":null}}`) },
	func() *pb.Datum { return mk(v(1e-3, 1e-3), `{"g":0}`, `{"a":{"b":{}}}`) },
	func() *pb.Datum { return mk(v(1e6, -1e6), `{"g":""}`, `{"a":[]}`) },
	func() *pb.Datum { return mk(v(3e17, 2e17, 1e18), `{"g":1}`, `{"a":1}`) },
	func() *pb.Datum { return mk(v(3e17, -2e17), `{"g":1}`, `{"a":2}`) },
	func() *pb.Datum {
		return mk(long(64, func(i int) float32 { return float32(i%5) - 1.5 }), `{"h":1}`, `{"a b":1}`)
	},
	func() *pb.Datum {
		return mk(long(65, func(i int) float32 { return float32(i/64) * 9 }), `{"h":1}`, `{"b":1}`)
	},
	func() *pb.Datum { return mk(v(1e-6, -2e-6), `{"G":1}`, `{"A":{"b":1}}`) },
	func() *pb.Datum { return mk(v(3e-8, 4e-8), ` {"g":1} `, `{"A.b":1}`) },
	func() *pb.Datum { return mk(long(300, func(i int) float32 { return float32(i/200) * 2 }), `x`, `{`) },
}

func specialQueries() [][]float32 {
	qs := [][]float32{v(0.5, 0.75), v(-0.5, 0), v(1e5, 1), long(64, func(i int) float32 { return 1 }), long(65, func(i int) float32 { return float32(i%3) - 1 }), long(300, func(i int) float32 { return float32(i/200) - 0.5 })}
	for _, s := range special { // parallel and opposite
		f := s().Key.Feature
		p, o := make([]float32, len(f)), make([]float32, len(f))
		for i := range f {
			p[i], o[i] = f[i]*3, f[i]*-7
		}
		qs = append(qs, p, o)
	}
	return append(qs, beyond()...)
}

// beyond: vectors with themselves as query, whose cosine is a little more than one in single precision.
func beyond() [][]float32 {
	var out [][]float32
	for a := 1; a < 60 && len(out) < 4; a++ {
		for b := 1; b < 60 && len(out) < 4; b++ {
			x, y := float32(a)/7, float32(b)/11
			s := x*x + y*y
			r := float32(math.Sqrt(float64(s)))
			if s/(r*r) > 1 {
				out = append(out, v(x, y))
			}
		}
	}
	return out
}

func genSpecial(g *kit.G) {
	ps := append([]func() *pb.Datum(nil), special...)
	for _, b := range beyond() {
		b := b
		ps = append(ps, func() *pb.Datum { return mk(b, `{"g":1}`, `{"a":1}`) }, func() *pb.Datum { return mk(v(-b[0], -b[1]), `{"g":1}`, `{"a":1}`) })
	}
	var sets [][]int
	for i := range ps {
		sets = append(sets, []int{i})
		for j := 0; j < i; j++ {
			sets = append(sets, []int{i, j})
		}
	}
	all := []int{}
	for i := range ps {
		all = append(all, i)
	}
	sets = append(sets, all)
	fl := []flt{{}, {f: []string{"a"}}, {f: []string{"a.b"}}, {g: []string{"g"}}, {f: []string{"a"}, g: []string{"g"}}, {f: []string{"a b"}}, {f: []string{"A"}}, {f: []string{"A.b"}}, {g: []string{"G"}}}
	for _, s := range sets {
		s := s
		g.Case(func() string { return fmt.Sprintf("special data %v", s) }, func(x *kit.X) {
			dt := lib.New(x, lib.Config("d"))
			defer lib.Stop(dt)
			var ds []*pb.Datum
			for _, i := range s {
				d := ps[i]()
				ds = append(ds, d)
				dt.Insert(lib.Clone(d), nil)
			}
			for _, q := range specialQueries() {
				for _, f := range funcs[:5] {
					for _, hi := range []bool{true, false} {
						for _, lim := range []uint32{1, 20} {
							one(x, dt, ds, q, &pb.SearchConfig{ScoreFuncName: f, HigherIsBetter: hi, Limit: lim, Timeout: 1000}, int(lim)%2)
						}
					}
				}
			}
			for _, f := range fl {
				one(x, dt, ds, v(1, 2), &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 20, Timeout: 1000, Filters: f.f, GroupFilters: f.g}, 0)
			}
		})
	}
}

// genFine: scores that differ little, or are small, are told apart.
func genFine(g *kit.G) {
	for _, unit := range []float32{1, 1.0 / (1 << 10), 1.0 / (1 << 20), 1.0 / (1 << 30), 1.0 / (1 << 40), 1 << 10, 1 << 20} {
		for _, n := range []int{2, 3, 5} {
			for _, lim := range []uint32{1, 2, 5} {
				for _, hi := range []bool{true, false} {
					unit, n, lim, hi := unit, n, lim, hi
					g.Case(func() string {
						return fmt.Sprintf("%d data, distances of multiples of %g, limit %d, higher=%v", n, unit, lim, hi)
					}, func(x *kit.X) {
						for order := 0; order < n; order++ {
							dt := lib.New(x, lib.Config("d"))
							var ds []*pb.Datum
							for i := 0; i < n; i++ {
								d := mk(v(float32((i+order)%n+1)*unit, 0), fmt.Sprint(i), "l")
								ds = append(ds, d)
								dt.Insert(lib.Clone(d), nil)
							}
							for _, f := range []string{"VectorDistance", "QuickVectorDistance", "VectorMultiplication"} {
								q := v(0, unit*0)
								if f == "VectorMultiplication" {
									q = v(2, 3)
								}
								var cand []lib.Scored
								for _, d := range ds {
									cand = append(cand, lib.Scored{Key: lib.KeyOf(d), Val: lib.ValOf(d), Score: lib.Score(f, d.Key.Feature, q)})
								}
								for how := 0; how < 2; how++ {
									c := &pb.SearchConfig{ScoreFuncName: f, HigherIsBetter: hi, Limit: lim, Timeout: 1000}
									res := search(dt, q, c, how)
									x.Step(1)
									if sig, msg := lib.TopKFine(res, cand, int(lim), hi); sig != "" {
										x.Failf(sig, "%s, way %d: %s; results %s", f, how, msg, lib.ShowRes(res))
									}
									x.Out("%s", lib.ShowRes(res))
								}
							}
							lib.Kill(dt)
						}
						lib.Stop()
					})
				}
			}
		}
	}
}

// genLarge: more data than any fixed size, and limits around its number.
func genLarge(g *kit.G) {
	for _, n := range []int{99, 101, 255, 257, 999, 1001, 1100} {
		for _, lim := range []uint32{10, 100, 101, 255, 257, 999, 1000, 1001, 1099, 1 << 16, 1<<32 - 1} {
			for _, hi := range []bool{true, false} {
				n, lim, hi := n, lim, hi
				g.Case(func() string { return fmt.Sprintf("%d data, limit %d, higher=%v", n, lim, hi) }, func(x *kit.X) {
					c := lib.Config("d")
					c.NoTarget = true
					dt := lib.New(x, c)
					defer lib.Stop(dt)
					var ds []*pb.Datum
					for i := 0; i < n; i++ {
						d := mk(v(float32(i*7%n), 1), fmt.Sprint(i), "l")
						ds = append(ds, d)
						dt.Insert(lib.Clone(d), nil)
					}
					one(x, dt, ds, v(-1, 1), &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: hi, Limit: lim, Timeout: 1000}, n%2)
				})
			}
		}
	}
}

// genTimeouts: the timeout makes no difference to a search that needs no time.
func genTimeouts(g *kit.G) {
	for _, s := range subsets(2) {
		s := s
		g.Case(func() string { return fmt.Sprintf("timeouts, data %v", s) }, func(x *kit.X) {
			dt, ds := load(x, s)
			defer lib.Stop(dt)
			for _, t := range []uint64{50, 1000, 1 << 31, 1 << 32, 1 << 53, math.MaxInt64 / 1000000, math.MaxInt64/1000000 + 1, math.MaxInt64, 1 << 63, math.MaxUint64 - 1000, math.MaxUint64} {
				for _, f := range funcs[:3] {
					for how := 0; how < 3; how++ {
						one(x, dt, ds, v(1, 2), &pb.SearchConfig{ScoreFuncName: f, Limit: 20, Timeout: t}, how)
					}
				}
			}
		})
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "scores-and-limits", Gen: genScores, Share: 2},
		kit.Family{Name: "filters", Gen: genFilters},
		kit.Family{Name: "arrival-orders", Gen: genMany},
		kit.Family{Name: "fine-scores", Gen: genFine},
		kit.Family{Name: "large", Gen: genLarge},
		kit.Family{Name: "timeouts", Gen: genTimeouts},
		kit.Family{Name: "special-values", Gen: genSpecial},
	)
}

//go:build go1.22

// C27: the native index (this unit is built with the native library, not with the stand-in).
package c27

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
)

func dat(f []float32, label string) *pb.Datum {
	d := lib.D(0, 0, `{"g":1}`, label)
	d.Key.Feature = f
	return d
}

// angle is the distance the index orders by (the square of it), for a vector padded or cut to the dimension.
func angle(a, b []float32, dim int) float64 {
	var pp, qq, pq float64
	for i := 0; i < dim; i++ {
		var x, y float64
		if i < len(a) {
			x = float64(a[i])
		}
		if i < len(b) {
			y = float64(b[i])
		}
		pp += x * x
		qq += y * y
		pq += x * y
	}
	if pp*qq > 0 {
		return 2 - 2*pq/math.Sqrt(pp*qq)
	}
	return 2
}

func search(dt *data.Data, q []float32, c *pb.SearchConfig) []*pb.ScoredDatum {
	ch := make(chan *pb.ScoredDatum, 1000)
	var wg sync.WaitGroup
	wg.Add(1)
	dt.StreamSearch(dat(q, ""), ch, &wg, c)
	close(ch)
	var l []*pb.ScoredDatum
	for r := range ch {
		l = append(l, r)
	}
	return l
}

func conf(name string, limit uint32, filters ...string) *pb.SearchConfig {
	c := data.DefaultSearchConfig()
	c.ScoreFuncName = name
	c.Limit = limit
	c.HigherIsBetter = strings.Contains(name, "Similarity") || strings.Contains(name, "Angular")
	c.Filters = filters
	return c
}

var funcs = []string{"AnnoyVectorDistance", "AnnoyCosineSimilarity", "AnnoyAngularDistance"}

// judge compares a result with the data of the last build; exact when the index is one leaf.
func judge(x *kit.X, what string, built []*pb.Datum, dim int, q []float32, c *pb.SearchConfig, exact bool) {
	res := search(dt(x), q, c)
	x.Step(1)
	if len(res) > int(c.Limit) {
		x.Failf("limit", "%s: %d results, limit %d", what, len(res), c.Limit)
		return
	}
	vals := map[string]string{}
	var want []float64
	for _, d := range built {
		if lib.Passes(d, c) {
			vals[lib.KeyOf(d)] = lib.ValOf(d)
			want = append(want, angle(q, d.Key.Feature, dim))
		}
	}
	sort.Float64s(want)
	seen := map[string]bool{}
	var got []float64
	for _, r := range res {
		k := lib.KeyOf(r.Datum)
		if seen[k] {
			x.Failf("duplicate", "%s: %s twice", what, k)
			return
		}
		seen[k] = true
		if v, ok := vals[k]; !ok || v != lib.ValOf(r.Datum) {
			x.Failf("ghost", "%s: %s=%s was not in the data (or does not pass the filter)", what, k, lib.ValOf(r.Datum))
			return
		}
		if w := lib.Score(c.ScoreFuncName, q, r.Datum.Key.Feature); !lib.Near(w, r.Score) {
			x.Failf("score", "%s: %s has score %v, expected %v", what, k, r.Score, w)
			return
		}
		got = append(got, angle(q, r.Datum.Key.Feature, dim))
	}
	if !exact {
		if len(res) == 0 && len(vals) == len(built) && len(built) > 0 && c.Limit > 0 {
			x.Failf("missing", "%s: no result", what)
		}
		x.Out("%d", len(res))
		return
	}
	if len(want) > int(c.Limit) {
		want = want[:c.Limit]
	}
	if len(got) != len(want) {
		x.Failf("missing", "%s: %d results, expected %d", what, len(got), len(want))
		return
	}
	sort.Float64s(got)
	for i := range got {
		if math.Abs(got[i]-want[i]) > 1e-3 {
			x.Failf("nearest", "%s: the results are at angles %v, the nearest are at %v", what, got, want)
			return
		}
	}
	x.Out("%d", len(res))
}

var current *data.Data

func dt(*kit.X) *data.Data { return current }

func vectors(dim int) [][]float32 {
	switch dim {
	case 1:
		return [][]float32{{1}, {-1}, {0}, {2.5}, {-0.001}}
	case 2:
		return [][]float32{{1, 0}, {0, 1}, {1, 1}, {-1, 0.5}, {0, 0}, {1000, 1}, {2, 2}}
	case 3:
		return [][]float32{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}, {-1, -1, 0}, {0, 0, 0}, {0.5, 0.25, 3}}
	}
	// a fixed sequence without structure
	var l [][]float32
	s := uint32(12345)
	for i := 0; i < 9; i++ {
		v := make([]float32, dim)
		for j := range v {
			s = s*1664525 + 1013904223
			v[j] = float32(s>>16)/32768 - 1
		}
		l = append(l, v)
	}
	return l
}

func queries(dim int) [][]float32 {
	l := vectors(dim)
	q := [][]float32{l[0], l[1], {}, {1}, {0.3, 1, 2, 4}}
	v := make([]float32, dim)
	for i := range v {
		v[i] = 0.7 - 0.4*float32(i)
	}
	return append(q, v)
}

func fresh(x *kit.X) *data.Data {
	current = lib.New(x, lib.Config("d"))
	return current
}

func refresh(d *data.Data) {
	time.Sleep(time.Second)
	d.Process(true)
}

// sweep searches with every query, limit, score and filter.
func sweep(x *kit.X, what string, built []*pb.Datum, dim int, exact bool) {
	for qi, q := range queries(dim) {
		for lim := 0; lim <= len(built)+1; lim++ {
			for fi, f := range funcs {
				if (qi+lim+fi)%2 == 0 && len(built) > 8 {
					continue
				}
				judge(x, fmt.Sprintf("%s, query %v, limit %d, %s", what, q, lim, f), built, dim, q, conf(f, uint32(lim)), exact)
				if x.Failed() {
					return
				}
			}
			// results after a filter: those that pass, of all
			judge(x, fmt.Sprintf("%s, query %v, limit %d, filtered", what, q, lim), built, dim, q, conf(funcs[0], uint32(lim), "a"), exact)
			if x.Failed() {
				return
			}
		}
	}
}

func mk(dim int, idx []int) []*pb.Datum {
	var l []*pb.Datum
	for _, i := range idx {
		label := `{"b":1}`
		if i%2 == 0 {
			label = `{"a":1}`
		}
		l = append(l, dat(vectors(dim)[i], label))
	}
	return l
}

// sameDim: the index takes its dimension from whichever datum comes first; all have the same.
func small(g *kit.G) {
	dims := []int{1, 2, 3}
	if g.Thorough() {
		dims = append(dims, 4, 7)
	}
	for _, dim := range dims {
		n := len(vectors(dim))
		for m := 0; m < 1<<uint(n); m++ {
			var idx []int
			for i := 0; i < n; i++ {
				if m>>uint(i)&1 == 1 {
					idx = append(idx, i)
				}
			}
			dim, idx := dim, idx
			g.Case(func() string { return fmt.Sprintf("dimension %d, data %v", dim, idx) }, func(x *kit.X) {
				d := fresh(x)
				defer lib.Stop(d)
				l := mk(dim, idx)
				for _, e := range l {
					d.Insert(lib.Clone(e), &pb.InsertConfig{Count: 1})
				}
				refresh(d)
				sweep(x, "first build", l, dim, len(l) <= dim+2)
			})
		}
	}
}

// rebuilds: every sequence of changes with a refresh after each (or not); between refreshes the old index answers.
func rebuilds(g *kit.G) {
	depth := 4
	if g.Thorough() {
		depth = 6
	}
	const dim = 2
	ops := []string{"insert 0", "insert 1", "insert 2", "insert 3", "delete 0", "delete 1", "update 2", "refresh"}
	var rec func(s []int)
	rec = func(s []int) {
		if len(s) == depth {
			s := append([]int(nil), s...)
			g.Case(func() string {
				var l []string
				for _, o := range s {
					l = append(l, ops[o])
				}
				return strings.Join(l, ", ")
			}, func(x *kit.X) {
				d := fresh(x)
				defer lib.Stop(d)
				now := map[int]*pb.Datum{}
				list := func() []*pb.Datum {
					var l []*pb.Datum
					for i := 0; i < 4; i++ {
						if now[i] != nil {
							l = append(l, now[i])
						}
					}
					return l
				}
				ver := 0
				for _, o := range append(append([]int(nil), s...), 7) {
					switch {
					case o < 4:
						now[o] = mk(dim, []int{o})[0]
						d.Insert(lib.Clone(now[o]), &pb.InsertConfig{Count: 1})
					case o < 6:
						if now[o-4] != nil {
							d.DeleteBDMap(now[o-4])
							delete(now, o-4)
						}
					case o == 6:
						if now[2] != nil {
							ver++
							now[2] = lib.Clone(now[2])
							now[2].Value.Label = []byte(fmt.Sprintf(`{"a":%d}`, ver))
							d.Insert(lib.Clone(now[2]), &pb.InsertConfig{Count: 1})
						}
					default:
						refresh(d)
						sweep(x, "after a refresh", list(), dim, true)
					}
					if x.Failed() {
						return
					}
				}
			})
			return
		}
		for o := range ops {
			rec(append(s, o))
		}
	}
	rec(nil)
}

// large: more data than one leaf holds.
func large(g *kit.G) {
	top := 60
	if g.Thorough() {
		top = 400
	}
	for _, dim := range []int{1, 2, 3, 5, 16} {
		for n := 1; n <= top; n++ {
			if n > 60 && n%17 != 0 {
				continue
			}
			dim, n := dim, n
			g.Case(func() string { return fmt.Sprintf("dimension %d, %d data", dim, n) }, func(x *kit.X) {
				d := fresh(x)
				defer lib.Stop(d)
				var l []*pb.Datum
				for i := 0; i < n; i++ {
					v := make([]float32, dim)
					for j := range v {
						v[j] = float32((i*(j+3)*7+j*j+i*i)%23) - 11
					}
					if i%10 == 9 { // equal and zero vectors
						v = make([]float32, dim)
					}
					e := dat(v, `{"a":1}`)
					e.Key.Size1 = uint32(i + 1) // keys differ
					l = append(l, e)
					d.Insert(lib.Clone(e), &pb.InsertConfig{Count: 1})
				}
				refresh(d)
				for _, q := range queries(dim) {
					for _, lim := range []uint32{1, 2, 10, uint32(n), uint32(n) + 1, 1000} {
						judge(x, fmt.Sprintf("query %v limit %d", q, lim), l, dim, q, conf(funcs[int(lim)%3], lim), n <= dim+2)
						if x.Failed() {
							return
						}
					}
				}
			})
		}
	}
}

// odd numbers: no crash, results from the data.
func odd(g *kit.G) {
	nan, inf := float32(math.NaN()), float32(math.Inf(1))
	vs := [][]float32{{nan, 1}, {inf, 1}, {inf, -inf}, {math.MaxFloat32, math.MaxFloat32}, {math.SmallestNonzeroFloat32, 0}, {1, 0}, {1}, {1, 2, 3}, {}}
	for m := 1; m < 1<<uint(len(vs)); m++ {
		m := m
		g.Case(func() string { return fmt.Sprintf("odd vectors %b", m) }, func(x *kit.X) {
			d := fresh(x)
			defer lib.Stop(d)
			known := map[string]bool{}
			for i, v := range vs {
				if m>>uint(i)&1 == 1 {
					e := dat(v, "l")
					known[lib.KeyOf(e)] = true
					d.Insert(e, &pb.InsertConfig{Count: 1})
				}
			}
			refresh(d)
			for _, q := range vs {
				for _, lim := range []uint32{1, 3, 20} {
					res := search(d, q, conf(funcs[0], lim))
					x.Step(1)
					seen := map[string]bool{}
					for _, r := range res {
						k := lib.KeyOf(r.Datum)
						if seen[k] || !known[k] {
							x.Failf("ghost", "query %v: %s (twice: %v)", q, k, seen[k])
							return
						}
						seen[k] = true
					}
					x.Out("%d", len(res))
				}
			}
		})
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "small", Gen: small, Share: 2},
		kit.Family{Name: "rebuilds", Gen: rebuilds, Share: 2},
		kit.Family{Name: "large", Gen: large},
		kit.Family{Name: "odd-vectors", Gen: odd},
	)
}

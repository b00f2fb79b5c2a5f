//go:build go1.22

// C13: searches through the approximate index.
package c13

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/annoyindex"
	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/vmc"
)

func dat(f []float32, group, label string) *pb.Datum {
	d := lib.D(0, 0, group, label)
	d.Key.Feature = f
	return d
}

var pool = []*pb.Datum{
	dat([]float32{1, 0}, `{"g":1}`, `{"a":1}`),
	dat([]float32{0, 1}, `{"h":1}`, `{"a":1,"b":2}`),
	dat([]float32{1, 1, 1}, `{"g":1}`, `{"b":2}`), // longer
	dat([]float32{2}, `{"g":1}`, `{"c":1}`),       // shorter
	dat([]float32{}, ``, ``),                      // no features at all
	dat([]float32{-1, 0.5}, `{"g":2,"h":2}`, `x`),
}

var queries = [][]float32{{1, 0.1}, {1}, {0.3, 1, 2}, {}, {0, 0}}

// search uses the index.
func search(dt *data.Data, q []float32, c *pb.SearchConfig) []*pb.ScoredDatum {
	ch := make(chan *pb.ScoredDatum, 1000)
	var wg sync.WaitGroup
	wg.Add(1)
	dt.StreamSearch(dat(q, "", ""), ch, &wg, c)
	close(ch)
	var l []*pb.ScoredDatum
	for r := range ch {
		l = append(l, r)
	}
	return l
}

func sc(name string, limit uint32, filters ...string) *pb.SearchConfig {
	c := data.DefaultSearchConfig()
	c.ScoreFuncName = name
	c.Limit = limit
	c.HigherIsBetter = strings.Contains(name, "Similarity") || strings.Contains(name, "Angular")
	c.Filters = filters
	return c
}

// sg filters on group labels.
func sg(paths ...string) *pb.SearchConfig {
	c := sc("AnnoyVectorDistance", 10, "a")
	c.GroupFilters = paths
	return c
}

// gOnly filters on nothing else.
func gOnly(paths ...string) *pb.SearchConfig {
	c := sc("AnnoyCosineSimilarity", 10)
	c.GroupFilters = paths
	return c
}

// judge: results are data of the index or of the present content, once, filtered, with their exact score.
func judge(x *kit.X, what string, res []*pb.ScoredDatum, q []float32, c *pb.SearchConfig, may map[string]bool) {
	seen := map[string]bool{}
	if len(res) > int(c.Limit) {
		x.Failf("limit", "%s: %d results, limit %d", what, len(res), c.Limit)
	}
	for _, r := range res {
		k := lib.KeyOf(r.Datum)
		if seen[k] {
			x.Failf("duplicate", "%s: %s twice", what, k)
		}
		seen[k] = true
		if !may[k+"="+lib.ValOf(r.Datum)] {
			x.Failf("ghost", "%s: %s=%s is neither stored nor was it when the index was built", what, k, lib.ValOf(r.Datum))
		}
		if !lib.Passes(r.Datum, c) {
			x.Failf("filter", "%s: %s does not pass the filters", what, k)
		}
		if want := lib.Score(c.ScoreFuncName, q, r.Datum.Key.Feature); !lib.Near(want, r.Score) {
			x.Failf("score", "%s: %s has score %v, expected %v", what, k, r.Score, want)
		}
	}
}

func problems(x *kit.X) {
	for _, p := range annoyindex.VerifProblems() {
		x.Failf("unsafe", "%s", p)
	}
}

func files() int {
	l, _ := filepath.Glob(filepath.Join(os.TempDir(), "annoy*"))
	return len(l)
}

const (
	oRefresh = iota
	oExpire
	oDelAll
	oIns // + index
)

func gen(g *kit.G) {
	depth := 4
	if g.Thorough() {
		depth = 5
	}
	ops := []int{oRefresh, oExpire, oDelAll}
	var names = []string{"refresh", "expire the short-lived", "delete all"}
	for i := range pool {
		ops = append(ops, oIns+i)
		names = append(names, fmt.Sprintf("insert %v", pool[i].Key.Feature))
	}
	names = append(names, "delete 0", "update 0", "insert 1 short-lived")
	ops = append(ops, oIns+len(pool), oIns+len(pool)+1, oIns+len(pool)+2)
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) == depth {
			s := append([]int(nil), seq...)
			g.Case(func() string {
				var l []string
				for _, o := range s {
					l = append(l, names[o])
				}
				return strings.Join(l, ", ")
			}, func(x *kit.X) { run(x, s) })
			return
		}
		for _, o := range ops {
			rec(append(seq, o))
		}
	}
	rec(nil)
}

func run(x *kit.X, seq []int) {
	annoyindex.VerifReset()
	f0 := files()
	dt := lib.New(x, lib.Config("d"))
	defer lib.Stop(dt)
	present := map[string]*pb.Datum{}
	short := map[string]time.Time{}
	var snap map[string]*pb.Datum // content when the index was built
	expire := func() {
		for k, t := range short {
			if !time.Now().Before(t) {
				delete(present, k)
				delete(short, k)
			}
		}
	}
	put := func(d *pb.Datum, ttl uint64) {
		dt.Insert(lib.Clone(d), &pb.InsertConfig{TTL: ttl, Count: 1})
		present[lib.KeyOf(d)] = d
		delete(short, lib.KeyOf(d))
		if ttl > 0 {
			short[lib.KeyOf(d)] = time.Now().Add(time.Duration(ttl) * time.Second)
		}
	}
	for _, o := range seq {
		x.Step(1)
		switch {
		case o == oRefresh:
			if err := dt.Process(true); err != nil {
				x.Failf("refresh", "%v", err)
			}
			snap = map[string]*pb.Datum{}
			for k, d := range present {
				snap[k] = d
			}
			if len(snap) == 0 {
				snap = nil
			}
		case o == oExpire:
			time.Sleep(9 * time.Second)
			expire()
		case o == oDelAll:
			for k, d := range present {
				dt.Delete(d)
				delete(present, k)
				delete(short, k)
			}
		case o == oIns+len(pool):
			dt.Delete(pool[0])
			delete(present, lib.KeyOf(pool[0]))
		case o == oIns+len(pool)+1:
			d := lib.Clone(pool[0])
			d.Value.Version = 77
			put(d, 0)
		case o == oIns+len(pool)+2:
			put(pool[1], 8)
		default:
			put(pool[o-oIns], 0)
		}
		may := map[string]bool{}
		for k, d := range present {
			may[k+"="+lib.ValOf(d)] = true
		}
		for k, d := range snap {
			may[k+"="+lib.ValOf(d)] = true
		}
		synctest.Wait()
		for qi, q := range queries {
			for _, c := range []*pb.SearchConfig{sc("AnnoyVectorDistance", 10), sc("AnnoyCosineSimilarity", 2), sc("AnnoyAngularDistance", 10, "a"), sc("AnnoyVectorDistance", 0), sg("g"), sg("g", "h"), sg("h", "g", "none"), gOnly("g"), gOnly("g", "h")} {
				what := fmt.Sprintf("query %v %s limit %d %v %v", q, c.ScoreFuncName, c.Limit, c.Filters, c.GroupFilters)
				res := search(dt, q, c)
				judge(x, what, res, q, c, may)
				if qi == 0 && c.Limit == 10 {
					x.Out("%d", len(res))
					if snap == nil { // no index: exact
						want := 0
						for _, d := range present {
							if lib.Passes(d, c) {
								want++
							}
						}
						if len(res) != want {
							x.Failf("incomplete", "%s: without an index %d of %d are found", what, len(res), want)
						}
					} else { // everything fits: the index finds what it was built from
						for k, d := range snap {
							ok := !lib.Passes(d, c)
							for _, r := range res {
								ok = ok || lib.KeyOf(r.Datum) == k && lib.ValOf(r.Datum) == lib.ValOf(d)
							}
							if !ok {
								x.Failf("incomplete", "%s: %s was stored when the index was built and is not found", what, k)
							}
						}
					}
				}
			}
		}
		problems(x)
		if x.Failed() {
			return
		}
	}
	if n := files() - f0; n > 1 {
		x.Failf("files", "%d index files are left", n)
	}
	if l := annoyindex.VerifLive(); l > 1 {
		x.Failf("leak", "%d indexes are alive", l)
	}
	lib.Kill(dt)
	l, _ := filepath.Glob(filepath.Join(os.TempDir(), "annoy*"))
	for _, f := range l {
		os.Remove(f)
	}
}

// schedules: searches against the replacement of the index.
func sched(change func(dt *data.Data), threads ...string) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		annoyindex.VerifReset()
		dt := lib.New(x, lib.Config("d"))
		defer lib.Stop(dt)
		may := map[string]bool{}
		for _, d := range pool[:2] {
			dt.Insert(lib.Clone(d), &pb.InsertConfig{Count: 1})
			may[lib.KeyOf(d)+"="+lib.ValOf(d)] = true
		}
		if len(threads) > 0 && threads[0] != "first" {
			dt.Process(true)
		}
		if change != nil {
			change(dt)
			for _, d := range pool {
				may[lib.KeyOf(d)+"="+lib.ValOf(d)] = true
			}
		}
		var fs []func()
		var mu sync.Mutex
		for _, t := range threads {
			switch t {
			case "refresh", "first":
				fs = append(fs, func() { dt.Process(true) })
			case "close":
				fs = append(fs, func() { dt.Close() })
			case "search":
				fs = append(fs, func() {
					q := queries[0]
					c := sc("AnnoyVectorDistance", 10)
					res := search(dt, q, c)
					mu.Lock()
					defer mu.Unlock()
					judge(x, "search", res, q, c, may)
					x.Out("%d", len(res))
				})
			}
		}
		lib.Run(x, e, fs...)
		problems(x)
		l, _ := filepath.Glob(filepath.Join(os.TempDir(), "annoy*"))
		for _, f := range l {
			os.Remove(f)
		}
	}
}

func TestCheck(t *testing.T) {
	delAll := func(dt *data.Data) {
		for _, d := range pool[:2] {
			dt.Delete(d)
		}
	}
	mixed := func(dt *data.Data) {
		for _, d := range pool[2:5] {
			dt.Insert(lib.Clone(d), &pb.InsertConfig{Count: 1})
		}
	}
	kit.Run(t,
		kit.Family{Name: "histories", Gen: gen, Share: 3},
		kit.Family{Name: "schedules-refresh-vs-search", Bound: 2, BoundThorough: 3, Sched: sched(nil, "refresh", "search"), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-first-refresh-vs-search", Bound: 1, BoundThorough: 3, Sched: sched(nil, "first", "search"), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-refresh-vs-two-searches", Bound: 1, BoundThorough: 2, Sched: sched(nil, "refresh", "search", "search"), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-emptied", Bound: 2, BoundThorough: 3, Sched: sched(delAll, "refresh", "search"), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-mixed-dimensions", Bound: 1, BoundThorough: 2, Sched: sched(mixed, "refresh", "search"), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-close-vs-search", Bound: 1, BoundThorough: 3, Sched: sched(nil, "close", "search"), EndDeadlock: "stuck"},
	)
}

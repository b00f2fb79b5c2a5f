//go:build go1.22

// C06: grouping, search context and result limit.
package c06

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"google.golang.org/protobuf/proto"
)

func v(f ...float32) []float32 { return f }

func mk(f []float32, group, label string) *pb.Datum {
	return &pb.Datum{Key: &pb.DatumKey{Feature: f, GroupLabel: []byte(group), Size1: 1, Dim1: uint32(len(f))}, Value: &pb.DatumValue{Version: 1, Label: []byte(label)}}
}

var pool = []func() *pb.Datum{
	func() *pb.Datum { return mk(v(1, 0), "a", "1") },
	func() *pb.Datum { return mk(v(2, 1), "a", "2") },
	func() *pb.Datum { return mk(v(5, 3), "a", "3") },
	func() *pb.Datum { return mk(v(3, 0), "b", "4") },
	func() *pb.Datum { return mk(v(4, 7), "b", "5") },
	func() *pb.Datum { return mk(v(6, 2), "", "6") },
	func() *pb.Datum { return mk(v(9, 9), "c", "7") },
	func() *pb.Datum { return mk(v(7, 1), "", "8") },
}

var querySets = [][]*pb.Datum{
	{mk(v(0.5, 0.25), "", "")},
	{mk(v(0.5, 0.25), "", ""), mk(v(4.25, 2), "", "")},
}

var ctxs = []*pb.SearchContext{
	nil,
	{Datum: []*pb.Datum{mk(v(6.25, 2.5), "", "")}},
	{Datum: []*pb.Datum{mk(v(6.25, 2.5), "", "")}, Prioritize: true},
	{Datum: []*pb.Datum{mk(v(3.25, 0.5), "", ""), mk(v(8, 10), "", "")}},
	{Datum: []*pb.Datum{mk(v(3.25, 0.5), "", ""), mk(v(8, 10), "", "")}, Prioritize: true},
	{Prioritize: true},
	{Datum: []*pb.Datum{mk(v(20, 20), "", ""), mk(v(30, 3), "", ""), mk(v(4, 40), "", ""), mk(v(21, 2), "", ""), mk(v(6.25, 2.5), "", ""), mk(v(1.25, 0.5), "", "")}},
	{Datum: []*pb.Datum{mk(v(20, 20), "", ""), mk(v(30, 3), "", ""), mk(v(4, 40), "", ""), mk(v(21, 2), "", ""), mk(v(6.25, 2.5), "", ""), mk(v(1.25, 0.5), "", "")}, Prioritize: true},
}

func better(a, b float64, hi bool) bool {
	if hi {
		return a > b
	}
	return a < b
}

// scores gives every datum its best score over queries and context.
func scores(ds []*pb.Datum, qs []*pb.Datum, ctx *pb.SearchContext, c *pb.SearchConfig) []lib.Scored {
	var out []lib.Scored
	for _, d := range ds {
		set := false
		var best float64
		add := func(s float64) {
			if !set || better(s, best, c.HigherIsBetter) {
				set, best = true, s
			}
		}
		if ctx == nil || len(ctx.Datum) == 0 || !ctx.Prioritize {
			for _, q := range qs {
				add(lib.Score(c.ScoreFuncName, d.Key.Feature, q.Key.Feature))
			}
		}
		if ctx != nil {
			for _, q := range ctx.Datum {
				add(lib.Score(c.ScoreFuncName, d.Key.Feature, q.Key.Feature))
			}
		}
		out = append(out, lib.Scored{Key: lib.KeyOf(d), Val: lib.ValOf(d), Score: best})
	}
	return out
}

func groups(ds []*pb.Datum, sc []lib.Scored, c *pb.SearchConfig) []lib.Scored {
	by := map[string][]lib.Scored{}
	for i, d := range ds {
		g := string(d.Key.GroupLabel)
		by[g] = append(by[g], sc[i])
	}
	var out []lib.Scored
	for _, l := range by {
		sort.Slice(l, func(i, j int) bool { return better(l[i].Score, l[j].Score, c.HigherIsBetter) })
		n := int(c.GroupLimit)
		if n > len(l) {
			n = len(l)
		}
		s := 0.0
		for _, e := range l[:n] {
			s += e.Score
		}
		if !c.HigherIsBetter {
			s /= float64(n * n)
		}
		out = append(out, lib.Scored{Key: l[0].Key, Val: l[0].Val, Score: s})
	}
	return out
}

func load(x *kit.X, m int) (*data.Data, []*pb.Datum) {
	dt := lib.New(x, lib.Config("d"))
	var ds []*pb.Datum
	for i := range pool {
		if m>>i&1 == 1 {
			d := pool[i]()
			ds = append(ds, d)
			dt.Insert(lib.Clone(d), nil)
		}
	}
	return dt, ds
}

// copyCtx: the aggregator may keep the context, never share it between searches.
func copyCtx(c *pb.SearchContext) *pb.SearchContext {
	if c == nil {
		return nil
	}
	n := &pb.SearchContext{Prioritize: c.Prioritize}
	for _, d := range c.Datum {
		n.Datum = append(n.Datum, lib.Clone(d))
	}
	return n
}

func fail(x *kit.X, sig, msg string, c *pb.SearchConfig, nq int, ctx *pb.SearchContext, res []*pb.ScoredDatum) {
	x.Failf(sig, "%s higher=%v limit %d groupLimit %d resultLimit %d, %d queries, context %v: %s; results %s", c.ScoreFuncName, c.HigherIsBetter, c.Limit, c.GroupLimit, c.ResultLimit, nq, ctx, msg, lib.ShowRes(res))
}

func each(g *kit.G, f func(x *kit.X, dt *data.Data, ds []*pb.Datum)) {
	for m := 0; m < 1<<len(pool); m++ {
		m := m
		g.Case(func() string { return fmt.Sprintf("data set %08b", m) }, func(x *kit.X) {
			dt, ds := load(x, m)
			defer lib.Stop(dt)
			f(x, dt, ds)
		})
	}
}

var funcs = []string{"VectorDistance", "VectorMultiplication", "CosineSimilarity"}

func search(x *kit.X, dt *data.Data, qs []*pb.Datum, c *pb.SearchConfig, ctx *pb.SearchContext) []*pb.ScoredDatum {
	res, err := dt.MultiAggregatedSearch(qs, c, copyCtx(ctx))
	x.Step(1)
	if err != nil {
		x.Failf("error", "%v", err)
	}
	x.Out("%s", lib.ShowRes(res))
	return res
}

func genContext(g *kit.G) {
	each(g, func(x *kit.X, dt *data.Data, ds []*pb.Datum) {
		for _, f := range funcs {
			for _, hi := range []bool{false, true} {
				for _, qs := range querySets {
					for _, ctx := range ctxs {
						c := &pb.SearchConfig{ScoreFuncName: f, HigherIsBetter: hi, Limit: 20, Timeout: 1000}
						res := search(x, dt, qs, c, ctx)
						if sig, msg := lib.TopK(res, scores(ds, qs, ctx, c), 20, hi); sig != "" {
							fail(x, sig, msg, c, len(qs), ctx, res)
						}
					}
				}
			}
		}
	})
}

func genResultLimit(g *kit.G) {
	each(g, func(x *kit.X, dt *data.Data, ds []*pb.Datum) {
		for _, hi := range []bool{false, true} {
			for _, qs := range querySets {
				for _, lim := range []uint32{1, 2, 3, 20} {
					for _, rl := range []uint64{0, 1, 2, 3, 50} {
						for _, ctx := range ctxs[:3] {
							c := &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: hi, Limit: lim, ResultLimit: rl, Timeout: 1000}
							res := search(x, dt, qs, c, ctx)
							want := int(lim)
							if rl > 0 && int(rl) < want {
								want = int(rl)
							}
							if ctx == nil || lim == 20 { // every datum is a candidate
								if sig, msg := lib.TopK(res, scores(ds, qs, ctx, c), want, hi); sig != "" {
									fail(x, sig, msg, c, len(qs), ctx, res)
								}
							} else if len(res) > want {
								fail(x, "limit", "too many results", c, len(qs), ctx, res)
							}
							order(x, c, qs, ctx, res)
						}
					}
				}
			}
		}
	})
}

func order(x *kit.X, c *pb.SearchConfig, qs []*pb.Datum, ctx *pb.SearchContext, res []*pb.ScoredDatum) {
	for i := 1; i < len(res); i++ {
		if lib.Better(res[i].Score, res[i-1].Score, c.HigherIsBetter) {
			fail(x, "order", "not best first", c, len(qs), ctx, res)
		}
	}
}

func genGroups(g *kit.G) {
	each(g, func(x *kit.X, dt *data.Data, ds []*pb.Datum) {
		for _, f := range funcs {
			for _, hi := range []bool{false, true} {
				for _, qs := range querySets {
					for gl := uint32(1); gl <= 3; gl++ {
						c := &pb.SearchConfig{ScoreFuncName: f, HigherIsBetter: hi, Limit: 20, GroupLimit: gl, Timeout: 1000}
						res := search(x, dt, qs, c, nil)
						if sig, msg := lib.TopK(res, groups(ds, scores(ds, qs, nil, c), c), 20, hi); sig != "" {
							fail(x, "group-"+sig, msg, c, len(qs), nil, res)
						}
					}
				}
			}
		}
		// a group combines the scores its members have under the context
		for _, f := range funcs {
			for _, hi := range []bool{false, true} {
				for _, qs := range querySets {
					for _, ctx := range ctxs {
						for gl := uint32(1); gl <= 3; gl += 2 {
							c := &pb.SearchConfig{ScoreFuncName: f, HigherIsBetter: hi, Limit: 20, GroupLimit: gl, Timeout: 1000}
							res := search(x, dt, qs, c, ctx)
							if sig, msg := lib.TopK(res, groups(ds, scores(ds, qs, ctx, c), c), 20, hi); sig != "" {
								fail(x, "group-context-"+sig, msg, c, len(qs), ctx, res)
							}
						}
					}
				}
			}
		}
		// limits, contexts and result limits: one result per group, best first, never too many
		for _, hi := range []bool{false, true} {
			for _, qs := range querySets {
				for _, lim := range []uint32{1, 2, 20} {
					for _, rl := range []uint64{0, 1, 2} {
						for _, ctx := range ctxs {
							c := &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: hi, Limit: lim, GroupLimit: 2, ResultLimit: rl, Timeout: 1000}
							res := search(x, dt, qs, c, ctx)
							seen := map[string]bool{}
							known := map[string]bool{}
							for _, d := range ds {
								known[lib.KeyOf(d)] = true
							}
							for _, r := range res {
								gr := string(r.Datum.Key.GroupLabel)
								if seen[gr] {
									fail(x, "group-twice", "two results of group "+gr, c, len(qs), ctx, res)
								}
								seen[gr] = true
								if !known[lib.KeyOf(r.Datum)] {
									fail(x, "ghost", "unknown result", c, len(qs), ctx, res)
								}
							}
							if len(res) > int(lim) || rl > 0 && len(res) > int(rl) {
								fail(x, "limit", "too many results", c, len(qs), ctx, res)
							}
							if len(ds) > 0 && len(res) == 0 {
								fail(x, "empty", "no results", c, len(qs), ctx, res)
							}
							order(x, c, qs, ctx, res)
							if lim == 20 {
								want := 20
								if rl > 0 {
									want = int(rl)
								}
								if sig, msg := lib.TopK(res, groups(ds, scores(ds, qs, ctx, c), c), want, hi); sig != "" {
									fail(x, "group-limit-"+sig, msg, c, len(qs), ctx, res)
								}
							}
						}
					}
				}
			}
		}
	})
}

// genLabels: groups are told apart by their whole label, whatever is in it.
func genLabels(g *kit.G) {
	for _, n := range []int{0, 1, 2, 15, 16, 31, 63, 64, 127, 128, 129, 255, 256, 1000, 5000} {
		base := strings.Repeat("x", n)
		labels := []string{base, base + "a", base + "b", base + "A", base + " ", base + "a ", " " + base + "a", base + "\x00", base + "a\x00", base + "\xff", "b" + base}
		for i := range labels {
			for j := range labels {
				for k := 0; k <= j; k++ {
					n, l := n, []string{labels[i], labels[j], labels[k]}
					if i == j || j == k || i == k {
						continue
					}
					g.Case(func() string {
						return fmt.Sprintf("labels of %d bytes and %q, %q, %q", n, l[0][max(0, len(l[0])-3):], l[1][max(0, len(l[1])-3):], l[2][max(0, len(l[2])-3):])
					}, func(x *kit.X) {
						dt := lib.New(x, lib.Config("d"))
						defer lib.Stop(dt)
						var ds []*pb.Datum
						for p := 0; p < 6; p++ {
							d := mk(v(float32(p*p+1), 1), l[p%3], fmt.Sprint(p))
							ds = append(ds, d)
							dt.Insert(lib.Clone(d), nil)
						}
						for _, hi := range []bool{false, true} {
							for gl := uint32(1); gl <= 2; gl++ {
								c := &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: hi, Limit: 20, GroupLimit: gl, Timeout: 1000}
								res := search(x, dt, querySets[0], c, nil)
								if sig, msg := lib.TopK(res, groups(ds, scores(ds, querySets[0], nil, c), c), 20, hi); sig != "" {
									fail(x, "label-"+sig, msg, c, 1, nil, res)
								}
							}
						}
					})
				}
			}
		}
	}
}

// genPeers: groups, contexts and result limits over data that lies on the dataset and on peers, replicas included.
// The peers answer like a node would: they apply the request that reaches them to what they hold.
func genPeers(g *kit.G) {
	const sites = 3
	places := 7 // non-empty subsets of the sites
	n := 4
	total := places * places * places * places
	for code := 0; code < total; code++ {
		if !g.Thorough() && code%5 != 0 {
			continue
		}
		code := code
		g.Case(func() string { return fmt.Sprintf("placement %d of %d data on %d sites", code, n, sites) }, func(x *kit.X) {
			dts := make([]*data.Data, sites)
			for i := range dts {
				dts[i] = lib.New(x, lib.Config("d"))
			}
			defer lib.Stop(dts...)
			var ds []*pb.Datum
			for i, c := 0, code; i < n; i, c = i+1, c/places {
				d := pool[[]int{0, 1, 3, 5}[i]]()
				ds = append(ds, d)
				for s := 0; s < sites; s++ {
					if (c%places+1)>>s&1 == 1 {
						dts[s].Insert(lib.Clone(d), &pb.InsertConfig{Count: 1})
					}
				}
			}
			for s := 1; s < sites; s++ {
				dt := dts[s]
				dts[0].AddSource(&lib.Peer{ID: fmt.Sprint("p", s), OnSearch: func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig) {
					res, _ := dt.MultiAggregatedSearch([]*pb.Datum{lib.Clone(q)}, proto.Clone(c).(*pb.SearchConfig), nil)
					for _, r := range res {
						out <- proto.Clone(r).(*pb.ScoredDatum)
					}
				}})
			}
			for _, hi := range []bool{false, true} {
				for _, qs := range querySets {
					for _, rl := range []uint64{0, 1, 2} {
						for _, ctx := range ctxs[:3] {
							for gl := uint32(0); gl <= 3; gl++ {
								c := &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: hi, Limit: 20, GroupLimit: gl, ResultLimit: rl, Timeout: 1000}
								res := search(x, dts[0], qs, c, ctx)
								want := 20
								if rl > 0 {
									want = int(rl)
								}
								sc := scores(ds, qs, ctx, c)
								if gl > 0 {
									sc = groups(ds, sc, c)
								}
								if sig, msg := lib.TopK(res, sc, want, hi); sig != "" {
									fail(x, "peers-"+sig, msg, c, len(qs), ctx, res)
								}
							}
						}
					}
				}
			}
		})
	}
}

// genLimited: with a limit every query finds its best data only, and a group combines of those as many as the group
// limit allows, also when that is more than the limit.
func genLimited(g *kit.G) {
	each(g, func(x *kit.X, dt *data.Data, ds []*pb.Datum) {
		for _, hi := range []bool{false, true} {
			for _, qs := range querySets {
				for _, lim := range []uint32{1, 2, 3} {
					for gl := uint32(1); gl <= 5; gl++ {
						c := &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: hi, Limit: lim, GroupLimit: gl, Timeout: 1000}
						found := map[string]bool{}
						tie := false
						for _, q := range qs {
							l := scores(ds, []*pb.Datum{q}, nil, c)
							sort.Slice(l, func(i, j int) bool { return better(l[i].Score, l[j].Score, hi) })
							for i, e := range l {
								if i < int(lim) {
									found[e.Key] = true
								}
								tie = tie || i > 0 && lib.Near(e.Score, l[i-1].Score)
							}
						}
						if tie {
							continue
						}
						// a datum has the scores of the queries that found it
						var fs []*pb.Datum
						var sc []lib.Scored
						for _, d := range ds {
							if !found[lib.KeyOf(d)] {
								continue
							}
							var by []*pb.Datum
							for _, q := range qs {
								l := scores(ds, []*pb.Datum{q}, nil, c)
								sort.Slice(l, func(i, j int) bool { return better(l[i].Score, l[j].Score, hi) })
								for i, e := range l {
									if i < int(lim) && e.Key == lib.KeyOf(d) {
										by = append(by, q)
									}
								}
							}
							fs = append(fs, d)
							sc = append(sc, scores([]*pb.Datum{d}, by, nil, c)...)
						}
						for i := range fs {
							for j := 0; j < i; j++ {
								tie = tie || lib.Near(sc[i].Score, sc[j].Score)
							}
						}
						if tie {
							continue
						}
						res := search(x, dt, qs, c, nil)
						if sig, msg := lib.TopK(res, groups(fs, sc, c), int(lim), hi); sig != "" {
							fail(x, "limited-"+sig, msg, c, len(qs), nil, res)
						}
					}
				}
			}
		}
	})
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "context", Gen: genContext},
		kit.Family{Name: "result-limit", Gen: genResultLimit},
		kit.Family{Name: "groups", Gen: genGroups},
		kit.Family{Name: "labels", Gen: genLabels},
		kit.Family{Name: "limited-groups", Gen: genLimited},
		kit.Family{Name: "peers", Gen: genPeers},
	)
}

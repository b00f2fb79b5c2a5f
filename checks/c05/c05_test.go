//go:build go1.22

// C05: a search over a dataset with peers merges local and peer results (dataset level).
package c05

import (
	"fmt"
	"math"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/vmc"
)

const ms = time.Millisecond

func mk(i int) *pb.Datum {
	return lib.D(float32(i+1), float32(i%2), fmt.Sprint("g", i), fmt.Sprint("l", i))
}

func q(a, b float32) *pb.Datum { return lib.D(a, b, "", "") }

func expect(all []*pb.Datum, qs []*pb.Datum, c *pb.SearchConfig) []lib.Scored {
	var cand []lib.Scored
	for _, d := range all {
		for _, s := range qs {
			cand = append(cand, lib.Scored{Key: lib.KeyOf(d), Val: lib.ValOf(d), Score: lib.Score(c.ScoreFuncName, d.Key.Feature, s.Key.Feature)})
		}
	}
	return cand
}

func verify(x *kit.X, what string, res []*pb.ScoredDatum, err error, all []*pb.Datum, qs []*pb.Datum, c *pb.SearchConfig) {
	x.Step(1)
	if err != nil {
		x.Failf("error", "%s: %v", what, err)
		return
	}
	if sig, msg := lib.TopK(res, expect(all, qs, c), int(c.Limit), c.HigherIsBetter); sig != "" {
		x.Failf(sig, "%s: %s higher=%v limit %d, %d queries: %s; results %s", what, c.ScoreFuncName, c.HigherIsBetter, c.Limit, len(qs), msg, lib.ShowRes(res))
	}
	x.Out("%s", lib.ShowRes(res))
}

var querySets = [][]*pb.Datum{
	{q(0, 0)},
	{q(0, 0), q(4, 1)},
	{q(3, 0), q(3, 0), q(1, 1)},
	{q(2, 1)}, // exactly one of the data
}

// genPlace: every placement of data on the dataset and its peers (replicas included).
func genPlace(g *kit.G) {
	n, sites := 3, 3
	if g.Thorough() {
		n, sites = 4, 3
	}
	m := 1<<sites - 1
	total := 1
	for i := 0; i < n; i++ {
		total *= m
	}
	for code := 0; code < total; code++ {
		code := code
		desc := func() string {
			s := ""
			for i, c := 0, code; i < n; i, c = i+1, c/m {
				s += fmt.Sprintf("d%d on %03b; ", i, c%m+1)
			}
			return s + "(bit 0: local, 1: peer 1, 2: peer 2)"
		}
		g.Case(desc, func(x *kit.X) {
			at := make([][]*pb.Datum, sites)
			var all []*pb.Datum
			for i, c := 0, code; i < n; i, c = i+1, c/m {
				d := mk(i)
				all = append(all, d)
				for s := 0; s < sites; s++ {
					if (c%m+1)>>s&1 == 1 {
						at[s] = append(at[s], d)
					}
				}
			}
			for _, delays := range [][2]time.Duration{{0, 0}, {10 * ms, 20 * ms}, {20 * ms, 10 * ms}} {
				dt := lib.New(x, lib.Config("d"))
				for _, d := range at[0] {
					dt.Insert(lib.Clone(d), &pb.InsertConfig{Count: 1})
				}
				dt.AddSource(lib.SetPeer("p1", at[1], delays[0]))
				dt.AddSource(lib.SetPeer("p2", at[2], delays[1]))
				for _, f := range []string{"VectorDistance", "CosineSimilarity"} {
					for _, hi := range []bool{false, true} {
						for _, lim := range []uint32{1, 2, 10} {
							for _, qs := range querySets {
								c := &pb.SearchConfig{ScoreFuncName: f, HigherIsBetter: hi, Limit: lim, Timeout: 1000, DataName: "d"}
								res, err := dt.MultiAggregatedSearch(qs, c, nil)
								verify(x, fmt.Sprint("delays ", delays), res, err, all, qs, c)
							}
						}
					}
				}
				lib.Kill(dt)
			}
			lib.Stop()
		})
	}
}

// genPatience: what a peer has is part of the answer if it comes well before the timeout, however long that is.
func genPatience(g *kit.G) {
	for _, timeout := range []uint64{50, 1000, 1 << 31, 1 << 32, 1 << 53, math.MaxInt64 / 1000000, math.MaxInt64/1000000 + 1, math.MaxInt64, 1 << 63, math.MaxUint64 - 1000, math.MaxUint64} {
		for _, part := range []float64{0, 0.1, 0.5, 0.75} {
			for _, lim := range []uint32{1, 3, 10} {
				timeout, part, lim := timeout, part, lim
				g.Case(func() string {
					return fmt.Sprintf("timeout %d ms, a peer answers after %v of it (an hour at most), limit %d", timeout, part, lim)
				}, func(x *kit.X) {
					delay := time.Hour
					if timeout < 3600000 {
						delay = time.Duration(timeout) * ms
					}
					delay = time.Duration(float64(delay) * part)
					for n := 0; n < 3; n++ { // local data
						dt := lib.New(x, lib.Config("d"))
						var all, at []*pb.Datum
						for i := 0; i < 5; i++ {
							all = append(all, mk(i))
							if i < n {
								dt.Insert(mk(i), &pb.InsertConfig{Count: 1})
							} else {
								at = append(at, mk(i))
							}
						}
						for _, hi := range []bool{false, true} {
							for _, qs := range querySets {
								c := &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: hi, Limit: lim, Timeout: timeout, DataName: "d"}
								dt.AddSource(lib.SetPeer("p1", at, delay)) // (sources are forgotten after 10 minutes)
								dt.AddSource(lib.SetPeer("p2", at[:1], 0))
								t := time.Now()
								res, err := dt.MultiAggregatedSearch(qs, c, nil)
								verify(x, fmt.Sprintf("timeout %d ms, %v", timeout, time.Since(t)), res, err, all, qs, c)
							}
						}
						lib.Kill(dt)
					}
					lib.Stop()
				})
			}
		}
	}
}

// genMany: up to six peers, and more results than any buffer in between.
func genMany(g *kit.G) {
	for peers := 0; peers <= 6; peers++ {
		for _, per := range []int{0, 1, 2, 40, 99, 100, 101, 250} {
			for _, lim := range []uint32{1, 3, 99, 100, 101, 202, 2000} {
				for _, overlap := range []int{0, 1} {
					peers, per, lim, overlap := peers, per, lim, overlap
					g.Case(func() string {
						return fmt.Sprintf("%d peers with %d data each, limit %d, overlap %d", peers, per, lim, overlap)
					}, func(x *kit.X) {
						dt := lib.New(x, lib.Config("d"))
						defer lib.Stop(dt)
						var all []*pb.Datum
						id := 0
						batch := func() []*pb.Datum {
							var l []*pb.Datum
							for i := 0; i < per; i++ {
								d := lib.D(float32(id*7%1009), 1, fmt.Sprint(id), "l")
								l = append(l, d)
								all = append(all, d)
								id++
							}
							if overlap == 1 {
								id -= per / 2
							}
							return l
						}
						for _, d := range batch() {
							dt.Insert(lib.Clone(d), &pb.InsertConfig{Count: 1})
						}
						for p := 0; p < peers; p++ {
							dt.AddSource(lib.SetPeer(fmt.Sprint("p", p), batch(), time.Duration(p%3)*5*ms))
						}
						qs := querySets[per%2]
						c := &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: lim, Timeout: 1000}
						res, err := dt.MultiAggregatedSearch(qs, c, nil)
						verify(x, "many", res, err, all, qs, c)
					})
				}
			}
		}
	}
}

// genFine: of a datum that several queries find, the best score counts, however little better it is, whoever holds it.
func genFine(g *kit.G) {
	for _, unit := range []float32{1, 1.0 / (1 << 10), 1.0 / (1 << 20), 1.0 / (1 << 30), 1.0 / (1 << 40)} {
		for _, hi := range []bool{false, true} {
			for place := 0; place < 27; place++ {
				for order := 0; order < 2; order++ {
					unit, hi, place, order := unit, hi, place, order
					g.Case(func() string {
						return fmt.Sprintf("distances of multiples of %g, higher=%v, placement %d, delays %d", unit, hi, place, order)
					}, func(x *kit.X) {
						dt := lib.New(x, lib.Config("d"))
						defer lib.Stop(dt)
						at := make([][]*pb.Datum, 3)
						var all []*pb.Datum
						for i, c := 0, place; i < 3; i, c = i+1, c/3 {
							d := lib.D(float32(3*i+1)*unit, 0, "g", fmt.Sprint("l", i))
							all = append(all, d)
							at[c%3] = append(at[c%3], d)
						}
						for _, d := range at[0] {
							dt.Insert(lib.Clone(d), &pb.InsertConfig{Count: 1})
						}
						dt.AddSource(lib.SetPeer("d", at[1], time.Duration(order)*10*ms)) // named like the dataset
						dt.AddSource(lib.SetPeer("", at[2], time.Duration(1-order)*10*ms))
						for _, qs := range [][]*pb.Datum{{q(0, 0)}, {q(0, 0), q(unit, 0), q(2*unit, 0), q(3*unit, 0)}, {q(6*unit, 0), q(5*unit, 0), q(0, 0)}} {
							for _, lim := range []uint32{1, 2, 10} {
								c := &pb.SearchConfig{ScoreFuncName: "VectorDistance", HigherIsBetter: hi, Limit: lim, Timeout: 1000, DataName: "d"}
								res, err := dt.MultiAggregatedSearch(qs, c, nil)
								x.Step(1)
								if err != nil {
									x.Failf("error", "%v", err)
								}
								if sig, msg := lib.TopKFine(res, expect(all, qs, c), int(lim), hi); sig != "" {
									x.Failf("fine-"+sig, "limit %d, %d queries: %s; results %s", lim, len(qs), msg, lib.ShowRes(res))
								}
								x.Out("%s", lib.ShowRes(res))
							}
						}
					})
				}
			}
		}
	}
}

// genAlike: keys that differ in a single field are different data, however long the rest of the key is.
func genAlike(g *kit.G) {
	for _, width := range []int{1, 2, 30, 64, 300, 1500} {
		for _, label := range []int{0, 1, 200} {
			for place := 0; place < 1<<7; place++ {
				width, label, place := width, label, place
				g.Case(func() string {
					return fmt.Sprintf("%d features, group label of %d bytes, placement %07b", width, label, place)
				}, func(x *kit.X) {
					dt := lib.New(x, lib.Config("d"))
					defer lib.Stop(dt)
					var there, all []*pb.Datum
					for i := 0; i < 7; i++ {
						k := &pb.DatumKey{Feature: make([]float32, width), GroupLabel: make([]byte, label+1), Size1: 1, Size2: 1, Dim1: 2, Dim2: 1}
						k.Feature[0] = 3
						switch i {
						case 1:
							k.Feature[width-1] = 4
						case 2:
							k.GroupLabel[label] = 1
						case 3:
							k.Size1 = 2
						case 4:
							k.Size2 = 2
						case 5:
							k.Dim1 = 3
						case 6:
							k.Dim2 = 2
						}
						d := &pb.Datum{Key: k, Value: &pb.DatumValue{Version: 1, Label: []byte(fmt.Sprint("l", i))}}
						all = append(all, d)
						if place>>i&1 == 1 {
							there = append(there, d)
						} else {
							dt.Insert(lib.Clone(d), &pb.InsertConfig{Count: 1})
						}
					}
					dt.AddSource(lib.SetPeer("p", there, 5*ms))
					for _, qs := range querySets[:2] {
						for _, lim := range []uint32{7, 20} {
							c := &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: lim, Timeout: 1000}
							res, err := dt.MultiAggregatedSearch(qs, c, nil)
							verify(x, "alike", res, err, all, qs, c)
						}
					}
				})
			}
		}
	}
}

// genCrowd: with more peers than a search asks, it asks several, and its result is right for those.
func genCrowd(g *kit.G) {
	for peers := 7; peers <= 10; peers++ {
		for per := 1; per <= 3; per++ {
			for _, lim := range []uint32{1, 4, 100} {
				for nq := 0; nq < 2; nq++ {
					peers, per, lim, nq := peers, per, lim, nq
					g.Case(func() string {
						return fmt.Sprintf("%d peers with %d data each, limit %d, queries %d", peers, per, lim, nq)
					}, func(x *kit.X) {
						dt := lib.New(x, lib.Config("d"))
						defer lib.Stop(dt)
						local := mk(100)
						dt.Insert(lib.Clone(local), &pb.InsertConfig{Count: 1})
						var ps []*lib.Peer
						var has [][]*pb.Datum
						for p := 0; p < peers; p++ {
							var l []*pb.Datum
							for i := 0; i < per; i++ {
								l = append(l, mk((p*per+i)*7%31))
							}
							s := lib.SetPeer(fmt.Sprint("p", p), l, time.Duration(p%3)*5*ms)
							ps, has = append(ps, s), append(has, l)
							dt.AddSource(s)
						}
						qs := querySets[nq]
						c := &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: lim, Timeout: 1000}
						res, err := dt.MultiAggregatedSearch(qs, c, nil)
						all := []*pb.Datum{local}
						n := 0
						for i, p := range ps {
							n += p.Searches
							if p.Searches > 0 {
								all = append(all, has[i]...)
							}
						}
						if n < 5*len(qs) {
							x.Failf("unasked", "%d of %d peers were asked for %d queries", n, peers, len(qs))
						}
						if nq == 0 {
							verify(x, "crowd", res, err, all, qs, c)
						} else if err != nil || len(res) == 0 {
							x.Failf("error", "%d results, %v", len(res), err)
						}
					})
				}
			}
		}
	}
}

// sched: one search, local data and two peers, every schedule within the bound.
func sched(qs []*pb.Datum) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		dt := lib.New(x, lib.Config("d"))
		defer lib.Stop(dt)
		all := []*pb.Datum{mk(0), mk(1), mk(2)}
		dt.Insert(lib.Clone(all[1]), &pb.InsertConfig{Count: 1})
		dt.AddSource(lib.SetPeer("p1", []*pb.Datum{all[0], all[1]}, 0))
		dt.AddSource(lib.SetPeer("p2", []*pb.Datum{all[2]}, 0))
		c := &pb.SearchConfig{ScoreFuncName: "VectorDistance", Limit: 2, Timeout: 1000}
		var res []*pb.ScoredDatum
		var err error
		lib.Run(x, e, func() { res, err = dt.MultiAggregatedSearch(qs, c, nil) })
		verify(x, "schedule", res, err, all, qs, c)
	}
}

// two concurrent searches do not mix.
func schedTwo(x *kit.X, e *vmc.Engine) {
	dt := lib.New(x, lib.Config("d"))
	defer lib.Stop(dt)
	all := []*pb.Datum{mk(0), mk(1), mk(2)}
	dt.Insert(lib.Clone(all[0]), &pb.InsertConfig{Count: 1})
	dt.Insert(lib.Clone(all[1]), &pb.InsertConfig{Count: 1})
	dt.AddSource(lib.SetPeer("p1", all[2:], 0))
	cs := []*pb.SearchConfig{{ScoreFuncName: "VectorDistance", Limit: 2, Timeout: 1000}, {ScoreFuncName: "VectorDistance", HigherIsBetter: true, Limit: 1, Timeout: 1000}}
	var res [2][]*pb.ScoredDatum
	var err [2]error
	body := func(i int) func() {
		return func() { res[i], err[i] = dt.MultiAggregatedSearch(querySets[0], cs[i], nil) }
	}
	lib.Run(x, e, body(0), body(1))
	for i := range cs {
		verify(x, "concurrent searches", res[i], err[i], all, querySets[0], cs[i])
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "placements", Gen: genPlace, Share: 2},
		kit.Family{Name: "patience", Gen: genPatience},
		kit.Family{Name: "many-results", Gen: genMany},
		kit.Family{Name: "fine-scores", Gen: genFine},
		kit.Family{Name: "alike-keys", Gen: genAlike},
		kit.Family{Name: "more-peers-than-asked", Gen: genCrowd},
		kit.Family{Name: "schedules-one-query", Bound: 2, BoundThorough: 3, Delay: true, Sched: sched(querySets[0]), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-two-queries", Bound: 1, BoundThorough: 2, Delay: true, Sched: sched(querySets[1]), EndDeadlock: "stuck"},
		kit.Family{Name: "schedules-two-searches", Bound: 1, BoundThorough: 2, Delay: true, Sched: schedTwo, EndDeadlock: "stuck"},
	)
}

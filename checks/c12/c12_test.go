//go:build go1.22

// C12: published statistics.
package c12

import (
	"fmt"
	"math"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/vmc"
)

var vecs = [][]float32{{0, 0}, {1, 0}, {0, 2}, {-3, 4}, {10, 10}, {1, 1}, {-8, 0.5}}

func mk(i int) *pb.Datum { return lib.D(vecs[i][0], vecs[i][1], fmt.Sprint("g", i), "l") }

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-3*math.Max(1, math.Abs(b)) }

// verify compares published statistics with the content.
func verify(x *kit.X, when string, dt *data.Data, c *pb.DataConfig, ds []*pb.Datum) {
	i := dt.GetDataInfo()
	if i.GetN() != uint64(len(ds)) {
		x.Failf("n", "%s: published count %d, %d stored", when, i.GetN(), len(ds))
		return
	}
	if i.GetName() != c.Name || i.GetVersion() != c.Version || i.GetTargetN() != c.TargetN || i.GetTargetUtilization() != c.TargetUtilization || i.GetNoTarget() != c.NoTarget {
		x.Failf("config", "%s: published %v, configured %v", when, i, c)
	}
	x.Out("%d %.2f", i.N, i.MaxDistance)
	if len(ds) == 0 {
		for k, h := range i.Hist {
			if h != 0 {
				x.Failf("hist", "%s: nothing is stored, bucket %d is %v", when, k, h)
				break
			}
		}
		for k, a := range i.Avg {
			if a != 0 {
				x.Failf("avg", "%s: nothing is stored, coordinate %d of the average is %v", when, k, a)
				break
			}
		}
		if i.MaxDistance != 0 {
			x.Failf("max-distance", "%s: nothing is stored, the maximum distance is %v", when, i.MaxDistance)
		}
		return
	}
	dim := 0
	for _, d := range ds {
		dim = max(dim, len(d.Key.Feature))
	}
	avg := make([]float64, dim)
	for _, d := range ds {
		for j, f := range d.Key.Feature {
			avg[j] += float64(f) / float64(len(ds))
		}
	}
	wrong := len(i.Avg) != dim
	for j := 0; j < dim && !wrong; j++ {
		wrong = !near(float64(i.Avg[j]), avg[j])
	}
	if wrong {
		x.Failf("avg", "%s: published average %v, expected %v", when, i.Avg, avg)
		return
	}
	max := 0.0
	dist := make([]float64, len(ds))
	for k, d := range ds {
		dist[k] = lib.Score("VectorDistance", d.Key.Feature, i.Avg)
		max = math.Max(max, dist[k])
	}
	if !near(i.MaxDistance, max) {
		x.Failf("max-distance", "%s: published maximum distance %v, expected %v", when, i.MaxDistance, max)
		return
	}
	if max < 1e-3 {
		return
	}
	if len(i.Hist) == 0 {
		x.Failf("hist", "%s: no histogram", when)
		return
	}
	sum := 0.0
	for _, h := range i.Hist {
		sum += float64(h)
		if h < -1e-6 {
			x.Failf("hist", "%s: negative bucket", when)
		}
	}
	if !near(sum, 1) {
		x.Failf("hist", "%s: histogram sums to %v", when, sum)
	}
	// every datum lies in its bucket (or the neighbour, when it is on the border)
	b := len(i.Hist)
	lo := make([]float64, b)
	hi := make([]float64, b)
	for _, d := range dist {
		p := d / max * float64(b)
		at := func(p float64) int { return int(math.Min(math.Max(p, 0), float64(b-1))) }
		l, h := at(p-1e-2), at(p+1e-2)
		for k := l; k <= h; k++ {
			hi[k] += 1 / float64(len(ds))
		}
		if l == h {
			lo[l] += 1 / float64(len(ds))
		}
	}
	for k := range i.Hist {
		if float64(i.Hist[k]) < lo[k]-1e-3 || float64(i.Hist[k]) > hi[k]+1e-3 {
			x.Failf("hist", "%s: bucket %d is %v, expected %v..%v", when, k, i.Hist[k], lo[k], hi[k])
		}
	}
}

// genMixed: vectors of different lengths; a missing coordinate counts as zero.
func genMixed(g *kit.G) {
	pool := [][]float32{{4}, {-2, 6}, {1, 2, 3}, {8, 8, 8}, {0, 0, 0, 5}, {}, {3, -9}}
	for m := 0; m < 1<<len(pool); m++ {
		m := m
		g.Case(func() string { return fmt.Sprintf("mixed lengths %07b", m) }, func(x *kit.X) {
			c := lib.Config("d")
			dt := lib.New(x, c)
			defer lib.Stop(dt)
			var ds []*pb.Datum
			for i, f := range pool {
				if m>>i&1 == 1 {
					d := &pb.Datum{Key: &pb.DatumKey{Feature: f, GroupLabel: []byte("g"), Dim1: uint32(len(f))}, Value: &pb.DatumValue{Version: 1, Label: []byte("l")}}
					dt.Insert(lib.Clone(d), nil)
					ds = append(ds, d)
				}
			}
			for k := 0; k < 4; k++ {
				dt.Process(true)
				x.Step(1)
			}
			verify(x, "mixed lengths", dt, c, ds)
		})
	}
}

// genExtreme: magnitudes and sizes.
func genExtreme(g *kit.G) {
	sets := [][][]float32{
		{{1e7, 0}, {-1e7, 3}, {0, 0}},
		{{1e7, 1e7}, {2e7, 0}, {3e7, -1e7}, {0, 5}},
		{{1e15, 0}, {-2e15, 1e15}},
		{{5e-3, 0}, {0, 4e-3}, {8e-3, 1e-3}},
		{{1, 1}, {1, 1.5}, {1, 2}, {900, 900}},
		{{1e-20, 0}, {0, 0}},
	}
	for s := range sets {
		for _, rounds := range []int{4, 5, 8} {
			s, rounds := s, rounds
			g.Case(func() string { return fmt.Sprintf("vectors %v, %d refreshes", sets[s], rounds) }, func(x *kit.X) {
				c := lib.Config("d")
				dt := lib.New(x, c)
				defer lib.Stop(dt)
				var ds []*pb.Datum
				for i, f := range sets[s] {
					d := lib.D(f[0], f[1], fmt.Sprint("g", i), "l")
					dt.Insert(lib.Clone(d), nil)
					ds = append(ds, d)
				}
				for k := 0; k < rounds; k++ {
					dt.Process(true)
					x.Step(1)
				}
				verify(x, "extreme", dt, c, ds)
			})
		}
	}
	for _, n := range []int{63, 64, 65, 999, 1000, 1001, 1500} {
		n := n
		g.Case(func() string { return fmt.Sprintf("%d data", n) }, func(x *kit.X) {
			c := lib.Config("d")
			dt := lib.New(x, c)
			defer lib.Stop(dt)
			var ds []*pb.Datum
			for i := 0; i < n; i++ {
				d := lib.D(float32(i%37), float32(i%101)-20, fmt.Sprint("g", i), "l")
				dt.Insert(lib.Clone(d), nil)
				ds = append(ds, d)
			}
			for k := 0; k < 4; k++ {
				dt.Process(true)
				x.Step(1)
			}
			verify(x, "many", dt, c, ds)
			for len(ds) > n/2 {
				dt.Delete(lib.Clone(ds[len(ds)-1]))
				ds = ds[:len(ds)-1]
			}
			for k := 0; k < 4; k++ {
				dt.Process(true)
				x.Step(1)
			}
			verify(x, "many, half deleted", dt, c, ds)
		})
	}
}

// sched: a change during a refresh is published by the next one.
func sched(x *kit.X, e *vmc.Engine) {
	c := lib.Config("d")
	dt := lib.New(x, c)
	defer lib.Stop(dt)
	a, b := mk(1), mk(3)
	dt.Insert(lib.Clone(a), nil)
	synctest.Wait()
	lib.Run(x, e, func() { dt.Process(true) }, func() { dt.Insert(lib.Clone(b), nil) })
	time.Sleep(75 * time.Second)
	if n := dt.GetDataInfo().N; n != 2 {
		x.Failf("late", "75 s after the last insert the published count is %d, 2 stored", n)
	}
	time.Sleep(40 * time.Minute)
	verify(x, "40 minutes later", dt, c, []*pb.Datum{a, b})
}

// genForced: histories of changes, then refreshes.
func genForced(g *kit.G) {
	for m := 0; m < 1<<len(vecs); m++ {
		for del := 0; del < 6; del++ {
			m, del := m, del
			g.Case(func() string { return fmt.Sprintf("data %07b, deletion pattern %d", m, del) }, func(x *kit.X) {
				c := lib.Config("d")
				c.Version = 7
				dt := lib.New(x, c)
				defer lib.Stop(dt)
				var ds []*pb.Datum
				for i := range vecs {
					if m>>i&1 == 1 {
						d := mk(i)
						dt.Insert(lib.Clone(d), nil)
						ds = append(ds, d)
					}
				}
				refresh := func() {
					for k := 0; k < 4; k++ {
						dt.Process(true)
						x.Step(1)
						if n := dt.GetDataInfo().N; n != uint64(len(ds)) {
							x.Failf("n", "refresh %d: published count %d, %d stored", k, n, len(ds))
						}
					}
				}
				refresh()
				verify(x, "after inserts", dt, c, ds)
				switch del {
				case 1:
					if len(ds) > 0 {
						dt.Delete(lib.Clone(ds[0]))
						ds = ds[1:]
					}
				case 2:
					var rest []*pb.Datum
					for i, d := range ds {
						if i%2 == 0 {
							dt.Delete(lib.Clone(d))
						} else {
							rest = append(rest, d)
						}
					}
					ds = rest
				case 3, 4: // everything
					for _, d := range ds {
						dt.Delete(lib.Clone(d))
					}
					ds = nil
				case 5: // overwritten: another value under the same key, nothing else
					for _, d := range ds {
						d.Value.Label = []byte("other")
						dt.Insert(lib.Clone(d), nil)
					}
				}
				refresh()
				verify(x, "after deletes", dt, c, ds)
				if del == 4 { // and half of it again
					for i := range vecs {
						if m>>i&1 == 1 && i%2 == 1 {
							d := mk(i)
							dt.Insert(lib.Clone(d), nil)
							ds = append(ds, d)
						}
					}
					refresh()
					verify(x, "after new inserts", dt, c, ds)
				}
			})
		}
	}
}

// genBackground: the background loop publishes without being asked.
func genBackground(g *kit.G) {
	for m := 0; m < 1<<len(vecs); m += 1 {
		for _, ttl := range []uint64{0, 100, 5000} {
			for _, late := range []int{0, 30, 61, 200} {
				m, ttl, late := m, ttl, late
				g.Case(func() string {
					return fmt.Sprintf("data %07b, first one expires after %d s, last one %d s late", m, ttl, late)
				}, func(x *kit.X) {
					c := lib.Config("d")
					dt := lib.New(x, c)
					defer lib.Stop(dt)
					var ds []*pb.Datum
					var idx []int
					for i := range vecs {
						if m>>i&1 == 1 {
							idx = append(idx, i)
						}
					}
					for k, i := range idx {
						d := mk(i)
						if k > 0 && k == len(idx)-1 {
							time.Sleep(time.Duration(late) * time.Second)
						}
						t := uint64(0)
						if k == 0 {
							t = ttl
						}
						dt.Insert(lib.Clone(d), &pb.InsertConfig{TTL: t})
						x.Step(1)
						if t == 0 || t > 4000 { // lives on until the end
							ds = append(ds, d)
						}
					}
					live := len(ds)
					if ttl != 0 && len(idx) > 0 && late < 25 {
						live++
					}
					time.Sleep(72 * time.Second)
					if n := dt.GetDataInfo().N; n < uint64(len(ds)) || n > uint64(len(ds)+1) || ttl != 100 && n != uint64(len(ds)) {
						x.Failf("late", "72 s after the last insert the published count is %d, %d stored", n, len(ds))
					}
					time.Sleep(3300 * time.Second)
					verify(x, "55 minutes later", dt, c, ds)
				})
			}
		}
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "mixed-lengths", Gen: genMixed},
		kit.Family{Name: "extremes", Gen: genExtreme},
		kit.Family{Name: "schedules-insert-vs-refresh", Bound: 2, BoundThorough: 3, Delay: true, Sched: sched},
		kit.Family{Name: "refreshes", Gen: genForced},
		kit.Family{Name: "background", Gen: genBackground},
	)
}

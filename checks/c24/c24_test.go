//go:build go1.22

// C24: the capacity target.
package c24

import (
	"fmt"
	"testing"
	"time"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
)

func mk(i int, label string) *pb.Datum { return lib.D(float32(i), 1, fmt.Sprint("g", i), label) }

func gen(g *kit.G) {
	for _, tn := range [][2]int{{10, 9}, {10, 10}, {10, 11}, {64, 63}, {64, 64}, {100, 99}, {100, 100}, {100, 105}, {1000, 999}, {1000, 1000}, {1000, 1001}} {
		for _, noTarget := range []bool{false, true} {
			for _, refresh := range []int{0, 1, 2} {
				for _, what := range []string{"new", "existing", "changed"} {
					tn, noTarget, refresh, what := tn, noTarget, refresh, what
					g.Case(func() string {
						return fmt.Sprintf("target %d (off: %v), %d stored, refresh %d, then insert of a %s datum", tn[0], noTarget, tn[1], refresh, what)
					}, func(x *kit.X) { run(x, uint64(tn[0]), tn[1], noTarget, refresh, what, 0, 0) })
				}
			}
		}
	}
	for _, target := range []uint64{0, 1, 2, 3, 4, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 63, 1<<64 - 1} {
		for n := 0; n <= 5; n++ {
			for _, noTarget := range []bool{false, true} {
				for _, refresh := range []int{0, 1, 2} {
					for _, what := range []string{"new", "existing", "changed"} {
						for _, count := range []uint64{0, 1} {
							for _, r := range []uint32{0, 1, 2, 3} {
								target, n, noTarget, refresh, what, count, r := target, n, noTarget, refresh, what, count, r
								g.Case(func() string {
									return fmt.Sprintf("target %d (off: %v), %d stored, refresh %d, then insert of a %s datum with count %d, replication %d", target, noTarget, n, refresh, what, count, r)
								}, func(x *kit.X) {
									run(x, target, n, noTarget, refresh, what, count, r)
								})
							}
						}
					}
				}
			}
		}
	}
}

func run(x *kit.X, target uint64, n int, noTarget bool, refresh int, what string, count uint64, r uint32) {
	c := lib.Config("d")
	c.TargetN = target
	c.NoTarget = noTarget
	c.EnforceReplicationOnInsert = r > 0
	c.ReplicationOnInsert = r
	dt := lib.New(x, c)
	defer lib.Stop(dt)
	if target == 0 && !noTarget {
		n = 0
	}
	stored := 0
	for i := 0; i < n; i++ {
		if err := dt.Insert(mk(i, "old"), &pb.InsertConfig{Count: 1}); err == nil {
			stored++
		} else {
			x.Failf("refused", "insert %d refused although nothing is counted yet: %v", i, err)
		}
	}
	p := &lib.Peer{ID: "p", Info: &pb.DataInfo{Name: "d", N: 1000000}} // never a rebalancing target that matters
	p1 := &lib.Peer{ID: "q", Info: &pb.DataInfo{Name: "d", N: 1000000}}
	switch refresh {
	case 1:
		dt.Process(true)
	case 2:
		time.Sleep(75 * time.Second)
	}
	dt.AddSource(p)
	dt.AddSource(p1)
	published := dt.GetDataInfo().N
	if refresh > 0 && published != uint64(stored) {
		x.Failf("count", "%d stored, %d published", stored, published)
	}
	before := lib.Content(dt)
	d := mk(0, "old")
	switch what {
	case "new":
		d = mk(77, "new")
	case "changed":
		d = mk(0, "changed")
	}
	k, v := lib.KeyOf(d), lib.ValOf(d)
	err := dt.Insert(d, &pb.InsertConfig{Count: count})
	x.Step(n + 1)
	after := lib.Content(dt)
	full := !noTarget && published >= target
	if full {
		if err == nil {
			x.Failf("over-target", "accepted although %d are stored and the target is %d", published, target)
		} else if data.CheckIfUnkownError(err) {
			x.Failf("error", "refused with %q, which peers take for a failure", err)
		}
		if lib.Show(before) != lib.Show(after) {
			x.Failf("trace", "refused insert changed the content from %s to %s", lib.Show(before), lib.Show(after))
		}
		if len(p.All)+len(p1.All) > 0 {
			x.Failf("trace", "refused insert was sent to a peer")
		}
	} else {
		if err != nil {
			x.Failf("refused", "refused with %d published and target %d (off: %v): %v", published, target, noTarget, err)
		}
		if after[k] != v {
			x.Failf("lost", "accepted insert is missing")
		}
	}
	x.Out("%v %d", err, len(after))
}

var ops = []string{"insert", "insert as a copy with TTL 20 s", "change the first", "delete the last", "refresh", "wait 12 min", "target 2", "target 4", "no target", "insert of nothing"}

// genHistories: all sequences of operations on a dataset of a real node, through its service.
func genHistories(g *kit.G) {
	depth := 4
	if g.Thorough() {
		depth = 5
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	for code := 0; code < total && g.More(); code++ {
		var w []int
		for i, c := 0, code; i < depth; i, c = i+1, c/len(ops) {
			w = append(w, c%len(ops))
		}
		for pre := 0; pre < 2; pre++ {
			if pre == 1 && code%len(ops) > 0 { // one shorter
				continue
			}
			pre := pre
			g.Case(func() string {
				s := "target 3, one stored:"
				if pre == 1 {
					s += " [insert] [refresh] [insert]"
				}
				for _, o := range w[pre:] {
					s += " [" + ops[o] + "]"
				}
				return s
			}, func(x *kit.X) {
				if pre == 1 {
					history(x, append([]int{0, 4, 0}, w[1:]...))
				} else {
					history(x, w)
				}
			})
		}
	}
}

func history(x *kit.X, w []int) {
	nlib.Reset()
	n := nlib.New(x, 0)
	defer nlib.Stop(n)
	a := nlib.Addr(0)
	c := lib.Config("d")
	c.Version, c.TargetN, c.NoTarget = 1, 3, false
	if _, err := nlib.Create(a, c); err != nil {
		x.Failf("error", "%v", err)
		return
	}
	f := nlib.NewFake(1)
	time.Sleep(400 * time.Millisecond) // not at the moments of the background work
	if err := nlib.Insert(a, "d", mk(0, "first"), nil); err != nil {
		x.Failf("refused", "first insert refused: %v", err)
		return
	}
	target, off := uint64(3), false
	last, next := 0, 1
	for k, o := range w {
		dt := nlib.Datasets(n)["d"]
		if dt == nil {
			x.Failf("gone", "the dataset is gone although it holds data")
			return
		}
		var d *pb.Datum
		var ic *pb.InsertConfig
		switch ops[o] {
		case "insert":
			d = mk(next, "new")
		case "insert as a copy with TTL 20 s":
			d, ic = mk(next, "copy"), &pb.InsertConfig{Count: 1, TTL: 20}
		case "insert of nothing":
			d = &pb.Datum{}
		case "change the first":
			d = mk(0, fmt.Sprint("changed ", k))
		case "delete the last":
			if last > 0 {
				dt.Delete(mk(last, ""))
				if _, ok := lib.Content(dt)[lib.KeyOf(mk(last, ""))]; ok {
					x.Failf("deleted", "deleted datum is still there")
				}
			}
			last = 0
		case "refresh":
			dt.Process(true)
			if p, m := dt.GetDataInfo().N, len(lib.Content(dt)); p != uint64(m) {
				x.Failf("count", "%d stored, %d published after a refresh", m, p)
			}
		case "wait 12 min":
			time.Sleep(12 * time.Minute)
			if p, m := dt.GetDataInfo().N, len(lib.Content(dt)); p != uint64(m) {
				x.Failf("count", "%d stored, %d published after 12 minutes", m, p)
			}
		default:
			c = lib.Config("d")
			c.Version, c.TargetN, c.NoTarget = uint64(k+2), 3, false
			switch ops[o] {
			case "target 2":
				c.TargetN = 2
			case "target 4":
				c.TargetN = 4
			default:
				c.NoTarget = true
			}
			target, off = c.TargetN, c.NoTarget
			if _, err := nlib.Create(a, c); err != nil {
				x.Failf("error", "%v", err)
			}
		}
		x.Step(1)
		if d == nil {
			continue
		}
		published := dt.GetDataInfo().N
		before := lib.Content(dt)
		err := nlib.Insert(a, "d", lib.Clone(d), ic)
		after := lib.Content(dt)
		full := !off && published >= target
		switch {
		case full && err == nil:
			x.Failf("over-target", "step %d: accepted although %d are stored and the target is %d", k, published, target)
		case full:
			if data.CheckIfUnkownError(err) {
				x.Failf("error", "step %d: refused with %q, which peers take for a failure", k, err)
			}
		case d.Key == nil:
		case err != nil:
			x.Failf("refused", "step %d: refused with %d published and target %d (off: %v): %v", k, published, target, off, err)
		case after[lib.KeyOf(d)] != lib.ValOf(d):
			x.Failf("lost", "step %d: accepted insert is missing", k)
		case d.Key.GroupLabel[1] != '0':
			last, next = next, next+1
		}
		if err != nil && lib.Show(before) != lib.Show(after) {
			x.Failf("trace", "step %d: refused insert changed the content from %s to %s", k, lib.Show(before), lib.Show(after))
		}
		x.Out("%v %d", err == nil, len(after))
	}
	if len(f.Got) > 0 {
		x.Failf("trace", "sent to a node that is not a peer")
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t, kit.Family{Name: "targets", Gen: gen}, kit.Family{Name: "histories", Gen: genHistories, Share: 2})
}

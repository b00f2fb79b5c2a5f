//go:build go1.22

// C15: the saved list of datasets across restarts and crashes.
package c15

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/go-cache"
	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/vmc"
	"google.golang.org/protobuf/proto"
)

func kill(ss ...*data.Dataset) {
	for _, s := range ss {
		if s == nil {
			continue
		}
		for _, it := range s.DataList.Items() {
			if d, ok := it.Object.(*data.Data); ok {
				lib.Kill(d)
			}
		}
	}
}

func stop(ss ...*data.Dataset) {
	synctest.Wait()
	kill(ss...)
	cache.VerifStopAll()
	time.Sleep(3 * time.Second)
	synctest.Wait()
}

func copyDir(from, to string) {
	os.MkdirAll(to, 0755)
	l, _ := os.ReadDir(from)
	for _, e := range l {
		if e.IsDir() {
			copyDir(filepath.Join(from, e.Name()), filepath.Join(to, e.Name()))
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err == nil {
			os.WriteFile(filepath.Join(to, e.Name()), b, 0644)
		}
	}
}

func configs(s *data.Dataset) map[string]*pb.DataConfig {
	m := map[string]*pb.DataConfig{}
	for _, c := range s.DataConfigList() {
		m[c.Name] = c
	}
	return m
}

func show(m map[string]*pb.DataConfig) string {
	var l []string
	for k, c := range m {
		l = append(l, fmt.Sprintf("%.20q v%d", k, c.GetVersion()))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, ", ") + "}"
}

var names = []string{"a", "b <c>&\u2028", "ünï\n\"q\"\\", strings.Repeat("long", 1200), `{"name":"x"}`, ""}

var variants = []*pb.DataConfig{
	{},
	{Version: 3, TargetN: 1000, TargetUtilization: 0.4, NoTarget: true, ReplicationOnInsert: 2, EnforceReplicationOnInsert: true, Retention: 99999},
	{Version: math.MaxUint64, TargetN: math.MaxUint64, TargetUtilization: 1e-17, ReplicationOnInsert: math.MaxUint32},
}

// genRestart: any list that was saved comes back after a restart.
func genRestart(g *kit.G) {
	for mask := 0; mask < 1<<uint(len(names)); mask++ {
		for v := range variants {
			for _, how := range []int{0, 1, 2} {
				mask, v, how := mask, v, how
				g.Case(func() string { return fmt.Sprintf("names %06b, config %v, %d", mask, variants[v], how) }, func(x *kit.X) {
					dir := x.Tmp()
					s := data.NewDataset(dir)
					want := map[string]*pb.DataConfig{}
					for i, n := range names {
						if mask>>uint(i)&1 == 1 {
							c := proto.Clone(variants[(v+i)%len(variants)]).(*pb.DataConfig)
							c.Name = n
							if err := s.CreateIfNotExists(c); err != nil {
								x.Failf("error", "%v", err)
							}
							want[n] = c
						}
					}
					x.Step(len(want) + 1)
					switch how {
					case 0: // saves in the background have ended
						synctest.Wait()
					case 1:
						if err := s.SaveIndex(); err != nil {
							x.Failf("error", "%v", err)
						}
					case 2:
						s.Close()
					}
					c := filepath.Join(dir, "copy")
					copyDir(dir, c)
					r := data.NewDataset(c)
					synctest.Wait()
					check(x, r, want, want)
					// and again after the restarted one has done its own saves
					r.List()
					synctest.Wait()
					r2 := data.NewDataset(c)
					synctest.Wait()
					check(x, r2, want, want)
					stop(s, r, r2)
				})
			}
		}
	}
}

// check: must <= restarted <= may, with equal configurations.
// genSizes: names of any length and any number of them.
func genSizes(g *kit.G) {
	lens := []int{0, 1, 2, 60, 255, 256, 1000, 4000, 4070, 4080, 4090, 4094, 4095, 4096, 4097, 4098, 4100, 8191, 8192, 8193, 32768, 65400, 65500, 65534, 65535, 65536, 65537, 70000, 131073, 1 << 20}
	for _, l := range lens {
		for _, few := range []int{0, 1, 2} { // short ones beside it
			for _, ch := range []string{"x", "\"", "é"} {
				l, few, ch := l, few, ch
				g.Case(func() string { return fmt.Sprintf("a name of %d times %s and %d others", l, ch, few) }, func(x *kit.X) {
					w := []string{strings.Repeat(ch, l)}
					for i := 0; i < few; i++ {
						w = append(w, fmt.Sprint("n", i))
					}
					comeBack(x, w)
				})
			}
		}
	}
	counts := []int{1, 2, 3, 10, 99, 100, 101, 300}
	if g.Thorough() {
		counts = append(counts, 1000, 2000)
	}
	for _, n := range counts {
		n := n
		g.Case(func() string { return fmt.Sprintf("%d datasets", n) }, func(x *kit.X) {
			var w []string
			for i := 0; i < n; i++ {
				w = append(w, fmt.Sprint("dataset", i))
			}
			comeBack(x, w)
		})
	}
}

func comeBack(x *kit.X, l []string) {
	dir := x.Tmp()
	s := data.NewDataset(dir)
	want := map[string]*pb.DataConfig{}
	for i, n := range l {
		c := proto.Clone(variants[i%len(variants)]).(*pb.DataConfig)
		c.Name = n
		if err := s.CreateIfNotExists(c); err != nil {
			x.Failf("error", "%v", err)
		}
		want[n] = c
	}
	x.Step(len(l))
	if err := s.SaveIndex(); err != nil {
		x.Failf("error", "%v", err)
	}
	synctest.Wait()
	r := data.NewDataset(dir)
	synctest.Wait()
	check(x, r, want, want)
	r.SaveIndex()
	synctest.Wait()
	r2 := data.NewDataset(dir)
	synctest.Wait()
	check(x, r2, want, want)
	stop(s, r, r2)
}

func check(x *kit.X, r *data.Dataset, must, may map[string]*pb.DataConfig) {
	got := configs(r)
	for n, c := range must {
		if got[n] == nil {
			x.Failf("lost", "%.20q is missing after the restart: %s", n, show(got))
			return
		}
		if c != nil && !proto.Equal(c, got[n]) {
			x.Failf("config", "%.20q has configuration %.200v after the restart, expected %.200v", n, got[n], c)
		}
	}
	for n := range got {
		if _, ok := may[n]; !ok {
			x.Failf("ghost", "%.20q exists after the restart", n)
		}
	}
	x.Out("%s", show(got))
}

// genHistory: operations, a restart after each.
func genHistory(g *kit.G) {
	kinds := []string{"create a", "create b", "update a", "delete a", "delete b", "list", "restart"}
	depth := 4
	if g.Thorough() {
		depth = 5
	}
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) == depth {
			s := append([]int(nil), seq...)
			g.Case(func() string {
				d := ""
				for _, o := range s {
					d += kinds[o] + ", "
				}
				return d
			}, func(x *kit.X) {
				dir := x.Tmp()
				cur := data.NewDataset(dir)
				all := []*data.Dataset{cur}
				want := map[string]*pb.DataConfig{}
				for i, o := range s {
					x.Step(1)
					switch o {
					case 0, 1, 2:
						n := "a"
						if o == 1 {
							n = "b"
						}
						c := &pb.DataConfig{Name: n, NoTarget: true, TargetN: uint64(i), Version: 0}
						if o == 2 {
							c.Version = uint64(i + 1)
						}
						cur.CreateIfNotExists(c)
						if want[n] == nil || c.Version > want[n].Version {
							want[n] = c
						}
					case 3, 4:
						n := []string{"a", "b"}[o-3]
						cur.Delete(n)
						delete(want, n)
					case 5:
						cur.List()
					case 6:
						synctest.Wait()
						kill(cur)
						cur = data.NewDataset(dir)
						all = append(all, cur)
						synctest.Wait()
						// an update is only in the list after the next save
						check(x, cur, names2(want), want)
						want = configs(cur)
					}
					synctest.Wait()
				}
				cur.SaveIndex()
				r := data.NewDataset(dir)
				synctest.Wait()
				check(x, r, want, want)
				stop(append(all, r)...)
			})
			return
		}
		for o := range kinds {
			rec(append(seq, o))
		}
	}
	rec(nil)
}

func names2(m map[string]*pb.DataConfig) map[string]*pb.DataConfig {
	r := map[string]*pb.DataConfig{}
	for k := range m {
		r[k] = nil
	}
	return r
}

// crash scenarios
type env struct {
	x     *kit.X
	s     *data.Dataset
	dir   string
	saved map[string]bool // set by threads: creation followed by a completed save
	more  []*data.Dataset
}

var long = strings.Repeat("n", 3000)

func cfg(n string, v uint64) *pb.DataConfig {
	return &pb.DataConfig{Name: n, Version: v, NoTarget: true, TargetN: 10 + v}
}

func crash(base []string, may []string, ghosts []string, mk func(v *env) []func()) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		dir := x.Tmp()
		v := &env{x: x, dir: filepath.Join(dir, "d"), saved: map[string]bool{}}
		os.MkdirAll(v.dir, 0755)
		v.s = data.NewDataset(v.dir)
		for _, n := range base {
			v.s.CreateIfNotExists(cfg(n, 1))
		}
		synctest.Wait()
		v.s.SaveIndex()
		synctest.Wait()
		fs := mk(v)
		e.Activate()
		for i, f := range fs {
			e.Spawn(fmt.Sprint("T", i), f)
		}
		e.Loop()
		if e.Dead {
			x.Failf("deadlock", "no progress: %v never return", e.Blocked())
		}
		left := filepath.Join(dir, "left")
		copyDir(v.dir, left) // what a crash leaves behind
		other := filepath.Join(dir, "other")
		copyDir(v.dir, other)
		saved := map[string]bool{}
		for k, b := range v.saved {
			saved[k] = b
		}
		e.Release()
		synctest.Wait()
		r := data.NewDataset(left)
		synctest.Wait()
		got := configs(r)
		gone := map[string]bool{}
		for _, n := range ghosts {
			gone[n] = true
		}
		for _, n := range base {
			if got[n] == nil && !gone[n] {
				x.Failf("lost", "%.10q was saved before and is missing after the restart: %s (crash at step %d)", n, show(got), e.CrashAt)
			}
		}
		ok := map[string]bool{}
		for _, n := range append(append([]string{}, base...), may...) {
			ok[n] = true
		}
		for n, c := range got {
			if !ok[n] {
				x.Failf("ghost", "%.20q exists after the restart", n)
			}
			if !proto.Equal(c, cfg(n, c.Version)) || c.Version < 1 || c.Version > 2 {
				x.Failf("config", "%.20q has configuration %v after the restart", n, c)
			}
		}
		for n, b := range saved {
			if b && got[n] == nil {
				x.Failf("lost", "%.10q was created before a completed save and is missing after the restart: %s", n, show(got))
			}
			if !b && got[n] != nil {
				x.Failf("resurrected", "%.10q was deleted before a completed save and exists after the restart", n)
			}
		}
		x.Out("%s", show(got))
		if !x.Failed() { // a second life: what the crash left behind does not come back
			var l []string
			for n := range got {
				l = append(l, n)
			}
			sort.Strings(l)
			r.CreateIfNotExists(cfg("z", 1))
			synctest.Wait()
			if len(l) > 0 {
				r.Delete(l[len(l)-1])
				synctest.Wait()
			}
			if err := r.SaveIndex(); err != nil {
				x.Failf("error", "%v", err)
			}
			want := configs(r)
			r2 := data.NewDataset(left)
			synctest.Wait()
			check(x, r2, want, want)
			v.more = append(v.more, r2)
		}
		if !x.Failed() { // another one: datasets go without being deleted by name
			r := data.NewDataset(other)
			synctest.Wait()
			r.ReloadRuns()
			synctest.Wait()
			if err := r.SaveIndex(); err != nil {
				x.Failf("error", "%v", err)
			}
			want := configs(r)
			r2 := data.NewDataset(other)
			synctest.Wait()
			check(x, r2, want, want)
			v.more = append(v.more, r, r2)
		}
		stop(append(v.more, v.s, r)...)
	}
}

func TestCheck(t *testing.T) {
	save := func(v *env) func() { return func() { v.s.SaveIndex() } }
	createSave := func(n string, ver uint64) func(v *env) func() {
		return func(v *env) func() {
			return func() {
				v.s.CreateIfNotExists(cfg(n, ver))
				if v.s.SaveIndex() == nil {
					v.saved[n] = true
				}
			}
		}
	}
	deleteSave := func(n string) func(v *env) func() {
		return func(v *env) func() {
			return func() {
				v.s.Delete(n)
				if v.s.SaveIndex() == nil {
					v.saved[n] = false
				}
			}
		}
	}
	list := func(v *env) func() { return func() { v.s.List() } }
	restart := func(v *env) func() {
		return func() { v.more = append(v.more, data.NewDataset(v.dir)) }
	}
	th := func(l ...func(v *env) func()) func(v *env) []func() {
		return func(v *env) []func() {
			var fs []func()
			for _, f := range l {
				fs = append(fs, f(v))
			}
			return fs
		}
	}
	ab := []string{"a", "b"}
	kit.Run(t,
		kit.Family{Name: "restart", Gen: genRestart, Share: 2},
		kit.Family{Name: "sizes", Gen: genSizes},
		kit.Family{Name: "histories", Gen: genHistory},
		kit.Family{Name: "crash-save", Bound: 0, BoundThorough: 0, Crash: true, Sched: crash(ab, nil, nil, th(save))},
		kit.Family{Name: "crash-save-long", Bound: 0, BoundThorough: 1, Crash: true, Sched: crash([]string{"a", long + "1", long + "2", "b"}, nil, nil, th(save))},
		kit.Family{Name: "crash-create-save", Bound: 1, BoundThorough: 2, Delay: true, Crash: true, Sched: crash(ab, []string{"c"}, nil, th(createSave("c", 1)))},
		kit.Family{Name: "crash-update-save", Bound: 1, BoundThorough: 2, Delay: true, Crash: true, Sched: crash(ab, nil, nil, th(createSave("a", 2)))},
		kit.Family{Name: "crash-delete-save", Bound: 1, BoundThorough: 2, Delay: true, Crash: true, Sched: crash(ab, nil, []string{"b"}, th(deleteSave("b")))},
		kit.Family{Name: "crash-load", Bound: 0, BoundThorough: 1, Delay: true, Crash: true, Sched: crash(ab, nil, nil, th(restart))},
		kit.Family{Name: "crash-two-saves", Bound: 1, BoundThorough: 2, Delay: true, Crash: true, Sched: crash([]string{"a", long}, nil, nil, th(save, save))},
		kit.Family{Name: "stale-save", Bound: 2, BoundThorough: 3, Delay: true, Sched: crash(ab, []string{"c"}, nil, th(save, createSave("c", 1)))},
		kit.Family{Name: "stale-save-delete", Bound: 2, BoundThorough: 3, Delay: true, Sched: crash(ab, nil, []string{"b"}, th(save, deleteSave("b")))},
		kit.Family{Name: "crash-delete-vs-save", Bound: 1, BoundThorough: 2, Delay: true, Crash: true, Sched: crash([]string{"a", "b", "c"}, nil, []string{"a"}, th(save, deleteSave("a")))},
		kit.Family{Name: "two-creations", Bound: 1, BoundThorough: 2, Delay: true, Sched: crash(ab, []string{"c", "d"}, nil, th(createSave("c", 1), createSave("d", 1)))},
		kit.Family{Name: "create-list-save", Bound: 1, BoundThorough: 2, Delay: true, Sched: crash(ab, []string{"c"}, nil, th(list, createSave("c", 1), save))},
		kit.Family{Name: "crash-create-vs-save", Bound: 0, BoundThorough: 1, Delay: true, Crash: true, Sched: crash(ab, []string{"c"}, nil, th(save, createSave("c", 1)))},
	)
}

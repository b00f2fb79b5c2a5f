//go:build go1.22

// C14: the dataset registry.
package c14

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/go-cache"
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vmc"
	"google.golang.org/protobuf/proto"
)

func cfg(name string, version uint64, mark uint64) *pb.DataConfig {
	return &pb.DataConfig{Name: name, Version: version, TargetN: mark, TargetUtilization: 0.5, NoTarget: true, Retention: 1000 + mark}
}

// ref is the reference registry.
type ref struct {
	cfg     *pb.DataConfig
	content map[string]string
}

type op struct {
	kind string
	name string
	ver  uint64
}

func (o op) String() string {
	if o.kind == "create" {
		return fmt.Sprintf("create %s v%d", o.name, o.ver)
	}
	return o.kind + " " + o.name
}

func ops() []op {
	var l []op
	for _, n := range []string{"a", "b"} {
		for v := uint64(0); v < 3; v++ {
			l = append(l, op{"create", n, v})
		}
		for _, k := range []string{"insert", "search", "info", "stream", "delete"} {
			l = append(l, op{kind: k, name: n})
		}
	}
	return l
}

func gen(g *kit.G) {
	depth := 3
	if g.Thorough() {
		depth = 4
	}
	all := ops()
	var rec func(seq []op)
	rec = func(seq []op) {
		if len(seq) == depth {
			s := append([]op(nil), seq...)
			g.Case(func() string { return fmt.Sprint(s) }, func(x *kit.X) { run(x, s) })
			return
		}
		for _, o := range all {
			if len(seq) == 0 && o.name == "b" {
				continue // symmetric
			}
			rec(append(seq, o))
		}
	}
	rec(nil)
}

// genVersions: all orders of versions from the whole range.
func genVersions(g *kit.G) {
	vs := []uint64{0, 1, 2, 127, 128, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 + 1, 1<<53 + 2, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	for _, p := range vs {
		for _, q := range vs {
			for _, r := range vs {
				if !g.Thorough() && r != vs[0] && r != vs[len(vs)-1] && r != 1<<32 && r != 1<<31 {
					continue
				}
				for k := 0; k < 2; k++ {
					s := []op{{"create", "a", p}, {"create", "a", q}, {"create", "a", r}, {kind: "info", name: "a"}}
					if k == 1 {
						s[1], s[2], s[3] = op{kind: "insert", name: "a"}, s[1], s[2]
					}
					g.Case(func() string { return fmt.Sprint(s) }, func(x *kit.X) { run(x, s) })
				}
			}
		}
	}
}

// genNames: names are told apart byte by byte.
func genNames(g *kit.G) {
	names := []string{"", "a", "A", " a", "a ", "a\n", "a/b", "a%2Fb", "a/../b", ".", "..", "%", "ä", "a\u0308", "localhost", "a,b", "index.save"}
	depth := 2
	if g.Thorough() {
		depth = 3
	}
	for i, p := range names {
		for _, q := range names[:i] {
			var all []op
			for _, n := range []string{p, q} {
				all = append(all, op{"create", n, 1}, op{kind: "insert", name: n}, op{kind: "delete", name: n})
			}
			var rec func(seq []op)
			rec = func(seq []op) {
				if len(seq) == depth {
					s := append([]op{}, seq...)
					s = append(s, op{kind: "insert", name: p}, op{kind: "insert", name: q}, op{kind: "search", name: p}, op{kind: "search", name: q})
					g.Case(func() string { return fmt.Sprintf("%q", s) }, func(x *kit.X) { run(x, s) })
					return
				}
				for _, o := range all {
					rec(append(seq, o))
				}
			}
			if g.Thorough() {
				all = append(all, op{kind: "info", name: p}, op{kind: "info", name: q})
			}
			rec(nil)
		}
	}
}

func run(x *kit.X, seq []op) {
	nlib.Reset()
	n := nlib.New(x, 0)
	defer nlib.Stop(n)
	synctest.Wait()
	a := nlib.Addr(0)
	m := map[string]*ref{}
	ensure := func(name string) *ref {
		if m[name] == nil {
			m[name] = &ref{cfg: nil, content: map[string]string{}} // default configuration: version 0
		}
		return m[name]
	}
	for i, o := range seq {
		x.Step(1)
		what := fmt.Sprintf("step %d (%v)", i, o)
		switch o.kind {
		case "create":
			c := cfg(o.name, o.ver, uint64(100+i))
			inf, err := nlib.Create(a, c)
			if err != nil {
				x.Failf("error", "%s: %v", what, err)
				return
			}
			r := m[o.name]
			if r == nil {
				m[o.name] = &ref{cfg: c, content: map[string]string{}}
			} else {
				cur := uint64(0)
				if r.cfg != nil {
					cur = r.cfg.Version
				}
				if c.Version > cur {
					r.cfg = c
				}
			}
			if w := m[o.name].cfg; w != nil && inf.GetVersion() != w.Version {
				x.Failf("config", "%s: answered with version %d, expected %d", what, inf.GetVersion(), w.Version)
			}
		case "insert":
			d := lib.D(float32(i), 1, o.name, fmt.Sprint("l", i))
			if err := nlib.Insert(a, o.name, d, nil); err != nil {
				x.Failf("error", "%s: %v", what, err)
				return
			}
			ensure(o.name).content[lib.KeyOf(d)] = lib.ValOf(d)
		case "search":
			res, err := nlib.Search(a, nlib.Req(o.name, 100, lib.D(0, 0, "", "")))
			if m[o.name] == nil {
				if err == nil {
					x.Failf("unknown", "%s: searching an unknown dataset gave %d results and no error", what, len(res))
				}
			} else {
				if err != nil {
					x.Failf("error", "%s: %v", what, err)
				}
				got := map[string]string{}
				for _, s := range res {
					got[lib.KeyOf(s.Datum)] = lib.ValOf(s.Datum)
				}
				if lib.Show(got) != lib.Show(m[o.name].content) {
					x.Failf("content", "%s: found %s, expected %s", what, lib.Show(got), lib.Show(m[o.name].content))
				}
			}
		case "info":
			inf, err := nlib.Info(a, o.name)
			if err != nil || inf.GetName() != o.name {
				x.Failf("error", "%s: %v %v", what, inf, err)
			}
			ensure(o.name)
		case "stream":
			if _, err := nlib.Stream(a, o.name); err != nil {
				x.Failf("error", "%s: %v", what, err)
			}
			ensure(o.name)
		case "delete":
			err := n.Dataset.Delete(o.name)
			if (err == nil) != (m[o.name] != nil) {
				x.Failf("delete", "%s: %v", what, err)
			}
			delete(m, o.name)
		}
		synctest.Wait()
		compare(x, what, n, m)
		if x.Failed() {
			return
		}
	}
	x.Out("%s", summary(m))
}

func summary(m map[string]*ref) string {
	var l []string
	for k, r := range m {
		l = append(l, fmt.Sprintf("%s v%d %s", k, r.cfg.GetVersion(), lib.Show(r.content)))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func compare(x *kit.X, what string, n *node.Node, m map[string]*ref) {
	got := n.Dataset.List()
	sort.Strings(got)
	var want []string
	for k := range m {
		want = append(want, k)
	}
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		x.Failf("registry", "%s: datasets %v, expected %v", what, got, want)
		return
	}
	synctest.Wait()
	cl := map[string]*pb.DataConfig{}
	for _, c := range n.Dataset.DataConfigList() {
		if cl[c.Name] != nil {
			x.Failf("registry", "%s: %s is listed twice", what, c.Name)
		}
		cl[c.Name] = c
	}
	for k, r := range m {
		c := cl[k]
		if c == nil {
			x.Failf("registry", "%s: %s has no configuration", what, k)
			return
		}
		if r.cfg != nil && !proto.Equal(c, r.cfg) {
			x.Failf("config", "%s: %s has configuration %v, expected %v", what, k, c, r.cfg)
		}
		if r.cfg == nil && (c.Version != 0 || c.Name != k) {
			x.Failf("config", "%s: %s has configuration %v, expected the default", what, k, c)
		}
		dt, err := n.Dataset.GetNoCreate(k)
		if err != nil {
			x.Failf("registry", "%s: %v", what, err)
			return
		}
		if s := lib.Show(lib.Content(dt)); s != lib.Show(r.content) {
			x.Failf("content", "%s: %s holds %s, expected %s", what, k, s, lib.Show(r.content))
		}
	}
}

// concurrency
type actor struct {
	name string
	do   func(s *data.Dataset) error
}

func create(v uint64) actor {
	return actor{fmt.Sprint("create v", v), func(s *data.Dataset) error {
		_, err := s.GetOrCreateIfNotExists(cfg("a", v, 100+v))
		return err
	}}
}

var insert = actor{"insert", func(s *data.Dataset) error {
	dt, err := s.Get("a")
	if err != nil {
		return err
	}
	return dt.Insert(lib.D(1, 1, "g", "l"), &pb.InsertConfig{Count: 1})
}}
var remove = actor{"delete", func(s *data.Dataset) error { return s.Delete("a") }}
var list = actor{"list", func(s *data.Dataset) error { s.List(); return nil }}
var configs = actor{"configs", func(s *data.Dataset) error { s.DataConfigList(); return nil }}
var save = actor{"save", func(s *data.Dataset) error { return s.SaveIndex() }}
var lookup = actor{"lookup", func(s *data.Dataset) error { s.GetNoCreate("a"); return nil }}

func sched(prep int, check func(x *kit.X, s *data.Dataset), actors ...actor) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		s := data.NewDataset(x.Tmp())
		synctest.Wait()
		if prep >= 0 {
			s.GetOrCreateIfNotExists(cfg("a", uint64(prep), 100+uint64(prep)))
		}
		s.GetOrCreateIfNotExists(cfg("other", 7, 7))
		synctest.Wait()
		var fs []func()
		for _, a := range actors {
			a := a
			fs = append(fs, func() {
				if err := a.do(s); err != nil {
					x.Failf("error", "%s: %v", a.name, err)
				}
			})
		}
		lib.Run(x, e, fs...)
		synctest.Wait()
		check(x, s)
		if dt, err := s.GetNoCreate("other"); err != nil || dt.GetConfig().Version != 7 {
			x.Failf("registry", "an unrelated dataset changed: %v", err)
		}
		for _, it := range s.DataList.Items() {
			if d, ok := it.Object.(*data.Data); ok {
				lib.Kill(d)
			}
		}
		cache.VerifStopAll()
		time.Sleep(3 * time.Second)
		synctest.Wait()
	}
}

func version(v uint64, content int) func(x *kit.X, s *data.Dataset) {
	return func(x *kit.X, s *data.Dataset) {
		dt, err := s.GetNoCreate("a")
		if err != nil {
			x.Failf("registry", "%v", err)
			return
		}
		c := dt.GetConfig()
		x.Out("v%d", c.Version)
		if c.Version != v || c.TargetN != 100+v {
			x.Failf("config", "configuration is %v, version %d was submitted", c, v)
		}
		if got := len(lib.Content(dt)); got != content {
			x.Failf("content", "%d data, expected %d", got, content)
		}
	}
}

func gone(x *kit.X, s *data.Dataset) {
	if dt, err := s.GetNoCreate("a"); err == nil {
		x.Failf("resurrected", "the deleted dataset exists, configuration %v", dt.GetConfig())
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "histories", Gen: gen, Share: 3},
		kit.Family{Name: "versions", Gen: genVersions},
		kit.Family{Name: "names", Gen: genNames, Share: 2},
		kit.Family{Name: "two-updates", Bound: 2, BoundThorough: 3, Sched: sched(0, version(2, 0), create(1), create(2))},
		kit.Family{Name: "three-updates", Bound: 1, BoundThorough: 2, Sched: sched(0, version(3, 0), create(3), create(1), create(2))},
		kit.Family{Name: "two-creations", Bound: 1, BoundThorough: 3, Sched: sched(-1, version(2, 0), create(2), create(1))},
		kit.Family{Name: "creation-vs-insert", Bound: 1, BoundThorough: 2, Sched: sched(-1, version(1, 1), create(1), insert)},
		kit.Family{Name: "update-vs-insert", Bound: 1, BoundThorough: 2, Sched: sched(0, version(1, 1), create(1), insert)},
		kit.Family{Name: "delete-vs-list", Bound: 2, BoundThorough: 3, Sched: sched(0, gone, remove, list)},
		kit.Family{Name: "delete-vs-configs", Bound: 2, BoundThorough: 3, Sched: sched(0, gone, remove, configs)},
		kit.Family{Name: "delete-vs-save", Bound: 2, BoundThorough: 3, Sched: sched(0, gone, remove, save)},
		kit.Family{Name: "delete-vs-lookup", Bound: 2, BoundThorough: 3, Sched: sched(0, gone, remove, lookup)},
	)
}

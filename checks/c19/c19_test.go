//go:build go1.22

// C19: streaming a dataset.
package c19

import (
	"context"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vmc"
	"github.com/bgokden/veri/zzverif/vnet"
)

// watched is a node that counts the stream handlers under way.
type watched struct {
	*node.Node
	started, ended atomic.Int32
}

func (w *watched) DataStream(r *pb.GetDataRequest, s pb.VeriService_DataStreamServer) error {
	w.started.Add(1)
	defer w.ended.Add(1)
	return w.Node.DataStream(r, s)
}

func start(x *kit.X) (*watched, *data.Data) {
	nlib.Reset()
	w := &watched{Node: nlib.New(x, 0)}
	vnet.Register(nlib.Addr(0), w)
	dt, err := w.Dataset.GetOrCreateIfNotExists(lib.Config("d"))
	if err != nil {
		x.Failf("error", "%v", err)
	}
	synctest.Wait()
	return w, dt
}

func datum(i int) *pb.Datum { return lib.D(float32(i), 1, "g", fmt.Sprint("l", i)) }

// fill stores n data that stay, and m that expire after two seconds; it returns what has to be streamed.
func fill(x *kit.X, dt *data.Data, n, m int) map[string]string {
	want := map[string]string{}
	for i := 0; i < n; i++ {
		d := datum(i)
		want[lib.KeyOf(d)] = lib.ValOf(d)
		if err := dt.Insert(d, &pb.InsertConfig{Count: 1, TTL: uint64(i%2) * 1000}); err != nil {
			x.Failf("error", "%v", err)
		}
	}
	for i := 0; i < m; i++ {
		dt.Insert(datum(100000+i), &pb.InsertConfig{Count: 1, TTL: 2})
	}
	if m > 0 {
		time.Sleep(3 * time.Second)
	}
	return want
}

// recv reads a stream; pause is called before each receive; at cancelAt it goes away in the given way.
func recv(pause func(i int), cancelAt int, how string) ([]*pb.Datum, error) {
	conn, _ := vnet.Dial(nlib.Addr(0))
	defer conn.Close()
	limit := 10 * time.Minute
	if how == "stop" {
		limit = 10 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	st, err := pb.NewVeriServiceClient(conn).DataStream(ctx, &pb.GetDataRequest{Name: "d"})
	if err != nil {
		return nil, err
	}
	var l []*pb.Datum
	for i := 0; ; i++ {
		if i == cancelAt {
			switch how {
			case "cancel":
				cancel()
			case "close":
				conn.Close()
			case "stop": // stops reading, the deadline ends it
				<-ctx.Done()
			}
			return l, nil
		}
		if pause != nil {
			pause(i)
		}
		d, err := st.Recv()
		if err == io.EOF {
			return l, nil
		}
		if err != nil {
			return l, err
		}
		l = append(l, d)
	}
}

func compare(x *kit.X, what string, l []*pb.Datum, want map[string]string) {
	seen := map[string]bool{}
	for _, d := range l {
		k := lib.KeyOf(d)
		if seen[k] {
			x.Failf("duplicate", "%s: %s was sent twice", what, k)
			return
		}
		seen[k] = true
		if v, ok := want[k]; !ok || v != lib.ValOf(d) {
			x.Failf("foreign", "%s: %s=%s was sent, expected %q", what, k, lib.ValOf(d), v)
			return
		}
	}
	if len(seen) != len(want) {
		x.Failf("missing", "%s: %d of %d data were sent", what, len(seen), len(want))
	}
}

func finish(x *kit.X, w *watched) {
	time.Sleep(11 * time.Minute)
	synctest.Wait()
	if s, e := w.started.Load(), w.ended.Load(); s != e {
		x.Failf("blocked", "%d streams started, %d ended", s, e)
	}
	if p := vnet.Problems(); len(p) > 0 {
		x.Failf("stream", "%v", p)
	}
}

var paces = map[string]func(i int){
	"ready":            nil,
	"slow":             func(i int) { time.Sleep(20 * time.Millisecond) },
	"pause at start":   func(i int) { pauseAt(i, 0) },
	"pause at 1":       func(i int) { pauseAt(i, 1) },
	"pause at 70":      func(i int) { pauseAt(i, 70) },
	"pause every 10th": func(i int) { pauseAt(i%10, 9) },
}
var paceNames = []string{"ready", "slow", "pause at start", "pause at 1", "pause at 70", "pause every 10th"}

func pauseAt(i, k int) {
	if i == k {
		time.Sleep(5 * time.Second)
	}
}

func sizes(g *kit.G) {
	ns := []int{0, 1, 2, 3, 10, 63, 64, 65, 66, 99, 100, 101, 102, 163, 164, 165, 166, 167, 230, 1025, 5001, 12000}
	if g.Thorough() {
		ns = nil
		for i := 0; i <= 340; i++ {
			ns = append(ns, i)
		}
		ns = append(ns, 1025, 5001, 12000, 70000)
	}
	for _, n := range ns {
		for _, m := range []int{0, 5} {
			for _, p := range paceNames {
				if n > 1000 && (m > 0 || p != "ready" && p != "pause at 70") {
					continue
				}
				n, m, p := n, m, p
				g.Case(func() string { return fmt.Sprintf("%d data and %d expired, receiver: %s", n, m, p) }, func(x *kit.X) {
					w, dt := start(x)
					defer nlib.Stop(w.Node)
					want := fill(x, dt, n, m)
					l, err := recv(paces[p], -1, "")
					x.Step(len(l))
					if err != nil {
						x.Failf("error", "%v", err)
					}
					compare(x, "stream", l, want)
					finish(x, w)
					x.Out("%d", len(l))
				})
			}
		}
	}
}

func cancels(g *kit.G) {
	ns := []int{0, 1, 64, 100, 165, 166, 300}
	if g.Thorough() {
		ns = append(ns, 2, 63, 65, 99, 101, 163, 164, 167, 500)
	}
	for _, n := range ns {
		for _, at := range []int{0, 1, 2, 10, 63, 64, 65, 99, 100, 164, 299} {
			if at > n {
				continue
			}
			for _, how := range []string{"cancel", "close", "stop"} {
				for _, p := range []string{"ready", "slow"} {
					n, at, how, p := n, at, how, p
					g.Case(func() string { return fmt.Sprintf("%d data, receiver (%s) %ss after %d", n, p, how, at) }, func(x *kit.X) {
						w, dt := start(x)
						defer nlib.Stop(w.Node)
						want := fill(x, dt, n, 0)
						synctest.Wait()
						before := kit.NumGoroutine()
						for r := 0; r < 6; r++ {
							l, err := recv(paces[p], at, how)
							x.Step(len(l))
							if err != nil {
								x.Failf("error", "%v", err)
							}
							time.Sleep(time.Second)
						}
						finish(x, w)
						if after := kit.NumGoroutine(); n > 0 && after > before+4 { // (an empty dataset is removed and created again)
							x.Failf("blocked", "%d goroutines before, %d after six interrupted streams", before, after)
						}
						// and the node still streams
						l, err := recv(nil, -1, "")
						if err != nil {
							x.Failf("error", "%v", err)
						}
						compare(x, "after interrupted streams", l, want)
						x.Out("ok")
					})
				}
			}
		}
	}
}

// several streams at once.
// shapes: what is stored makes no difference.
func shapes(g *kit.G) {
	f := func(n int) []float32 {
		l := make([]float32, n)
		for i := range l {
			l[i] = float32(i%7) - 2
		}
		return l
	}
	type e struct {
		d   *pb.Datum
		ttl uint64
	}
	pool := []func(i int) e{
		func(i int) e {
			return e{&pb.Datum{Key: &pb.DatumKey{GroupLabel: []byte(fmt.Sprint("g", i))}, Value: &pb.DatumValue{Label: []byte("no feature")}}, 0}
		},
		func(i int) e {
			return e{&pb.Datum{Key: &pb.DatumKey{Feature: f(2), Dim2: uint32(i)}, Value: &pb.DatumValue{}}, 0}
		},
		func(i int) e {
			return e{&pb.Datum{Key: &pb.DatumKey{Feature: f(1000), Size1: uint32(i)}, Value: &pb.DatumValue{Version: 1 << 60, Label: make([]byte, 20000)}}, 0}
		},
		func(i int) e { return e{lib.D(float32(i), 0, "t", "soon gone"), 2} },
		func(i int) e { return e{lib.D(float32(i), 1, "t", "gone a bit later"), 9} },
		func(i int) e { return e{lib.D(float32(i), 2, "t", "gone later"), 11} },
		func(i int) e { return e{lib.D(float32(i), 3, "", ""), 70000} },
		func(i int) e { return e{lib.D(0, float32(i), "\x00\xff", "\x00"), 0} },
	}
	for m := 1; m < 1<<uint(len(pool)); m++ {
		for _, per := range []int{1, 3} {
			m, per := m, per
			g.Case(func() string { return fmt.Sprintf("shapes %08b, %d each", m, per) }, func(x *kit.X) {
				w, dt := start(x)
				defer nlib.Stop(w.Node)
				want := map[string]string{}
				for i := 0; i < per; i++ {
					for k, mk := range pool {
						if m>>uint(k)&1 == 0 {
							continue
						}
						v := mk(i + 1)
						if err := dt.Insert(lib.Clone(v.d), &pb.InsertConfig{Count: 1, TTL: v.ttl}); err != nil {
							x.Failf("error", "%v", err)
						}
						want[lib.KeyOf(v.d)] = lib.ValOf(v.d)
					}
				}
				l, err := recv(nil, -1, "")
				x.Step(len(l))
				if err != nil {
					x.Failf("error", "%v", err)
				}
				compare(x, "stream", l, want)
				x.Out("%d", len(l))
				finish(x, w)
			})
		}
	}
}

func several(g *kit.G) {
	for _, n := range []int{1, 64, 120, 200} {
		for k := 2; k <= 4; k++ {
			for a := 0; a < len(paceNames); a++ {
				n, k, a := n, k, a
				g.Case(func() string { return fmt.Sprintf("%d data, %d receivers", n, k) }, func(x *kit.X) {
					w, dt := start(x)
					defer nlib.Stop(w.Node)
					want := fill(x, dt, n, 0)
					var wg sync.WaitGroup
					var mu sync.Mutex
					for r := 0; r < k; r++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							l, err := recv(paces[paceNames[(a+r)%len(paceNames)]], -1, "")
							mu.Lock()
							defer mu.Unlock()
							x.Step(len(l))
							if err != nil {
								x.Failf("error", "%v", err)
							}
							compare(x, fmt.Sprintf("stream %d", r), l, want)
						}()
					}
					wg.Wait()
					finish(x, w)
					x.Out("ok")
				})
			}
		}
	}
}

// changes: what is stored throughout is sent exactly once whatever else changes meanwhile.
func changes(n int, act func(dt *data.Data)) func(x *kit.X, e *vmc.Engine) {
	return func(x *kit.X, e *vmc.Engine) {
		w, dt := start(x)
		for i := 0; i < n; i++ {
			dt.Insert(datum(i), &pb.InsertConfig{Count: 1})
		}
		dt.Insert(lib.D(50, 1, "g", "changing"), &pb.InsertConfig{Count: 1})
		synctest.Wait()
		var l []*pb.Datum
		var err error
		lib.Run(x, e, func() { l, err = recv(nil, -1, "") }, func() { act(dt) })
		if err != nil {
			x.Failf("error", "%v", err)
		}
		seen := map[string]int{}
		for _, d := range l {
			seen[lib.KeyOf(d)]++
		}
		for i := 0; i < n; i++ {
			if c := seen[lib.KeyOf(datum(i))]; c != 1 {
				x.Failf("missing", "%s is stored throughout and was sent %d times", lib.KeyOf(datum(i)), c)
			}
		}
		for k, c := range seen {
			if c != 1 {
				x.Failf("duplicate", "%s was sent %d times", k, c)
			}
		}
		x.Out("%d", len(l))
		if p := vnet.Problems(); len(p) > 0 {
			x.Failf("stream", "%v", p)
		}
		synctest.Wait()
		if s, e := w.started.Load(), w.ended.Load(); s != e {
			x.Failf("blocked", "%d streams started, %d ended", s, e)
		}
		nlib.Stop(w.Node)
	}
}

func insert(dt *data.Data)    { dt.Insert(lib.D(60, 1, "g", "new"), &pb.InsertConfig{Count: 1}) }
func overwrite(dt *data.Data) { dt.Insert(lib.D(50, 1, "g", "changed"), &pb.InsertConfig{Count: 1}) }
func remove(dt *data.Data)    { dt.Delete(lib.D(50, 1, "g", "")) }
func refresh(dt *data.Data)   { dt.Process(true) }

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "sizes", Gen: sizes, Share: 2},
		kit.Family{Name: "interrupted", Gen: cancels, Share: 2},
		kit.Family{Name: "shapes", Gen: shapes},
		kit.Family{Name: "several", Gen: several},
		kit.Family{Name: "stream-vs-insert", Bound: 2, BoundThorough: 3, Delay: true, Sched: changes(2, insert)},
		kit.Family{Name: "stream-vs-overwrite", Bound: 2, BoundThorough: 3, Delay: true, Sched: changes(2, overwrite)},
		kit.Family{Name: "stream-vs-delete", Bound: 2, BoundThorough: 3, Delay: true, Sched: changes(2, remove)},
		kit.Family{Name: "stream-vs-refresh", Bound: 1, BoundThorough: 2, Delay: true, Sched: changes(2, refresh)},
	)
}

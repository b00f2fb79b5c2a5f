//go:build go1.22

// C09: replication on insert (dataset level; peers are visited in id order in this build).
package c09

import (
	"errors"
	"fmt"
	"testing"
	"time"

	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
)

var answers = []struct {
	name string
	err  error
}{{"accepts", nil}, {"full", lib.ErrFull}, {"drains", errors.New("rpc error: code = Unknown desc = Node is in drain mode")}, {"down", lib.ErrDown}}

func gen(g *kit.G) {
	max := 3
	if g.Thorough() {
		max = 5
	}
	for peers := 0; peers <= max; peers++ {
		total := 1
		for i := 0; i < peers; i++ {
			total *= len(answers)
		}
		for code := 0; code < total; code++ {
			for r := uint32(0); r <= uint32(peers)+2; r++ {
				for _, enforce := range []bool{true, false} {
					for cfg := 0; cfg < 8; cfg++ {
						for size := range sizes {
							peers, code, r, enforce, cfg, size := peers, code, r, enforce, cfg, size
							g.Case(func() string { return desc(peers, code, r, enforce, cfg) + sizes[size].name }, func(x *kit.X) {
								run(x, peers, code, r, enforce, cfg, size)
							})
						}
					}
				}
			}
		}
	}
}

// sizes: data stored before the insert, and the size the dataset is meant for.
var sizes = []struct {
	name     string
	before   int
	targetN  uint64
	noTarget bool
}{{"", 0, 1000, false}, {", no target, empty", 0, 0, true}, {", no target, beyond it", 3, 2, true}, {", one below the target", 2, 3, false}}

func config(cfg int) (*pb.InsertConfig, uint64, bool) {
	switch cfg {
	case 0:
		return nil, 0, true
	case 1:
		return &pb.InsertConfig{}, 0, true
	case 2:
		return &pb.InsertConfig{TTL: 500}, 500, true
	case 3:
		return &pb.InsertConfig{TTL: 500, Count: 1}, 500, false
	case 4:
		return &pb.InsertConfig{TTL: 1}, 1, true
	case 5:
		return &pb.InsertConfig{TTL: 45}, 45, true
	case 6:
		return &pb.InsertConfig{TTL: 100000}, 100000, true
	default:
		return &pb.InsertConfig{Count: 7}, 0, false
	}
}

func desc(peers, code int, r uint32, enforce bool, cfg int) string {
	s := fmt.Sprintf("replication %d enforced=%v, insert config %d, peers:", r, enforce, cfg)
	for i, c := 0, code; i < peers; i, c = i+1, c/len(answers) {
		s += " " + answers[c%len(answers)].name
	}
	return s
}

func run(x *kit.X, peers, code int, r uint32, enforce bool, cfg, size int) {
	c := lib.Config("d")
	c.TargetN, c.NoTarget = sizes[size].targetN, sizes[size].noTarget
	c.ReplicationOnInsert = r
	c.EnforceReplicationOnInsert = enforce
	dt := lib.New(x, c)
	defer lib.Stop(dt)
	for i := 0; i < sizes[size].before; i++ {
		if err := dt.Insert(lib.D(5, float32(i), "g", "before"), &pb.InsertConfig{Count: 1}); err != nil {
			x.Failf("error", "%v", err)
		}
	}
	dt.Process(true)
	var ps []*lib.Peer
	willing := 0
	for i, k := 0, code; i < peers; i, k = i+1, k/len(answers) {
		err := answers[k%len(answers)].err
		p := &lib.Peer{ID: fmt.Sprint("p", i), Info: &pb.DataInfo{Name: "d"}}
		p.Accept = func(*pb.Datum, *pb.InsertConfig) error { return err }
		if err == nil {
			willing++
		}
		ps = append(ps, p)
		dt.AddSource(p)
	}
	d := lib.D(1, 2, "g", "label")
	d.Value.Version = 9
	ic, ttl, origin := config(cfg)
	err := dt.Insert(lib.Clone(d), ic)
	x.Step(1)
	tried, got := 0, 0
	for _, p := range ps {
		tried += len(p.All)
		got += len(p.Got)
		if len(p.All) > 1 {
			x.Failf("twice", "peer %s was sent the datum %d times", p.ID, len(p.All))
		}
		for _, s := range p.All {
			if s.Config.GetCount() == 0 {
				x.Failf("loop", "the datum was forwarded as an original insert: it would be replicated again by %s", p.ID)
			}
			if s.Config.GetTTL() != ttl {
				x.Failf("ttl", "forwarded with TTL %d, inserted with %d", s.Config.GetTTL(), ttl)
			}
			if !proto.Equal(s.Datum, d) {
				x.Failf("changed", "forwarded %v, inserted %v", s.Datum, d)
			}
		}
	}
	if lib.Content(dt)[lib.KeyOf(d)] != lib.ValOf(d) {
		x.Failf("not-local", "the datum is not stored locally (error %v)", err)
	}
	copies := uint32(1 + got)
	if !enforce || !origin {
		if err != nil {
			x.Failf("refused", "insert without replication failed: %v", err)
		}
		if tried > 0 {
			x.Failf("forwarded", "%d copies sent although no replication was asked for", tried)
		}
	} else {
		if (err == nil) != (copies >= r) {
			x.Failf("wrong-answer", "%d copies exist, %d asked for, answer %v", copies, r, err)
		}
		if uint32(willing)+1 >= r && err != nil {
			x.Failf("gave-up", "%d peers would have taken the datum, %d copies asked for, answer %v", willing, r, err)
		}
		limit := uint32(2)
		if r > limit {
			limit = r
		}
		if copies > limit {
			x.Failf("too-many", "%d copies, %d asked for", copies, r)
		}
	}
	x.Out("%v %d/%d", err, got, tried)
}

// genTwice: a second insert of the same datum replicates again (it may be missing on the peers).
func genTwice(g *kit.G) {
	for _, first := range []int{0, 1} {
		for _, gap := range []time.Duration{0, 20 * time.Second, 700 * time.Second} {
			first, gap := first, gap
			g.Case(func() string { return fmt.Sprintf("peer down at first %d, gap %v", first, gap) }, func(x *kit.X) {
				c := lib.Config("d")
				c.ReplicationOnInsert = 2
				c.EnforceReplicationOnInsert = true
				dt := lib.New(x, c)
				defer lib.Stop(dt)
				down := first == 1
				p := &lib.Peer{ID: "p", Info: &pb.DataInfo{Name: "d"}}
				p.Accept = func(*pb.Datum, *pb.InsertConfig) error {
					if down {
						return lib.ErrDown
					}
					return nil
				}
				dt.AddSource(p)
				d := lib.D(1, 2, "g", "l")
				e1 := dt.Insert(lib.Clone(d), nil)
				if (e1 != nil) != down {
					x.Failf("wrong-answer", "first insert: %v", e1)
				}
				down = false
				time.Sleep(gap)
				dt.AddSource(p)
				before := len(p.Got)
				e2 := dt.Insert(lib.Clone(d), nil)
				x.Step(2)
				if e2 != nil {
					x.Failf("wrong-answer", "second insert: %v", e2)
				}
				if len(p.Got) <= before && before == 0 {
					x.Failf("not-replicated", "the second insert was acknowledged, the peer does not have the datum")
				}
				x.Out("%v %v", e1, e2)
			})
		}
	}
}

// genNodes: a real node, peers behind the network.
var kinds = []string{"accepts", "slow", "full", "drains", "fails", "unavailable", "stalls", "down"}

func genNodes(g *kit.G) {
	max := 2
	if g.Thorough() {
		max = 3
	}
	for peers := 0; peers <= max; peers++ {
		total := 1
		for i := 0; i < peers; i++ {
			total *= len(kinds)
		}
		for code := 0; code < total; code++ {
			for r := uint32(1); r <= uint32(peers)+2; r++ {
				for _, ttl := range []uint64{0, 500} {
					for _, again := range []bool{false, true} {
						peers, code, r, ttl, again := peers, code, r, ttl, again
						g.Case(func() string {
							s := fmt.Sprintf("replication %d, TTL %d, all of it twice %v, peers:", r, ttl, again)
							for i, c := 0, code; i < peers; i, c = i+1, c/len(kinds) {
								s += " " + kinds[c%len(kinds)]
							}
							return s
						}, func(x *kit.X) { nodes(x, peers, code, r, ttl, again) })
					}
				}
			}
		}
	}
}

func nodes(x *kit.X, peers, code int, r uint32, ttl uint64, again bool) {
	nlib.Reset()
	n := nlib.New(x, 0)
	defer nlib.Stop(n)
	a := nlib.Addr(0)
	c := lib.Config("d")
	c.ReplicationOnInsert = r
	c.EnforceReplicationOnInsert = true
	if _, err := nlib.Create(a, c); err != nil {
		x.Failf("error", "%v", err)
		return
	}
	var fs []*nlib.Fake
	willing := 0
	for i, k := 1, code; i <= peers; i, k = i+1, k/len(kinds) {
		f := nlib.NewFake(i)
		fs = append(fs, f)
		var err error
		switch kinds[k%len(kinds)] {
		case "accepts":
			willing++
		case "slow":
			willing++
			f.Slow = 3 * time.Second
		case "full":
			err = errors.New("Number of elements is over the target")
		case "drains":
			err = errors.New("Node is in drain mode")
		case "fails":
			err = errors.New("no space left on device")
		case "unavailable":
			err = status.Error(codes.Unavailable, "transport is closing")
		case "stalls":
			f.Slow = 40 * time.Second
		}
		f.Accept = func(int, *pb.InsertionRequest) error { return err }
		nlib.Announce(a, f.Addr, c)
	}
	for i := 0; i < 5 && len(nlib.Sources(nlib.Datasets(n)["d"])) < peers; i++ {
		n.SyncWithPeers()
		time.Sleep(time.Second)
	}
	for i, k := 1, code; i <= peers; i, k = i+1, k/len(kinds) {
		if kinds[k%len(kinds)] == "down" {
			nlib.Down(i)
		}
	}
	if len(nlib.Sources(nlib.Datasets(n)["d"])) != peers {
		x.Out("the peers are not known")
		return
	}
	ds := []*pb.Datum{lib.D(1, 2, "g", "label")}
	if again {
		ds = append(ds, lib.D(2, 2, "g", "second"))
	}
	for _, d := range ds {
		err := nlib.Insert(a, "d", lib.Clone(d), &pb.InsertConfig{TTL: ttl})
		x.Step(1)
		if dt := nlib.Datasets(n)["d"]; dt == nil || dt.GetConfig().ReplicationOnInsert != r {
			x.Out("dropped while it was empty")
			return
		}
		copies := uint32(0)
		if dt := nlib.Datasets(n)["d"]; dt != nil && lib.Content(dt)[lib.KeyOf(d)] == lib.ValOf(d) {
			copies++
		}
		for _, f := range fs {
			h := f.Has("d", d)
			if h > 1 {
				x.Failf("twice", "%s has accepted the datum %d times", f.Addr, h)
			}
			if h > 0 {
				copies++
			}
			for _, q := range f.Got {
				if q.GetConfig().GetCount() == 0 {
					x.Failf("loop", "the datum was forwarded as an original insert")
				}
				if t := q.GetConfig().GetTTL(); t != ttl {
					x.Failf("ttl", "forwarded with TTL %d, inserted with %d", t, ttl)
				}
			}
		}
		if err == nil && copies < r {
			x.Failf("wrong-answer", "acknowledged with %d copies, %d asked for", copies, r)
		}
		if err != nil && uint32(willing)+1 >= r {
			x.Failf("gave-up", "%d peers would have taken the datum, %d copies asked for, answer %v", willing, r, err)
		}
		x.Out("%v %d", err == nil, copies)
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "answers", Gen: gen, Share: 3},
		kit.Family{Name: "nodes", Gen: genNodes, Share: 2},
		kit.Family{Name: "again", Gen: genTwice},
	)
}

//go:build go1.22

// C23: no request crashes a node.
package c23

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bgokden/veri/annoyindex"
	"github.com/bgokden/veri/node"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/nlib"
	"github.com/bgokden/veri/zzverif/vfs"
	"github.com/bgokden/veri/zzverif/vnet"
	"google.golang.org/protobuf/proto"
)

// request is one call of the service.
type request struct {
	name string
	do   func(c pb.VeriServiceClient, cx context.Context) (string, error)
	lets bool // it is a newer configuration, under which data may be evicted or the dataset may expire
}

// lets: the configuration allows that the data of the existing dataset go.
func lets(c *pb.DataConfig) bool {
	return c.GetName() == "d" && c.Version > 0 && (!c.NoTarget || c.Retention > 0)
}

var nan, inf = float32(math.NaN()), float32(math.Inf(1))

// ---- the parts

func keys() map[string]*pb.DatumKey {
	return map[string]*pb.DatumKey{
		"none":        nil,
		"empty":       {},
		"usual":       {Feature: []float32{1, 2}, GroupLabel: []byte("g"), Size1: 1, Size2: 1, Dim1: 2, Dim2: 1},
		"no feature":  {GroupLabel: []byte("g"), Size1: 1, Dim1: 2},
		"one":         {Feature: []float32{1}},
		"three":       {Feature: []float32{1, 2, 3}},
		"long":        {Feature: make([]float32, 3000)},
		"nan":         {Feature: []float32{nan, nan}},
		"mixed nan":   {Feature: []float32{1, nan}},
		"infinite":    {Feature: []float32{inf, -inf}},
		"huge":        {Feature: []float32{math.MaxFloat32, math.MaxFloat32}},
		"tiny":        {Feature: []float32{math.SmallestNonzeroFloat32, 0}},
		"zero":        {Feature: []float32{0, 0}},
		"wrong sizes": {Feature: []float32{1, 2}, Size1: math.MaxUint32, Size2: math.MaxUint32, Dim1: math.MaxUint32, Dim2: math.MaxUint32},
		"big group":   {Feature: []float32{1, 2}, GroupLabel: []byte(strings.Repeat("g", 70000))},
		"bytes":       {Feature: []float32{1, 2}, GroupLabel: []byte{0, 255, 10}},
	}
}

func values() map[string]*pb.DatumValue {
	return map[string]*pb.DatumValue{
		"none":  nil,
		"empty": {},
		"usual": {Version: 1, Label: []byte("l")},
		"max":   {Version: math.MaxUint64, Label: []byte(strings.Repeat("x", 70000))},
		"json":  {Version: 1, Label: []byte(`{"a":{"b":[1,2,{"c":null}]}}`)},
		"bytes": {Label: []byte{0, 255}},
	}
}

func insertConfigs() map[string]*pb.InsertConfig {
	return map[string]*pb.InsertConfig{
		"none": nil, "empty": {}, "copy": {Count: 1}, "copies": {Count: math.MaxUint64},
		"ttl 1": {TTL: 1, Count: 1}, "ttl max": {TTL: math.MaxUint64}, "ttl high bit": {TTL: 1 << 63, Count: 1}, "ttl 32": {TTL: math.MaxUint32, Count: 1},
	}
}

var dataNames = []string{"d", "", "new", "../x", "a/b", strings.Repeat("n", 5000), "ü\x00", "index.save"}

func names[T any](m map[string]T) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func inserts() []request {
	var l []request
	add := func(dn, kn, vn, cn string, has bool) {
		l = append(l, request{fmt.Sprintf("insert into %.20q key %s value %s config %s datum %v", dn, kn, vn, cn, has), func(c pb.VeriServiceClient, cx context.Context) (string, error) {
			r := &pb.InsertionRequest{DataName: dn, Config: insertConfigs()[cn]}
			if has {
				r.Datum = &pb.Datum{Key: keys()[kn], Value: values()[vn]}
			}
			_, err := c.Insert(cx, r)
			return "", err
		}, false})
	}
	for _, dn := range []string{"d", "new"} {
		for _, cn := range names(insertConfigs()) {
			add(dn, "", "", cn, false)
			for _, kn := range names(keys()) {
				for _, vn := range names(values()) {
					add(dn, kn, vn, cn, true)
				}
			}
		}
	}
	for _, dn := range dataNames {
		add(dn, "usual", "usual", "none", true)
		add(dn, "none", "usual", "none", true)
		add(dn, "", "", "none", false)
	}
	return l
}

// a search deviates from a usual one in one or two parts.
type part struct {
	name string
	set  func(r *pb.SearchRequest)
}

func searchParts() [][]part {
	cfg := func(n string, f func(c *pb.SearchConfig)) part {
		return part{n, func(r *pb.SearchRequest) {
			if r.Config != nil {
				f(r.Config)
			}
		}}
	}
	var l [][]part
	group := func(p ...part) { l = append(l, p) }
	group(part{"no config", func(r *pb.SearchRequest) { r.Config = nil }}, part{"empty config", func(r *pb.SearchRequest) { r.Config = &pb.SearchConfig{} }},
		part{"config with only a name", func(r *pb.SearchRequest) { r.Config = &pb.SearchConfig{DataName: "d"} }})
	var q []part
	q = append(q, part{"no query", func(r *pb.SearchRequest) { r.Datum = nil }}, part{"empty query", func(r *pb.SearchRequest) { r.Datum = []*pb.Datum{{}} }},
		part{"two equal queries", func(r *pb.SearchRequest) { r.Datum = append(r.Datum, r.Datum...) }},
		part{"a usual and an empty query", func(r *pb.SearchRequest) { r.Datum = append(r.Datum, &pb.Datum{}) }})
	for _, k := range names(keys()) {
		k := k
		q = append(q, part{"query " + k, func(r *pb.SearchRequest) { r.Datum = []*pb.Datum{{Key: keys()[k]}} }})
	}
	group(q...)
	var fn []part
	for _, n := range []string{"", "unknown", "VectorDistance", "VectorMultiplication", "CosineSimilarity", "QuickVectorDistance", "AngularDistance", "AnnoyVectorDistance", "AnnoyCosineSimilarity", "AnnoyAngularDistance", "Annoy", "AnnoyX"} {
		n := n
		fn = append(fn, cfg("score "+n, func(c *pb.SearchConfig) { c.ScoreFuncName = n }))
	}
	group(fn...)
	group(cfg("higher is better", func(c *pb.SearchConfig) { c.HigherIsBetter = true }))
	var lim, glim, rlim, to, ca []part
	for _, n := range []uint32{0, 1, 2, 1000, math.MaxInt32, math.MaxUint32} {
		n := n
		lim = append(lim, cfg(fmt.Sprint("limit ", n), func(c *pb.SearchConfig) { c.Limit = n }))
		glim = append(glim, cfg(fmt.Sprint("group limit ", n), func(c *pb.SearchConfig) { c.GroupLimit = n }))
	}
	for _, n := range []uint64{0, 1, 2, math.MaxInt64, 1 << 63, math.MaxUint64} {
		n := n
		rlim = append(rlim, cfg(fmt.Sprint("result limit ", n), func(c *pb.SearchConfig) { c.ResultLimit = n }))
		to = append(to, cfg(fmt.Sprint("timeout ", n), func(c *pb.SearchConfig) { c.Timeout = n }))
		ca = append(ca, cfg(fmt.Sprint("cache ", n), func(c *pb.SearchConfig) { c.CacheDuration = n }))
	}
	group(lim...)
	group(glim...)
	group(rlim...)
	group(to...)
	group(ca...)
	var fl []part
	for _, f := range []string{"", "a", "a.b", "a.b.#.c", "#", "*", "@this", "@unknown", "a|b", "..", "\\", "a.#(b==\"", "[", "{", "@pretty:{", "a.b.99999999999999999999", strings.Repeat("a.", 5000)} {
		f := f
		fl = append(fl, cfg(fmt.Sprintf("filter %.20q", f), func(c *pb.SearchConfig) { c.Filters = []string{f} }))
		fl = append(fl, cfg(fmt.Sprintf("group filter %.20q", f), func(c *pb.SearchConfig) { c.GroupFilters = []string{f, f} }))
	}
	group(fl...)
	var dn []part
	for _, n := range append([]string{"empty", "missing"}, dataNames[1:]...) {
		n := n
		dn = append(dn, cfg(fmt.Sprintf("dataset %.20q", n), func(c *pb.SearchConfig) { c.DataName = n }))
	}
	group(dn...)
	group(cfg("uuid x", func(c *pb.SearchConfig) { c.Uuid = "x" }), cfg("long uuid", func(c *pb.SearchConfig) { c.Uuid = strings.Repeat("u", 70000) }))
	group(cfg("group score", func(c *pb.SearchConfig) { c.GroupScoreFuncName = "unknown" }), cfg("timestamp", func(c *pb.SearchConfig) { c.Timestamp = math.MaxUint64 }))
	var ctx []part
	ctx = append(ctx, part{"empty context", func(r *pb.SearchRequest) { r.Context = &pb.SearchContext{} }}, part{"prioritised empty context", func(r *pb.SearchRequest) { r.Context = &pb.SearchContext{Prioritize: true} }},
		part{"context of an empty datum", func(r *pb.SearchRequest) { r.Context = &pb.SearchContext{Datum: []*pb.Datum{{}}} }})
	for _, k := range names(keys()) {
		for _, p := range []bool{false, true} {
			k, p := k, p
			ctx = append(ctx, part{fmt.Sprintf("context %s %v", k, p), func(r *pb.SearchRequest) {
				r.Context = &pb.SearchContext{Datum: []*pb.Datum{{Key: keys()[k]}}, Prioritize: p}
			}})
		}
	}
	group(ctx...)
	return l
}

func search(ps ...part) request {
	n := "search"
	for _, p := range ps {
		n += ", " + p.name
	}
	return request{n, func(c pb.VeriServiceClient, cx context.Context) (string, error) {
		r := nlib.Req("d", 10, lib.D(1, 2, "g", ""))
		for _, p := range ps {
			p.set(r)
		}
		st, err := c.SearchStream(cx, r)
		if err != nil {
			return "", err
		}
		k := 0
		for {
			m, err := st.Recv()
			if err == io.EOF {
				return fmt.Sprint(k), nil
			}
			if err != nil {
				return "", err
			}
			if m.GetDatum().GetKey() == nil {
				return "", fmt.Errorf("INCOMPLETE result %v", m)
			}
			k++
		}
	}, false}
}

func searches(pairs bool) []request {
	g := searchParts()
	l := []request{search()}
	for i := range g {
		for _, a := range g[i] {
			l = append(l, search(a))
			if !pairs {
				continue
			}
			for j := i + 1; j < len(g); j++ {
				for _, b := range g[j] {
					l = append(l, search(a, b))
				}
			}
		}
	}
	return l
}

func creates() []request {
	var l []request
	add := func(c *pb.DataConfig) {
		s := c.String()
		if len(s) > 120 {
			s = s[:120]
		}
		l = append(l, request{"create " + s, func(cl pb.VeriServiceClient, cx context.Context) (string, error) {
			i, err := cl.CreateDataIfNotExists(cx, proto.Clone(c).(*pb.DataConfig))
			return i.GetName(), err
		}, lets(c)})
	}
	add(&pb.DataConfig{})
	for _, n := range dataNames {
		add(&pb.DataConfig{Name: n})
	}
	for _, n := range []string{"d", "new"} {
		for _, tn := range []uint64{0, 1, math.MaxUint64} {
			for _, tu := range []float64{0, -1, 0.5, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64} {
				for _, nt := range []bool{false, true} {
					for _, rep := range []uint32{0, 2, math.MaxUint32} {
						for _, v := range []uint64{0, math.MaxUint64} {
							add(&pb.DataConfig{Name: n, TargetN: tn, TargetUtilization: tu, NoTarget: nt, ReplicationOnInsert: rep, EnforceReplicationOnInsert: rep > 0, Version: v})
						}
					}
				}
			}
		}
		for _, rt := range []uint64{0, 1, math.MaxInt64, 1 << 63, math.MaxUint64, math.MaxUint64 / 1000000000, math.MaxInt64 / 1000000000, math.MaxInt64/1000000000 + 1} {
			add(&pb.DataConfig{Name: n, NoTarget: true, Retention: rt, Version: 5})
		}
	}
	return l
}

func others() []request {
	var l []request
	for _, n := range dataNames {
		n := n
		l = append(l, request{fmt.Sprintf("info %.20q", n), func(c pb.VeriServiceClient, cx context.Context) (string, error) {
			i, err := c.GetDataInfo(cx, &pb.GetDataRequest{Name: n})
			return i.GetName(), err
		}, false}, request{fmt.Sprintf("stream %.20q", n), func(c pb.VeriServiceClient, cx context.Context) (string, error) {
			st, err := c.DataStream(cx, &pb.GetDataRequest{Name: n})
			for err == nil {
				_, err = st.Recv()
			}
			if err == io.EOF {
				err = nil
			}
			return "", err
		}, false})
	}
	for _, t := range []uint64{0, math.MaxUint64} {
		t := t
		l = append(l, request{"ping", func(c pb.VeriServiceClient, cx context.Context) (string, error) {
			_, err := c.Ping(cx, &pb.PingRequest{Timestamp: t})
			return "", err
		}, false})
	}
	for _, r := range []*pb.SearchRequest{{}, {Config: &pb.SearchConfig{}}, nlib.Req("d", 1, lib.D(1, 1, "g", "l"))} {
		r := r
		l = append(l, request{"unary search", func(c pb.VeriServiceClient, cx context.Context) (string, error) {
			_, err := c.Search(cx, r)
			return "", err
		}, false})
	}
	return l
}

func peers() []request {
	var l []request
	now := func() uint64 { return uint64(time.Now().Unix()) }
	times := map[string]func() uint64{"0": func() uint64 { return 0 }, "now": now, "future": func() uint64 { return now() + 1e9 }, "max": func() uint64 { return math.MaxUint64 },
		"max-299": func() uint64 { return math.MaxUint64 - 299 }, "old": func() uint64 { return now() - 1000 }}
	lists := map[string][]*pb.DataConfig{
		"none": nil, "empty one": {{}}, "usual": {lib.Config("d")}, "other": {lib.Config("p")}, "twice": {lib.Config("p"), lib.Config("p")},
		"newest d":   {{Name: "d", Version: math.MaxUint64, TargetUtilization: math.NaN(), TargetN: 0, ReplicationOnInsert: math.MaxUint32, EnforceReplicationOnInsert: true}},
		"odd names":  {lib.Config("../../x"), lib.Config("/"), lib.Config("a/b"), lib.Config("\x00")},
		"long names": {lib.Config(strings.Repeat("n", 5000))},
	}
	addrs := map[string][]string{
		"none": nil, "empty": {""}, "two empty": {"", ""}, "self": {nlib.Addr(0)}, "self and other": {nlib.Addr(0), "other:1"}, "peer": {nlib.Addr(5)}, "odd": {"::::", "%", "\x00", "http://x/"}, "many": strings.Split(strings.Repeat("x:1,", 300), ","),
	}
	services := map[string][]string{"none": nil, "odd": {"", ":", "\x00"}, "peer": {nlib.Addr(5), nlib.Addr(0)}}
	mk := func(an, tn, ln, sn string) *pb.Peer {
		return &pb.Peer{AddressList: append([]string(nil), addrs[an]...), Timestamp: times[tn](), DataList: lists[ln], ServiceList: services[sn], Ping: math.MaxUint64, Version: "?"}
	}
	add := func(n string, lets bool, p func() *pb.Peer) {
		l = append(l, request{"join " + n, func(c pb.VeriServiceClient, cx context.Context) (string, error) {
			_, err := c.Join(cx, &pb.JoinRequest{Peer: p()})
			return "", err
		}, lets}, request{"add peer " + n, func(c pb.VeriServiceClient, cx context.Context) (string, error) {
			_, err := c.AddPeer(cx, &pb.AddPeerRequest{Peer: p()})
			return "", err
		}, lets})
	}
	add("nobody", false, func() *pb.Peer { return nil })
	add("empty", false, func() *pb.Peer { return &pb.Peer{} })
	for _, an := range names(addrs) {
		for _, tn := range names(times) {
			for _, ln := range names(lists) {
				for _, sn := range names(services) {
					an, tn, ln, sn := an, tn, ln, sn
					add(fmt.Sprintf("addresses %s time %s datasets %s services %s", an, tn, ln, sn), ln == "newest d", func() *pb.Peer { return mk(an, tn, ln, sn) })
				}
			}
		}
	}
	return l
}

// ---- running them

type env struct {
	n    *node.Node
	want map[string]string
	lets bool
}

func start(x *kit.X, populated bool) *env {
	nlib.Reset()
	annoyindex.VerifReset()
	vfs.Reset(x.Tmp())
	v := &env{n: nlib.New(x, 0), want: map[string]string{}}
	synctest.Wait()
	if populated {
		nlib.NewFake(5)
		nlib.Create(nlib.Addr(0), lib.Config("d"))
		for i := 0; i < 3; i++ {
			d := lib.D(float32(i), 5, "g", fmt.Sprint("l", i))
			v.want[lib.KeyOf(d)] = lib.ValOf(d)
			nlib.Insert(nlib.Addr(0), "d", d, &pb.InsertConfig{Count: 1})
		}
		nlib.Announce(nlib.Addr(0), nlib.Addr(5), lib.Config("d"))
		time.Sleep(125 * time.Second) // sources, statistics, index
	}
	return v
}

func (v *env) content() map[string]string {
	m := map[string]string{}
	l, _ := nlib.Stream(nlib.Addr(0), "d")
	for _, d := range l {
		m[lib.KeyOf(d)] = lib.ValOf(d)
	}
	return m
}

// alive: the node still serves.
func (v *env) alive(x *kit.X, what string, populated bool) {
	if err := nlib.Ping(nlib.Addr(0)); err != nil {
		x.Failf("dead", "%s: ping: %v", what, err)
		return
	}
	if populated {
		c := v.content()
		for k, w := range v.want {
			if c[k] != w && !(v.lets && c[k] == "") {
				x.Failf("changed", "%s: %s was %s and is %q", what, k, w, c[k])
				return
			}
		}
		r := nlib.Req("d", 1000, lib.D(0, 5, "g", ""))
		r.Config.Timeout = 5000
		l, err := nlib.Search(nlib.Addr(0), r)
		if err != nil || len(l) < len(v.want) && !v.lets {
			x.Failf("dead", "%s: a search gives %d results, %v", what, len(l), err)
			return
		}
	}
	for _, p := range annoyindex.VerifProblems() { // the real index is native code: it reads or writes where it must not
		x.Failf("native", "%s: %s", what, p)
	}
	d := lib.D(9, 9, "probe", what)
	if err := nlib.Insert(nlib.Addr(0), "probe", d, &pb.InsertConfig{Count: 1}); err != nil {
		x.Failf("dead", "%s: an insert into another dataset: %v", what, err)
		return
	}
	l, err := nlib.Search(nlib.Addr(0), nlib.Req("probe", 1, d))
	if err != nil || len(l) != 1 || lib.KeyOf(l[0].Datum) != lib.KeyOf(d) {
		x.Failf("dead", "%s: a search of another dataset gives %s, %v", what, lib.ShowRes(l), err)
	}
}

func (v *env) send(x *kit.X, r request) {
	before := v.content()
	v.lets = v.lets || r.lets
	cl, done := nlib.Client(nlib.Addr(0))
	cx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	res, err := r.do(cl, cx)
	cancel()
	done()
	x.Step(1)
	synctest.Wait()
	if err != nil {
		if strings.HasPrefix(err.Error(), "INCOMPLETE") {
			x.Failf("incomplete", "%s: %v", r.name, err)
		}
		x.Out("error")
		if a := v.content(); !v.lets && lib.Show(a) != lib.Show(before) {
			x.Failf("changed", "%s was refused (%v) and changed the data from %s to %s", r.name, err, lib.Show(before), lib.Show(a))
		}
		return
	}
	x.Out("%s", res)
}

func single(list func(g *kit.G) []request, fresh bool) func(g *kit.G) {
	return func(g *kit.G) {
		for _, r := range list(g) {
			for _, p := range []bool{true, false} {
				if !p && !fresh && !g.Thorough() {
					continue
				}
				r, p := r, p
				g.Case(func() string { return fmt.Sprintf("%s (populated: %v)", r.name, p) }, func(x *kit.X) {
					v := start(x, p)
					defer nlib.Stop(v.n)
					v.send(x, r)
					if x.Failed() {
						return
					}
					v.alive(x, r.name, p)
					time.Sleep(140 * time.Second) // statistics, index, maintenance and synchronisation meet what was sent
					synctest.Wait()
					v.alive(x, r.name+", later", p)
				})
			}
		}
	}
}

// pairs: what one request leaves behind meets another.
func two(g *kit.G) {
	var first []request
	for _, r := range inserts() {
		if strings.Contains(r.name, `"d"`) && strings.Contains(r.name, "config copy ") && (strings.Contains(r.name, "value usual") || strings.Contains(r.name, "value none") || strings.Contains(r.name, "value json")) {
			first = append(first, r)
		}
	}
	for i, r := range creates() {
		if i%9 == 0 {
			first = append(first, r)
		}
	}
	second := searches(false)
	if g.Thorough() {
		second = append(second, others()...)
	}
	for _, a := range first {
		for _, b := range second {
			a, b := a, b
			g.Case(func() string { return a.name + "; " + b.name }, func(x *kit.X) {
				v := start(x, true)
				defer nlib.Stop(v.n)
				v.send(x, a)
				time.Sleep(65 * time.Second)
				v.send(x, b)
				if x.Failed() {
					return
				}
				v.alive(x, a.name+"; "+b.name, true)
			})
		}
	}
}

// ---- what peers answer

// rude is a peer whose answers are well-formed and senseless.
type rude struct {
	*nlib.Fake
	info    func() *pb.DataInfo
	results func() []*pb.ScoredDatum
	address string
	ends    error
}

func (r *rude) Join(context.Context, *pb.JoinRequest) (*pb.JoinResponse, error) {
	return &pb.JoinResponse{Address: r.address}, nil
}
func (r *rude) GetDataInfo(c context.Context, q *pb.GetDataRequest) (*pb.DataInfo, error) {
	if r.info != nil {
		return r.info(), nil
	}
	return r.Fake.GetDataInfo(c, q)
}
func (r *rude) SearchStream(_ *pb.SearchRequest, st pb.VeriService_SearchStreamServer) error {
	if r.results != nil {
		for _, d := range r.results() {
			if st.Send(d) != nil {
				break
			}
		}
	}
	return r.ends
}

// startRude: node 0 with data, and the peer.
func startRude(x *kit.X, p *rude) *env {
	nlib.Reset()
	vfs.Reset(x.Tmp())
	p.Fake = nlib.NewFake(5)
	vnet.Register(nlib.Addr(5), p)
	v := &env{n: nlib.New(x, 0, nlib.Addr(5)), want: map[string]string{}}
	synctest.Wait()
	nlib.Create(nlib.Addr(0), lib.Config("d"))
	for i := 0; i < 3; i++ {
		d := lib.D(float32(i), 5, "g", fmt.Sprint("l", i))
		v.want[lib.KeyOf(d)] = lib.ValOf(d)
		nlib.Insert(nlib.Addr(0), "d", d, &pb.InsertConfig{Count: 1})
	}
	nlib.Announce(nlib.Addr(0), nlib.Addr(5), lib.Config("d"))
	time.Sleep(125 * time.Second)
	return v
}

func answers(g *kit.G) {
	nan, inf := math.NaN(), math.Inf(1)
	odd := map[string]*pb.ScoredDatum{
		"empty":             {},
		"score only":        {Score: 1},
		"empty datum":       {Datum: &pb.Datum{}},
		"key only":          {Datum: &pb.Datum{Key: &pb.DatumKey{}}},
		"value only":        {Datum: &pb.Datum{Value: &pb.DatumValue{}}},
		"score nan":         {Datum: lib.D(0, 5, "g", "l0"), Score: nan},
		"score -inf":        {Datum: lib.D(7, 5, "g", "l7"), Score: -inf},
		"score +inf":        {Datum: lib.D(7, 5, "g", "l7"), Score: inf},
		"own datum":         {Datum: lib.D(0, 5, "g", "l0"), Score: 0.5},
		"own, other value":  {Datum: lib.D(0, 5, "g", "other"), Score: 0.5},
		"foreign":           {Datum: lib.D(8, 5, "g", "l8"), Score: 0.1},
		"foreign group":     {Datum: lib.D(8, 5, "h", "l8"), Score: 0.1},
		"one feature":       {Datum: &pb.Datum{Key: &pb.DatumKey{Feature: []float32{1}}}, Score: 0.1},
		"size without data": {Datum: &pb.Datum{Key: &pb.DatumKey{Size1: math.MaxUint32, Dim1: math.MaxUint32}}, Score: 0.1},
		"many features":     {Datum: &pb.Datum{Key: &pb.DatumKey{Feature: make([]float32, 3000)}, Value: &pb.DatumValue{}}, Score: 0.1},
	}
	var ss []request
	for _, a := range searches(false) {
		ss = append(ss, a)
	}
	for _, on := range names(odd) {
		for _, k := range []int{1, 2, 2500} {
			for _, ends := range []error{nil, errors.New("no more")} {
				for _, s := range ss {
					if ends != nil && k != 1 {
						continue
					}
					on, k, ends, s := on, k, ends, s
					if k == 2500 && (g.Thorough() == false && on != "foreign" && on != "empty") {
						continue
					}
					g.Case(func() string { return fmt.Sprintf("a peer answers %d times %q (%v) to a %s", k, on, ends, s.name) }, func(x *kit.X) {
						p := &rude{ends: ends}
						v := startRude(x, p)
						defer nlib.Stop(v.n)
						p.results = func() []*pb.ScoredDatum {
							var l []*pb.ScoredDatum
							for i := 0; i < k; i++ {
								l = append(l, odd[on])
							}
							return append(l, &pb.ScoredDatum{Datum: lib.D(6, 6, "g", "l6"), Score: 0.25})
						}
						v.send(x, s)
						p.results = nil
						if x.Failed() {
							return
						}
						v.alive(x, s.name, true)
					})
				}
			}
		}
	}
	vecs := map[string][]float32{"none": nil, "one": {1}, "two": {1, 2}, "nan": {float32(nan), 1}, "inf": {float32(inf), float32(-inf)}, "many": make([]float32, 3000)}
	for _, av := range names(vecs) {
		for _, hv := range names(vecs) {
			for _, n := range []uint64{0, 1, 3, 1 << 63, math.MaxUint64} {
				for _, md := range []float64{0, nan, inf, -1} {
					av, hv, n, md := av, hv, n, md
					if !g.Thorough() && md != 0 && n != 1 && n != math.MaxUint64 {
						continue
					}
					g.Case(func() string {
						return fmt.Sprintf("a peer reports average %s, histogram %s, N %d, distance %v", av, hv, n, md)
					}, func(x *kit.X) {
						p := &rude{}
						p.info = func() *pb.DataInfo {
							return &pb.DataInfo{Avg: vecs[av], Hist: vecs[hv], N: n, MaxDistance: md, Timestamp: n, Version: n, TargetN: n, TargetUtilization: md, Name: "?"}
						}
						v := startRude(x, p)
						defer nlib.Stop(v.n)
						v.alive(x, "strange information", true)
						time.Sleep(140 * time.Second)
						v.alive(x, "strange information, later", true)
					})
				}
			}
		}
	}
	for _, a := range []string{"", "localhost", "\x00", ":", "::1", strings.Repeat("a", 5000), "a,b", "%s%d"} {
		a := a
		g.Case(func() string { return fmt.Sprintf("a peer answers a join with address %.20q", a) }, func(x *kit.X) {
			p := &rude{address: a}
			v := startRude(x, p)
			defer nlib.Stop(v.n)
			v.alive(x, "strange address", true)
			time.Sleep(140 * time.Second)
			v.alive(x, "strange address, later", true)
		})
	}
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "insert", Gen: single(func(*kit.G) []request { return inserts() }, false)},
		kit.Family{Name: "search", Gen: single(func(*kit.G) []request { return searches(true) }, false), Share: 3},
		kit.Family{Name: "create", Gen: single(func(*kit.G) []request { return creates() }, true)},
		kit.Family{Name: "other", Gen: single(func(*kit.G) []request { return others() }, true)},
		kit.Family{Name: "membership", Gen: single(func(*kit.G) []request { return peers() }, false)},
		kit.Family{Name: "two-requests", Gen: two, Share: 3},
		kit.Family{Name: "answers", Gen: answers, Share: 2},
	)
}

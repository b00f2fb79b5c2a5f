//go:build go1.22

// Package nlib drives real nodes over the in-memory network.
package nlib

import (
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	"github.com/bgokden/go-cache"
	"github.com/bgokden/veri/data"
	"github.com/bgokden/veri/node"
	"github.com/bgokden/veri/state"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/lib"
	"github.com/bgokden/veri/zzverif/vnet"
)

// Addr is the address of node i.
func Addr(i int) string { return fmt.Sprintf("localhost:%d", 7000+i) }

// Reset prepares the process-wide state for a case.
func Reset() {
	vnet.Reset()
	state.Ready, state.Drain, state.Health = false, false, false
}

// New starts node i in its own folder, joining the given addresses.
func New(x *kit.X, i int, services ...string) *node.Node {
	if x.Dir == "" {
		x.Tmp()
	}
	return NewIn(filepath.Join(x.Dir, fmt.Sprint("n", i)), i, services...)
}

// NewNamed starts node i under other names than its address (it is still reachable at its address).
func NewNamed(x *kit.X, i int, ids []string, services ...string) *node.Node {
	if x.Dir == "" {
		x.Tmp()
	}
	folder := filepath.Join(x.Dir, fmt.Sprint("n", i))
	os.MkdirAll(folder, 0755)
	n := node.NewNode(&node.NodeConfig{Port: uint32(7000 + i), Folder: folder, AdvertisedIds: ids, ServiceList: services})
	vnet.Register(Addr(i), n)
	return n
}

// NewIn starts node i in a folder.
func NewIn(folder string, i int, services ...string) *node.Node {
	os.MkdirAll(folder, 0755)
	n := node.NewNode(&node.NodeConfig{Port: uint32(7000 + i), Folder: folder, AdvertisedIds: []string{Addr(i)}, ServiceList: services})
	vnet.Register(Addr(i), n)
	return n
}

// Halt ends the background work of a node without draining it (a crash as far as the others can see).
func Halt(i int, n *node.Node) {
	if i >= 0 {
		vnet.Unregister(Addr(i))
	}
	for _, d := range Datasets(n) {
		lib.Kill(d)
	}
	n.StopPeriodicTask()
	n.ConnectionCache.Provider.Close()
}

// Stop ends everything a case started.
func Stop(nodes ...*node.Node) {
	synctest.Wait()
	for _, n := range nodes {
		if n != nil {
			for _, d := range Datasets(n) {
				lib.Kill(d)
			}
		}
	}
	for _, n := range nodes {
		if n != nil {
			n.StopPeriodicTask()
			n.ConnectionCache.Provider.Close()
		}
	}
	cache.VerifStopAll()
	time.Sleep(30 * time.Second)
	for _, n := range nodes { // created meanwhile
		if n != nil {
			for _, d := range Datasets(n) {
				lib.Kill(d)
			}
		}
	}
	cache.VerifStopAll()
	time.Sleep(3 * time.Second)
	synctest.Wait()
}

// Datasets lists the datasets of a node by name.
func Datasets(n *node.Node) map[string]*data.Data {
	m := map[string]*data.Data{}
	for k, it := range n.Dataset.DataList.Items() {
		if d, ok := it.Object.(*data.Data); ok {
			m[k] = d
		}
	}
	return m
}

// Names lists the names of the datasets of a node.
func Names(n *node.Node) []string {
	var l []string
	for k := range Datasets(n) {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Client calls a node.
func Client(addr string) (pb.VeriServiceClient, func()) {
	c, err := vnet.Dial(addr)
	if err != nil {
		panic(err)
	}
	return pb.NewVeriServiceClient(c), func() { c.Close() }
}

func ctx() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), 60*time.Second)
}

// Insert inserts through a node.
func Insert(addr, name string, d *pb.Datum, c *pb.InsertConfig) error {
	cl, done := Client(addr)
	defer done()
	cx, cancel := ctx()
	defer cancel()
	_, err := cl.Insert(cx, &pb.InsertionRequest{DataName: name, Datum: d, Config: c})
	return err
}

// Create creates a dataset through a node.
func Create(addr string, c *pb.DataConfig) (*pb.DataInfo, error) {
	cl, done := Client(addr)
	defer done()
	cx, cancel := ctx()
	defer cancel()
	return cl.CreateDataIfNotExists(cx, c)
}

// Info asks a node about a dataset.
func Info(addr, name string) (*pb.DataInfo, error) {
	cl, done := Client(addr)
	defer done()
	cx, cancel := ctx()
	defer cancel()
	return cl.GetDataInfo(cx, &pb.GetDataRequest{Name: name})
}

// Ping pings a node.
func Ping(addr string) error {
	cl, done := Client(addr)
	defer done()
	cx, cancel := ctx()
	defer cancel()
	_, err := cl.Ping(cx, &pb.PingRequest{})
	return err
}

// Search searches through a node.
func Search(addr string, r *pb.SearchRequest) ([]*pb.ScoredDatum, error) {
	cl, done := Client(addr)
	defer done()
	cx, cancel := ctx()
	if r.GetConfig().GetTimeout() > 30000 {
		cancel()
		cx, cancel = context.WithTimeout(context.Background(), 2*time.Hour)
	}
	defer cancel()
	st, err := cl.SearchStream(cx, r)
	if err != nil {
		return nil, err
	}
	var l []*pb.ScoredDatum
	for {
		m, err := st.Recv()
		if err == io.EOF {
			return l, nil
		}
		if err != nil {
			return l, err
		}
		l = append(l, m)
	}
}

// Stream streams a dataset of a node.
func Stream(addr, name string) ([]*pb.Datum, error) {
	cl, done := Client(addr)
	defer done()
	cx, cancel := ctx()
	defer cancel()
	st, err := cl.DataStream(cx, &pb.GetDataRequest{Name: name})
	if err != nil {
		return nil, err
	}
	var l []*pb.Datum
	for {
		m, err := st.Recv()
		if err == io.EOF {
			return l, nil
		}
		if err != nil {
			return l, err
		}
		l = append(l, m)
	}
}

// Req is a search request.
func Req(name string, limit uint32, qs ...*pb.Datum) *pb.SearchRequest {
	c := data.DefaultSearchConfig()
	c.DataName = name
	c.Limit = limit
	return &pb.SearchRequest{Datum: qs, Config: c}
}

// Sources lists the peers of a dataset of a node.
func Sources(d *data.Data) []string {
	var l []string
	if d == nil || d.Sources == nil {
		return nil
	}
	for k := range d.Sources.Items() {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Fake is a scripted peer that speaks the service: it stores what it accepts.
type Fake struct {
	pb.UnimplementedVeriServiceServer
	Addr   string
	mu     sync.Mutex
	Got    []*pb.InsertionRequest
	At     []time.Time
	Tried  int
	Slow   time.Duration
	Accept func(n int, r *pb.InsertionRequest) error
	Infos  int
	Answer func(r *pb.SearchRequest, st pb.VeriService_SearchStreamServer) error
	NInfo  func(n int) (uint64, error) // count it reports at its n-th information request
}

// NewFake registers a scripted peer as node i.
func NewFake(i int) *Fake {
	f := &Fake{Addr: Addr(i)}
	vnet.Register(f.Addr, f)
	return f
}

func (f *Fake) Ping(context.Context, *pb.PingRequest) (*pb.PingResponse, error) {
	return &pb.PingResponse{}, nil
}
func (f *Fake) Join(context.Context, *pb.JoinRequest) (*pb.JoinResponse, error) {
	return &pb.JoinResponse{}, nil
}
func (f *Fake) AddPeer(context.Context, *pb.AddPeerRequest) (*pb.AddPeerResponse, error) {
	return &pb.AddPeerResponse{}, nil
}
func (f *Fake) GetDataInfo(_ context.Context, r *pb.GetDataRequest) (*pb.DataInfo, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := f.Infos
	f.Infos++
	i := &pb.DataInfo{Name: r.GetName()}
	if f.NInfo != nil {
		c, err := f.NInfo(n)
		if err != nil {
			return nil, err
		}
		i.N = c
	}
	return i, nil
}
func (f *Fake) Insert(_ context.Context, r *pb.InsertionRequest) (*pb.InsertionResponse, error) {
	at := time.Now()
	f.mu.Lock()
	n := f.Tried
	f.Tried++
	f.mu.Unlock()
	if f.Slow > 0 {
		time.Sleep(f.Slow)
	}
	if f.Accept != nil {
		if err := f.Accept(n, r); err != nil {
			return nil, err
		}
	}
	f.mu.Lock()
	f.Got = append(f.Got, r)
	f.At = append(f.At, at)
	f.mu.Unlock()
	return &pb.InsertionResponse{}, nil
}
func (f *Fake) SearchStream(r *pb.SearchRequest, st pb.VeriService_SearchStreamServer) error {
	if f.Answer != nil {
		return f.Answer(r, st)
	}
	return nil
}
func (f *Fake) DataStream(*pb.GetDataRequest, pb.VeriService_DataStreamServer) error { return nil }

// Has is the number of copies the peer accepted.
func (f *Fake) Has(name string, d *pb.Datum) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := 0
	for _, r := range f.Got {
		if r.GetDataName() == name && lib.KeyOf(r.GetDatum()) == lib.KeyOf(d) && lib.ValOf(r.GetDatum()) == lib.ValOf(d) {
			n++
		}
	}
	return n
}

// Announce tells a node about a peer that has the given datasets.
func Announce(to, addr string, cs ...*pb.DataConfig) error {
	cl, done := Client(to)
	defer done()
	cx, cancel := ctx()
	defer cancel()
	_, err := cl.AddPeer(cx, &pb.AddPeerRequest{Peer: &pb.Peer{Timestamp: uint64(time.Now().Unix()), AddressList: []string{addr}, DataList: cs}})
	return err
}

// Down makes node i unreachable.
func Down(i int) { vnet.Unregister(Addr(i)) }

//go:build go1.22

// Package lib holds helpers of the checks that drive the data package through its exported API.
package lib

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/bgokden/go-cache"
	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
	"github.com/bgokden/veri/zzverif/vmc"
	"google.golang.org/protobuf/proto"
)

// Config is a dataset configuration without a size target.
func Config(name string) *pb.DataConfig {
	return &pb.DataConfig{Name: name, NoTarget: true, TargetN: 1000, TargetUtilization: 0.4}
}

// New makes an initialised dataset whose background loop is idle.
func New(x *kit.X, c *pb.DataConfig) *data.Data {
	if x.Dir == "" {
		x.Tmp()
	}
	dt, err := data.NewData(c, x.Dir)
	if err != nil {
		panic(err)
	}
	synctest.Wait()
	return dt
}

// Stop ends the background goroutines of the datasets of a case.
func Stop(dts ...*data.Data) {
	for _, d := range dts {
		Kill(d)
	}
	cache.VerifStopAll()
	time.Sleep(3 * time.Second)
	synctest.Wait()
}

// Kill ends the background loop of a dataset without draining it.
func Kill(d *data.Data) {
	if d == nil {
		return
	}
	if f := reflect.ValueOf(d).Elem().FieldByName("Alive"); f.IsValid() && f.Kind() == reflect.Bool && f.CanSet() {
		f.SetBool(false)
		return
	}
	d.Close()
}

// D makes a datum with feature (a,b), a group label and a label.
func D(a, b float32, group, label string) *pb.Datum {
	return &pb.Datum{
		Key:   &pb.DatumKey{Feature: []float32{a, b}, GroupLabel: []byte(group), Size1: 1, Size2: 1, Dim1: 2, Dim2: 1},
		Value: &pb.DatumValue{Version: 1, Label: []byte(label)},
	}
}

// Clone copies a datum.
func Clone(d *pb.Datum) *pb.Datum { return proto.Clone(d).(*pb.Datum) }

// KeyOf is a readable identity of a datum's key.
func KeyOf(d *pb.Datum) string {
	k := d.GetKey()
	return fmt.Sprintf("%v/%s/%d.%d.%d.%d", k.GetFeature(), k.GetGroupLabel(), k.GetSize1(), k.GetSize2(), k.GetDim1(), k.GetDim2())
}

// ValOf is a readable identity of a datum's value.
func ValOf(d *pb.Datum) string {
	return fmt.Sprintf("v%d:%s", d.GetValue().GetVersion(), d.GetValue().GetLabel())
}

// Content lists the live data of a dataset (key -> value) through the streaming interface.
func Content(dt *data.Data) map[string]string {
	m, _ := ContentN(dt)
	return m
}

// ContentN also counts duplicates.
func ContentN(dt *data.Data) (map[string]string, int) {
	ch := make(chan *pb.Datum, 100000)
	dt.StreamAll(ch)
	close(ch)
	m := map[string]string{}
	n := 0
	for d := range ch {
		m[KeyOf(d)] = ValOf(d)
		n++
	}
	return m, n
}

// Show prints a content map in order.
func Show(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return "{" + strings.Join(l, ", ") + "}"
}

// SearchAll returns an exact search of everything (key -> value) through the search interface.
func SearchAll(dt *data.Data) map[string]string {
	c := data.DefaultSearchConfig()
	c.Limit = 1000
	col := dt.Search(D(0, 0, "", ""), c, nil)
	m := map[string]string{}
	for _, s := range col.List {
		m[KeyOf(s.Datum)] = ValOf(s.Datum)
	}
	return m
}

// Peer is a scripted data source: a reference peer that stores what it accepts.
type Peer struct {
	ID   string
	mu   sync.Mutex
	Got  []*pb.InsertDatumWithConfig // accepted inserts, in order
	All  []*pb.InsertDatumWithConfig // every insert tried
	At   []time.Time                 // when Got was sent
	Info *pb.DataInfo
	// Accept decides an insert (nil: accept).
	Accept func(d *pb.Datum, c *pb.InsertConfig) error
	// OnSearch produces results (nil: none).
	OnSearch func(d *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig)
	Searches int
	Cfgs     []*pb.SearchConfig
}

var ErrFull = errors.New("rpc error: code = Unknown desc = Number of elements is over the target")
var ErrDown = errors.New("rpc error: code = Unavailable desc = connection refused")

func (p *Peer) GetID() string { return p.ID }
func (p *Peer) GetDataInfo() *pb.DataInfo {
	vmc.P(-50)
	return p.Info
}
func (p *Peer) Insert(d *pb.Datum, c *pb.InsertConfig) error {
	vmc.P(-51)
	e := &pb.InsertDatumWithConfig{Datum: Clone(d), Config: proto.Clone(c).(*pb.InsertConfig)}
	at := time.Now()
	p.mu.Lock()
	p.All = append(p.All, e)
	p.mu.Unlock()
	if p.Accept != nil {
		if err := p.Accept(d, c); err != nil {
			return err
		}
	}
	p.mu.Lock()
	p.Got = append(p.Got, e)
	p.At = append(p.At, at)
	p.mu.Unlock()
	vmc.P(-52)
	return nil
}
func (p *Peer) StreamSearch(d *pb.Datum, out chan<- *pb.ScoredDatum, wg *sync.WaitGroup, c *pb.SearchConfig) error {
	defer wg.Done()
	vmc.P(-53)
	p.mu.Lock()
	p.Searches++
	p.Cfgs = append(p.Cfgs, proto.Clone(c).(*pb.SearchConfig))
	p.mu.Unlock()
	if p.OnSearch != nil {
		p.OnSearch(d, out, c)
	}
	return nil
}

// Has reports whether the peer accepted the datum with this key and value.
func (p *Peer) Has(key, val string) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	ok := false
	for _, g := range p.Got {
		if KeyOf(g.Datum) == key {
			ok = ValOf(g.Datum) == val
		}
	}
	return ok
}

// Run drives the engine: activate, start the threads, loop, release.
func Run(x *kit.X, e *vmc.Engine, threads ...func()) {
	synctest.Wait()
	e.Activate()
	for i, f := range threads {
		f := f
		e.Spawn(fmt.Sprintf("T%d", i), f)
	}
	e.Loop()
	if e.Dead {
		x.Failf("deadlock", "no progress: %v never return", e.Blocked())
	}
	e.Release()
	synctest.Wait()
}

func sprint(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

// ShowRes prints results.
func ShowRes(l []*pb.ScoredDatum) string {
	var s []string
	for _, r := range l {
		s = append(s, fmt.Sprintf("%s:%.3f", KeyOf(r.GetDatum()), r.GetScore()))
	}
	return "[" + strings.Join(s, " ") + "]"
}

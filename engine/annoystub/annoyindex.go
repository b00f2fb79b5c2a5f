//go:build go1.22

// Package annoyindex (verification stand-in): an exact, pure-Go replacement of the SWIG index used only by the
// schedule-exploring checks, where a C++ call could not be interleaved.  It checks the life cycle (no use of a
// deleted or unloaded index, no change after Build) and keeps the calling convention of the wrapper.
package annoyindex

import (
	"fmt"
	"math"
	"os"
	"sort"
	"sync"

	"github.com/bgokden/veri/zzverif/vmc"
)

var (
	vmu       sync.Mutex
	vproblems []string
	vlive     int
)

// VerifProblems returns (and clears) the life-cycle violations seen.
func VerifProblems() []string {
	vmu.Lock()
	defer vmu.Unlock()
	p := vproblems
	vproblems = nil
	return p
}

// VerifLive is the number of indexes created and not deleted.
func VerifLive() int {
	vmu.Lock()
	defer vmu.Unlock()
	return vlive
}

// VerifReset clears the counters.
func VerifReset() {
	vmu.Lock()
	defer vmu.Unlock()
	vproblems, vlive = nil, 0
}

type impl struct {
	f        int
	metric   int
	items    map[int][]float32
	n        int
	built    bool
	deleted  bool
	unloaded bool
}

func newImpl(f, metric int) *impl {
	vmu.Lock()
	vlive++
	vmu.Unlock()
	return &impl{f: f, metric: metric, items: map[int][]float32{}}
}

func (a *impl) bad(op string) bool {
	if a.deleted || a.unloaded && (op == "GetNnsByVector" || op == "GetNnsByItem" || op == "GetItem" || op == "GetDistance") {
		vmu.Lock()
		defer vmu.Unlock()
		vproblems = append(vproblems, fmt.Sprintf("%s on an index that was released", op))
		return true
	}
	return false
}

func (a *impl) short(op string, v []float32) {
	if len(v) < a.f {
		vmu.Lock()
		vproblems = append(vproblems, fmt.Sprintf("%s reads past the end of a vector of %d, the dimension is %d", op, len(v), a.f))
		vmu.Unlock()
	}
}

func (a *impl) del() {
	if a.bad("Delete") {
		return
	}
	a.deleted = true
	vmu.Lock()
	vlive--
	vmu.Unlock()
}

func (a *impl) Swigcptr() uintptr             { return 1 }
func (a *impl) SwigIsAnnoyIndex()             {}
func (a *impl) SwigGetAnnoyIndex() AnnoyIndex { return a }
func (a *impl) AddItem(i int, v []float32) {
	a.bad("AddItem")
	if a.built {
		vmu.Lock()
		vproblems = append(vproblems, "AddItem after Build")
		vmu.Unlock()
		return
	}
	a.short("AddItem", v)
	w := make([]float32, a.f)
	copy(w, v)
	a.items[i] = w
	if i+1 > a.n {
		a.n = i + 1
	}
}
func (a *impl) Build(q int) { a.bad("Build"); a.built = true }
func (a *impl) Save(x ...interface{}) bool {
	a.bad("Save")
	return os.WriteFile(x[0].(string), nil, 0644) == nil
}
func (a *impl) Unload()                    { a.bad("Unload"); a.unloaded = true; a.items = map[int][]float32{}; a.n = 0 }
func (a *impl) Load(x ...interface{}) bool { a.bad("Load"); return true }
func (a *impl) GetNItems() int             { a.bad("GetNItems"); return a.n }
func (a *impl) Verbose(bool)               {}
func (a *impl) GetItem(i int, out *[]float32) {
	a.bad("GetItem")
	*out = append([]float32(nil), a.items[i]...)
}
func (a *impl) OnDiskBuild(p string) bool {
	a.bad("OnDiskBuild")
	return os.WriteFile(p, nil, 0644) == nil
}
func (a *impl) dist(u, v []float32) float64 {
	var d, uu, vv, uv float64
	for i := range u {
		x, y := float64(u[i]), float64(v[i])
		uu += x * x
		vv += y * y
		uv += x * y
		switch a.metric {
		case 1:
			d += (x - y) * (x - y)
		case 2:
			d += math.Abs(x - y)
		}
	}
	switch a.metric {
	case 1:
		return math.Sqrt(d)
	case 2:
		return d
	case 3:
		return -uv
	}
	if uu*vv == 0 {
		return math.Sqrt(2)
	}
	c := 2 - 2*uv/math.Sqrt(uu*vv)
	if c < 0 {
		c = 0
	}
	return math.Sqrt(c)
}
func (a *impl) GetDistance(i, j int) float32 {
	a.bad("GetDistance")
	return float32(a.dist(a.items[i], a.items[j]))
}
func (a *impl) GetNnsByItem(x ...interface{}) {
	i := x[0].(int)
	x[0] = append([]float32(nil), a.items[i]...)
	a.GetNnsByVector(x...)
}
func (a *impl) GetNnsByVector(x ...interface{}) {
	if a.bad("GetNnsByVector") {
		return
	}
	v := x[0].([]float32)
	a.short("GetNnsByVector", v)
	w := make([]float32, a.f)
	copy(w, v)
	n := x[1].(int)
	if !a.built {
		return
	}
	searchK := -1
	if len(x) > 2 {
		if k, ok := x[2].(int); ok {
			searchK = k
		}
	}
	if searchK == 0 { // the native index inspects nothing
		n = 0
	}
	type e struct {
		d float64
		i int
	}
	var l []e
	for i := 0; i < a.n; i++ {
		if it, ok := a.items[i]; ok {
			l = append(l, e{a.dist(w, it), i})
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].d < l[j].d })
	vmc.P(-40)
	if a.bad("GetNnsByVector") {
		return
	}
	if len(l) > n {
		l = l[:n]
	}
	res, dis := []int{}, []float32{}
	for _, y := range l {
		res = append(res, y.i)
		dis = append(dis, float32(y.d))
	}
	for _, o := range x[2:] {
		switch p := o.(type) {
		case *[]int:
			*p = res
		case *[]float32:
			*p = dis
		}
	}
}

type AnnoyIndex interface {
	Swigcptr() uintptr
	SwigIsAnnoyIndex()
	AddItem(arg2 int, arg3 []float32)
	Build(arg2 int)
	Save(a ...interface{}) bool
	Unload()
	Load(a ...interface{}) bool
	GetDistance(arg2 int, arg3 int) (_swig_ret float32)
	GetNnsByItem(a ...interface{})
	GetNnsByVector(a ...interface{})
	GetNItems() (_swig_ret int)
	Verbose(arg2 bool)
	GetItem(arg2 int, arg3 *[]float32)
	OnDiskBuild(arg2 string) (_swig_ret bool)
}

type AnnoyIndexAngular interface {
	AnnoyIndex
	SwigIsAnnoyIndexAngular()
	SwigGetAnnoyIndex() AnnoyIndex
}

type implAngular struct{ *impl }

func (implAngular) SwigIsAnnoyIndexAngular() {}

func NewAnnoyIndexAngular(f int) AnnoyIndexAngular { return implAngular{newImpl(f, 0)} }
func DeleteAnnoyIndexAngular(a AnnoyIndexAngular)  { a.(implAngular).del() }

type AnnoyIndexEuclidean interface {
	AnnoyIndex
	SwigIsAnnoyIndexEuclidean()
	SwigGetAnnoyIndex() AnnoyIndex
}

type implEuclidean struct{ *impl }

func (implEuclidean) SwigIsAnnoyIndexEuclidean() {}

func NewAnnoyIndexEuclidean(f int) AnnoyIndexEuclidean { return implEuclidean{newImpl(f, 1)} }
func DeleteAnnoyIndexEuclidean(a AnnoyIndexEuclidean)  { a.(implEuclidean).del() }

type AnnoyIndexManhattan interface {
	AnnoyIndex
	SwigIsAnnoyIndexManhattan()
	SwigGetAnnoyIndex() AnnoyIndex
}

type implManhattan struct{ *impl }

func (implManhattan) SwigIsAnnoyIndexManhattan() {}

func NewAnnoyIndexManhattan(f int) AnnoyIndexManhattan { return implManhattan{newImpl(f, 2)} }
func DeleteAnnoyIndexManhattan(a AnnoyIndexManhattan)  { a.(implManhattan).del() }

type AnnoyIndexDotProduct interface {
	AnnoyIndex
	SwigIsAnnoyIndexDotProduct()
	SwigGetAnnoyIndex() AnnoyIndex
}

type implDotProduct struct{ *impl }

func (implDotProduct) SwigIsAnnoyIndexDotProduct() {}

func NewAnnoyIndexDotProduct(f int) AnnoyIndexDotProduct { return implDotProduct{newImpl(f, 3)} }
func DeleteAnnoyIndexDotProduct(a AnnoyIndexDotProduct)  { a.(implDotProduct).del() }

//go:build go1.22

package lib

import (
	"encoding/json"
	"math"
	"sort"
	"time"

	pb "github.com/bgokden/veri/veriservice"
)

// Score is an independent implementation of the documented score functions.
func Score(name string, a, b []float32) float64 {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	switch name {
	case "VectorMultiplication":
		s := 0.0
		for i := 0; i < n; i++ {
			s += float64(a[i]) * float64(b[i])
		}
		return s
	case "QuickVectorDistance":
		s := 0.0
		for i := 0; i < n; i++ {
			s += math.Abs(float64(a[i]) - float64(b[i]))
		}
		return s
	case "CosineSimilarity", "AnnoyCosineSimilarity":
		return cosine(a, b)
	case "AngularDistance", "AnnoyAngularDistance":
		return 1 - math.Acos(cosine(a, b))/math.Pi
	default: // VectorDistance, AnnoyVectorDistance and anything unknown
		s := 0.0
		for i := 0; i < n; i++ {
			d := float64(a[i]) - float64(b[i])
			s += d * d
		}
		return math.Sqrt(s)
	}
}

func cosine(a, b []float32) float64 {
	var ab, aa, bb float64
	for i := range a {
		aa += float64(a[i]) * float64(a[i])
		if i < len(b) {
			ab += float64(a[i]) * float64(b[i])
		}
	}
	for i := range b {
		bb += float64(b[i]) * float64(b[i])
	}
	if aa == 0 || bb == 0 {
		return 0
	}
	c := ab / (math.Sqrt(aa) * math.Sqrt(bb))
	return math.Max(-1, math.Min(1, c))
}

// Near compares scores (float32 arithmetic inside the code under test).
func Near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 2e-3*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// Better reports whether a is better than b by more than the tolerance.
func Better(a, b float64, higher bool) bool {
	if Near(a, b) {
		return false
	}
	if higher {
		return a > b
	}
	return a < b
}

// HasPath reports whether a JSON document has a (dotted, object only) path.
func HasPath(doc []byte, path string) bool {
	var v interface{}
	if json.Unmarshal(doc, &v) != nil {
		return false
	}
	for path != "" {
		p := path
		path = ""
		for i := range p {
			if p[i] == '.' {
				p, path = p[:i], p[i+1:]
				break
			}
		}
		m, ok := v.(map[string]interface{})
		if !ok {
			return false
		}
		if v, ok = m[p]; !ok {
			return false
		}
	}
	return true
}

// Passes applies the filters of a search config.
func Passes(d *pb.Datum, c *pb.SearchConfig) bool {
	for _, f := range c.GroupFilters {
		if !HasPath(d.Key.GroupLabel, f) {
			return false
		}
	}
	for _, f := range c.Filters {
		if !HasPath(d.Value.Label, f) {
			return false
		}
	}
	return true
}

// Scored is one expected candidate.
type Scored struct {
	Key   string
	Val   string
	Score float64
}

// TopK checks a result list against the full set of candidates: the best k distinct candidates with their
// scores, best first (ties in any order).  It returns a kind and a message, or "".
func TopK(res []*pb.ScoredDatum, cand []Scored, k int, higher bool) (string, string) {
	return topK(res, cand, k, higher, Near)
}

// TopKFine is TopK for scores that single precision represents well: differences of one in a hundred thousand count,
// however small the scores are.
func TopKFine(res []*pb.ScoredDatum, cand []Scored, k int, higher bool) (string, string) {
	return topK(res, cand, k, higher, func(a, b float64) bool {
		return a == b || math.Abs(a-b) <= 1e-5*math.Max(math.Abs(a), math.Abs(b))
	})
}

func topK(res []*pb.ScoredDatum, cand []Scored, k int, higher bool, near func(a, b float64) bool) (string, string) {
	by := map[string]Scored{}
	for _, c := range cand {
		if o, ok := by[c.Key]; !ok || !near(c.Score, o.Score) && (c.Score > o.Score) == higher {
			by[c.Key] = c
		}
	}
	want := len(by)
	if k < want {
		want = k
	}
	sc := make([]float64, 0, len(by))
	for _, c := range by {
		sc = append(sc, c.Score)
	}
	sort.Slice(sc, func(i, j int) bool {
		if higher {
			return sc[i] > sc[j]
		}
		return sc[i] < sc[j]
	})
	seen := map[string]bool{}
	for i, r := range res {
		key := KeyOf(r.GetDatum())
		c, ok := by[key]
		if !ok {
			return "ghost", "result " + key + " is not a candidate"
		}
		if seen[key] {
			return "duplicate", "result " + key + " is returned twice"
		}
		seen[key] = true
		if c.Val != "" && ValOf(r.Datum) != c.Val {
			return "stale", "result " + key + " has value " + ValOf(r.Datum) + ", expected " + c.Val
		}
		if !near(r.Score, c.Score) {
			return "score", sprint("result %s has score %v, expected %v", key, r.Score, c.Score)
		}
		if i > 0 && (higher && r.Score > res[i-1].Score || !higher && r.Score < res[i-1].Score) {
			return "order", sprint("result %d (%v) is better than its predecessor (%v)", i, r.Score, res[i-1].Score)
		}
	}
	if len(res) != want {
		return "count", sprint("%d results, expected %d of %d candidates (limit %d)", len(res), want, len(by), k)
	}
	for i, r := range res {
		if !near(r.Score, sc[i]) {
			return "not-best", sprint("result %d has score %v, the best possible is %v", i, r.Score, sc[i])
		}
	}
	return "", ""
}

// Rank returns the best k candidates of a set of data for a query under a config (ties broken by key).
func Rank(ds []*pb.Datum, q []float32, c *pb.SearchConfig) []Scored {
	var l []Scored
	for _, d := range ds {
		if Passes(d, c) {
			l = append(l, Scored{KeyOf(d), ValOf(d), Score(c.ScoreFuncName, d.Key.Feature, q)})
		}
	}
	sort.SliceStable(l, func(i, j int) bool {
		if c.HigherIsBetter {
			return l[i].Score > l[j].Score
		}
		return l[i].Score < l[j].Score
	})
	if len(l) > int(c.Limit) {
		l = l[:c.Limit]
	}
	return l
}

// SetPeer is a peer that stores ds and answers searches exactly, after a delay.
func SetPeer(id string, ds []*pb.Datum, delay time.Duration) *Peer {
	p := &Peer{ID: id, Info: &pb.DataInfo{Name: "d", N: uint64(len(ds))}}
	p.OnSearch = func(q *pb.Datum, out chan<- *pb.ScoredDatum, c *pb.SearchConfig) {
		if delay > 0 {
			time.Sleep(delay)
		}
		by := map[string]*pb.Datum{}
		for _, d := range ds {
			by[KeyOf(d)] = d
		}
		for _, s := range Rank(ds, q.Key.Feature, c) {
			out <- &pb.ScoredDatum{Score: s.Score, Datum: Clone(by[s.Key])}
		}
	}
	return p
}

//go:build go1.22

// C01: the codec is lossless and injective.
package c01

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/bgokden/veri/data"
	pb "github.com/bgokden/veri/veriservice"
	"github.com/bgokden/veri/zzverif/kit"
)

func bits(f []float32) []uint32 {
	r := make([]uint32, len(f))
	for i, v := range f {
		r[i] = math.Float32bits(v)
	}
	return r
}

func ident(k *pb.DatumKey) string {
	return fmt.Sprintf("%x|%x|%d|%d|%d|%d", bits(k.GetFeature()), k.GetGroupLabel(), k.GetSize1(), k.GetSize2(), k.GetDim1(), k.GetDim2())
}

func vident(v *pb.DatumValue) string { return fmt.Sprintf("%d|%x", v.GetVersion(), v.GetLabel()) }

// roundTrip checks one datum through key, value and whole-datum coding.
func roundTrip(x *kit.X, d *pb.Datum) {
	x.Step(3)
	kid, vid := ident(d.Key), vident(d.Value)
	defer func() {
		if ident(d.Key) != kid || vident(d.Value) != vid {
			x.Failf("changed", "encoding changed %.300s/%.300s to %.300s/%.300s", kid, vid, ident(d.Key), vident(d.Value))
		}
	}()
	kb, err := data.GetKeyAsBytes(d)
	if err != nil {
		x.Failf("encode-error", "key %s: %v", ident(d.Key), err)
		return
	}
	first := append([]byte(nil), kb...)
	kb2, _ := data.GetKeyAsBytes(d)
	vb0, _ := data.GetValueAsBytes(d)
	vfirst := append([]byte(nil), vb0...)
	o := &pb.Datum{Key: &pb.DatumKey{Feature: []float32{9}, GroupLabel: []byte("other")}, Value: &pb.DatumValue{Version: 99, Label: []byte("other")}}
	data.GetKeyAsBytes(o)
	data.GetValueAsBytes(o)
	if !bytes.Equal(first, kb) || !bytes.Equal(vfirst, vb0) {
		x.Failf("shared", "the encoding of %.300s/%.300s changed when something else was encoded", kid, vid)
	}
	if !bytes.Equal(kb, kb2) {
		x.Failf("encode-unstable", "key %s encodes differently each time", ident(d.Key))
	}
	vb, err := data.GetValueAsBytes(d)
	if err != nil {
		x.Failf("encode-error", "value %s: %v", vident(d.Value), err)
		return
	}
	k, err := data.ToDatumKey(append([]byte(nil), kb...))
	if err != nil || ident(k) != ident(d.Key) {
		x.Failf("key-lossy", "key %.300s decodes as %.300s (%v)", ident(d.Key), ident(k), err)
	}
	v, err := data.ToDatumValue(append([]byte(nil), vb...))
	if err != nil || vident(v) != vident(d.Value) {
		x.Failf("value-lossy", "value %.300s decodes as %.300s (%v)", vident(d.Value), vident(v), err)
	}
	w, err := data.ToDatum(kb, vb)
	if err != nil || ident(w.GetKey()) != ident(d.Key) || vident(w.GetValue()) != vident(d.Value) {
		x.Failf("datum-lossy", "datum %.300s/%.300s decodes as %.300s/%.300s (%v)", ident(d.Key), vident(d.Value), ident(w.GetKey()), vident(w.GetValue()), err)
	}
}

var floatBits = []uint32{0, 0x80000000, 0x3f800000, 0xbf800000, 1, 0x80, 0x8000, 0x800000, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc00001, 0x01020304, 0xfffefdfc}
var u32 = []uint32{0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x1000000, 0x80000000, 0xffffffff, 0x01020304}
var lens = []int{0, 1, 2, 3, 7, 8, 126, 127, 128, 129, 255, 256, 257, 300, 1000, 4096, 16382, 16383, 16384, 16385, 20000}

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*31+7) ^ seed
	}
	return b
}

func feat(n int) []float32 {
	f := make([]float32, n)
	for i := range f {
		f[i] = math.Float32frombits(floatBits[i%len(floatBits)] + uint32(i))
	}
	return f
}

func genRound(g *kit.G) {
	// every boundary length of every variable length field against every other
	for _, fl := range lens {
		for _, gl := range lens {
			for _, ll := range []int{0, 1, 127, 128, 129, 16383, 16384, 16385} {
				fl, gl, ll := fl, gl, ll
				g.Case(func() string {
					return fmt.Sprintf("feature length %d, group label length %d, label length %d", fl, gl, ll)
				}, func(x *kit.X) {
					d := &pb.Datum{Key: &pb.DatumKey{Feature: feat(fl), GroupLabel: fill(gl, 0), Size1: 1, Size2: 2, Dim1: 3, Dim2: 4},
						Value: &pb.DatumValue{Version: 5, Label: fill(ll, 9)}}
					roundTrip(x, d)
				})
			}
		}
	}
	// lengths across the next boundary of the length encoding
	for _, n := range []int{1<<21 - 1, 1 << 21, 1<<21 + 1, 1<<21 + 1<<14 + 1<<7 + 1} {
		for f := 0; f < 3; f++ {
			n, f := n, f
			g.Case(func() string { return fmt.Sprintf("length %d of field %d", n, f) }, func(x *kit.X) {
				l := [3]int{1, 1, 1}
				l[f] = n
				roundTrip(x, &pb.Datum{Key: &pb.DatumKey{Feature: feat(l[0]), GroupLabel: fill(l[1], 0), Size1: 1, Size2: 2, Dim1: 3, Dim2: 4},
					Value: &pb.DatumValue{Version: 5, Label: fill(l[2], 9)}})
			})
		}
	}
	// every pair of integer patterns in every pair of integer fields
	for i, a := range u32 {
		a := a
		g.Case(func() string { return fmt.Sprintf("integer patterns with %x", a) }, func(x *kit.X) {
			for _, b := range u32 {
				for p := 0; p < 4; p++ {
					for q := 0; q < 4; q++ {
						s := [4]uint32{9, 8, 7, 6}
						s[p], s[q] = a, b
						roundTrip(x, &pb.Datum{Key: &pb.DatumKey{Feature: feat(i % 4), GroupLabel: fill(i%3, 1), Size1: s[0], Size2: s[1], Dim1: s[2], Dim2: s[3]},
							Value: &pb.DatumValue{Version: uint64(a)<<32 | uint64(b), Label: fill(i, 2)}})
					}
				}
			}
		})
	}
	// every 64 bit version with one or two bits set, and its complement
	g.Case(func() string { return "versions with up to two bits set" }, func(x *kit.X) {
		for i := 0; i < 64; i++ {
			for j := 0; j < 64; j++ {
				v := uint64(1)<<i | uint64(1)<<j
				for _, w := range []uint64{v, ^v} {
					roundTrip(x, &pb.Datum{Key: &pb.DatumKey{Feature: feat(1)}, Value: &pb.DatumValue{Version: w, Label: []byte("x")}})
				}
			}
		}
	})
	for _, a := range floatBits {
		a := a
		g.Case(func() string { return fmt.Sprintf("float patterns with %x", a) }, func(x *kit.X) {
			for _, b := range floatBits {
				for _, c := range floatBits {
					roundTrip(x, &pb.Datum{Key: &pb.DatumKey{Feature: []float32{math.Float32frombits(a), math.Float32frombits(b), math.Float32frombits(c)}}, Value: &pb.DatumValue{}})
				}
			}
		})
	}
}

// genInject enumerates every key of a small universe and looks for two keys with one encoding.
func genInject(g *kit.G) {
	letters := []byte{0, 1, 2, 4, 0x80}
	var labels [][]byte
	var rec func(p []byte, n int)
	rec = func(p []byte, n int) {
		labels = append(labels, append([]byte(nil), p...))
		if n == 0 {
			return
		}
		for _, l := range letters {
			rec(append(append([]byte(nil), p...), l), n-1)
		}
	}
	depth := 5
	if g.Thorough() {
		depth = 7
	}
	rec(nil, depth)
	fb := []uint32{0, 1, 0x01000000, 0x80000000}
	var feats [][]float32
	feats = append(feats, nil)
	for _, a := range fb {
		feats = append(feats, []float32{math.Float32frombits(a)})
		for _, b := range fb {
			feats = append(feats, []float32{math.Float32frombits(a), math.Float32frombits(b)})
		}
	}
	g.Case(func() string { return fmt.Sprintf("%d group labels x %d features", len(labels), len(feats)) }, func(x *kit.X) {
		seen := map[string]string{}
		for _, l := range labels {
			for _, f := range feats {
				k := &pb.DatumKey{Feature: f, GroupLabel: l}
				note(x, seen, k)
			}
		}
		x.Out("%d", len(seen))
	})
	for _, base := range [][4]uint32{{0, 0, 0, 0}, {1, 256, 65536, 1 << 24}} {
		base := base
		g.Case(func() string { return fmt.Sprintf("sizes and dimensions around %v", base) }, func(x *kit.X) {
			seen := map[string]string{}
			vals := []uint32{0, 1, 2, 256, 65536, 1 << 24}
			for _, a := range vals {
				for _, b := range vals {
					for _, c := range vals {
						for _, d := range vals {
							for _, f := range feats[:3] {
								for _, l := range labels[:4] {
									note(x, seen, &pb.DatumKey{Feature: f, GroupLabel: l, Size1: base[0] ^ a, Size2: base[1] ^ b, Dim1: base[2] ^ c, Dim2: base[3] ^ d})
								}
							}
						}
					}
				}
			}
			x.Out("%d", len(seen))
		})
	}
	g.Case(func() string { return "values" }, func(x *kit.X) {
		seen := map[string]string{}
		for _, l := range labels {
			for _, v := range []uint64{0, 1, 2, 128, 256, 1 << 32, 1 << 56} {
				d := &pb.Datum{Key: &pb.DatumKey{}, Value: &pb.DatumValue{Version: v, Label: l}}
				b, err := data.GetValueAsBytes(d)
				x.Step(1)
				if err != nil {
					x.Failf("encode-error", "%v", err)
				}
				if o, ok := seen[string(b)]; ok && o != vident(d.Value) {
					x.Failf("value-collision", "values %s and %s have one encoding", o, vident(d.Value))
				}
				seen[string(b)] = vident(d.Value)
			}
		}
	})
}

func note(x *kit.X, seen map[string]string, k *pb.DatumKey) {
	id := ident(k)
	b, err := data.GetKeyAsBytes(&pb.Datum{Key: k})
	x.Step(1)
	if err != nil {
		x.Failf("encode-error", "%v", err)
		return
	}
	if o, ok := seen[string(b)]; ok && o != id {
		x.Failf("key-collision", "keys %s and %s have one encoding", o, id)
	}
	seen[string(b)] = id
}

// genNew checks that the constructor keeps every field in its place.
func genNew(g *kit.G) {
	g.Case(func() string { return "NewDatum field by field" }, func(x *kit.X) {
		for _, a := range u32 {
			for _, b := range u32 {
				for _, n := range []int{0, 1, 3} {
					d := data.NewDatum(feat(n), a, b, a^b, a+b, fill(n, 3), fill(n+1, 4), uint64(a)<<32|uint64(b))
					x.Step(1)
					w := &pb.DatumKey{Feature: feat(n), Dim1: a, Dim2: b, Size1: a ^ b, Size2: a + b, GroupLabel: fill(n, 3)}
					if ident(d.Key) != ident(w) || vident(d.Value) != vident(&pb.DatumValue{Version: uint64(a)<<32 | uint64(b), Label: fill(n+1, 4)}) {
						x.Failf("constructor", "asked for %s, got %s", ident(w), ident(d.Key))
					}
				}
			}
		}
	})
}

func TestCheck(t *testing.T) {
	kit.Run(t,
		kit.Family{Name: "round-trip", Gen: genRound, NoBubble: true},
		kit.Family{Name: "injective", Gen: genInject, NoBubble: true},
		kit.Family{Name: "constructor", Gen: genNew, NoBubble: true},
	)
}

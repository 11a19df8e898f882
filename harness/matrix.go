package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strings"
	"time"
	"unicode/utf8"
)

// sessions that are enumerated, not random

type (
	namedInt    int
	namedInt32  int32
	namedUint64 uint64
	namedF32    float32
	namedF64    float64
	namedString string
)

// oddValues are of types that no metric takes
func oddValues() []interface{} {
	i, s := int64(7), "s"
	return []interface{}{int8(3), int16(4), uint8(5), uint16(6), true, nil, []byte("b"), complex(1, 2), complex64(1), struct{}{}, uintptr(1),
		[]int{1}, []int32{1}, [2]byte{1, 2}, [1]int64{3}, map[string]int{}, &struct{}{}, time.Second, os.FileMode(7), time.Now(), json.Number("7"),
		namedInt(1), namedInt32(2), namedUint64(3), namedF32(1), namedF64(2), namedString("x"), &i, &s, func() {}, fmt.Errorf("e"), []string{"a"}, make(chan int),
		struct{ A int32 }{1}}
}

// edgeValues are the values around every limit, as every type that can hold them
func edgeValues() []interface{} {
	r := oddValues()
	ints := []int64{0, 1, -1, 7, -7, 127, 128, 255, 256, 32767, 32768, 65535, 65536, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 + 1, math.MinInt32 - 1,
		math.MaxUint32 - 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1}
	for _, x := range ints {
		r = append(r, int(x), x)
		if x == int64(int32(x)) {
			r = append(r, int32(x))
		}
		if x >= 0 {
			r = append(r, uint(x), uint64(x))
			if x == int64(uint32(x)) {
				r = append(r, uint32(x))
			}
		}
	}
	for _, x := range []uint64{1 << 63, 1<<63 + 1, math.MaxUint64, math.MaxUint64 - 1} {
		r = append(r, uint(x), x)
	}
	up, down := math.Inf(1), math.Inf(-1)
	fs := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 1.5, 1e-3, 1 << 24, 1<<24 + 1, 1 << 53, 1e300, -1e300, math.Pi,
		math.MaxFloat32, -math.MaxFloat32, math.Nextafter(math.MaxFloat32, up), math.Nextafter(-math.MaxFloat32, down), math.Nextafter(math.MaxFloat32, 0),
		3.4028235677973366e38, 3.5e38, -3.5e38, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat32 / 2, math.SmallestNonzeroFloat64,
		1.1754943508222875e-38, 2.2250738585072014e-308, math.MaxFloat64, -math.MaxFloat64, up, down, math.NaN()}
	for _, x := range fs {
		r = append(r, x)
		if y := float32(x); !math.IsNaN(x) && float64(y) == x || math.IsNaN(x) {
			r = append(r, y)
		}
	}
	r = append(r, float32(0.1), float32(math.Pi), math.Float32frombits(0xffc00001), math.Float64frombits(0xfff8000000000001))
	for _, n := range []int{0, 1, 2, 7, 8, 9, 15, 16, 31, 63, 64, 65, 127, 128, 250, 254, 255, 256, 257, 300, 512, 1000} {
		r = append(r, strings.Repeat("x", n))
	}
	return append(r, "é", "名前", strings.Repeat("é", 127), strings.Repeat("é", 128), strings.Repeat("é", 129), strings.Repeat("名", 85), strings.Repeat("名", 86),
		"\xff\xfe", "line\nline", " ", "0", "7", "true", "nil")
}

const valueSessions = 7 * 5

// valueSession puts every edge value to every way of giving one to a metric of a type
func (g *Gen) valueSession(k int) bool {
	w, t, way := g.w, k%7, k/7%5
	g.begin()
	defer g.w.end()
	do := func(o Op) bool { return w.do(o) }
	if !do(Op{Op: "client", C: 1, Name: "client", Reg: 1}) || !do(Op{Op: "indom", D: 1, Name: "dom", Insts: []string{"i", "j"}}) {
		return false
	}
	ok0 := []interface{}{int32(1), uint32(1), int64(1), uint64(1), float32(1), 1.0, "v"}[t]
	sem := []int{3, 0, 4, 1}[way%4]
	m := 1
	if way == 2 || way == 3 || way == 4 {
		for _, d := range []string{"", "one", "two"} {
			kind := "single"
			var vals []IV
			if d == "two" {
				kind, vals = "inst", []IV{{"i", ok0}, {"j", ok0}}
			}
			if !do(Op{Op: "metric", Kind: kind, M: m, D: 1, Name: "m" + d, T: t, Sem: sem, V: ok0, Vals: vals}) || !do(Op{Op: "register", C: 1, M: m}) {
				return false
			}
			m++
		}
		if way != 4 && !do(Op{Op: "start", C: 1}) {
			return false
		}
	}
	for i, v := range edgeValues() {
		switch way {
		case 0: // constructed
			if !do(Op{Op: "metric", Kind: "single", M: m, Name: fmt.Sprintf("s%d", i), T: t, Sem: sem, V: v}) ||
				!do(Op{Op: "metric", Kind: "inst", M: m + 1, D: 1, Name: fmt.Sprintf("i%d", i), T: t, Sem: sem, Vals: []IV{{"i", v}, {"j", ok0}}}) {
				return false
			}
			if i%9 == 0 && w.met[m] != nil && !do(Op{Op: "register", C: 1, M: m}) {
				return false
			}
			m += 2
		case 1: // by a string, a part of them to keep the registry small
			if !do(Op{Op: "regstring", C: 1, M: m, D: m + 1, Str: fmt.Sprintf("s%d", i), T: t, Sem: sem, V: v}) {
				return false
			}
			m += 2
			if (i+k)%3 == 0 && !do(Op{Op: "regstring", C: 1, M: m, D: m + 1, Str: fmt.Sprintf("d%d[i,j].x", i), T: t, Sem: sem, IsI: true, Vals: []IV{{"i", ok0}, {"j", v}}}) {
				return false
			}
			m += 2
		default: // set: single metrics while started or not, and instances
			must := way == 3 || way == 4 && i%2 == 0
			if !do(Op{Op: "upd", M: 1 + i%2, F: "Set", V: v, Must: must}) || !do(Op{Op: "upd", M: 3, F: "Set", I: []string{"i", "j", "none"}[(i/5)%3], V: v, Must: must}) {
				return false
			}
		}
	}
	if way == 4 || way < 2 {
		return do(Op{Op: "start", C: 1, Img: true})
	}
	return do(Op{Op: "stop", C: 1}) && do(Op{Op: "start", C: 1, Img: true})
}

const perStrings = 40

// grammarStrings are all the strings over some characters up to a length, short ones over many
func grammarStrings(deep bool) []string {
	r := []string{}
	var all func(cs []string, s string, n int, keep func(string) bool)
	all = func(cs []string, s string, n int, keep func(string) bool) {
		if keep(s) {
			r = append(r, s)
		}
		if n > 0 {
			for _, c := range cs {
				all(cs, s+c, n-1, keep)
			}
		}
	}
	yes := func(string) bool { return true }
	all([]string{"a", "é", "5", "_", ".", "[", "]", ",", " ", "-", "\n", "\u00a0", "²", "\xff", "\x00", "Z", "名", "/", "́"}, "", 2, yes)
	all([]string{"a", ".", "[", "]", ",", " ", "\t", "é", "-"}, "", 3, func(s string) bool { return utf8.RuneCountInString(s) == 3 })
	n := 6
	if deep {
		n = 8
	}
	all([]string{"a", ".", "[", "]", ","}, "", n, func(s string) bool {
		return len(s) > 2 && (len(s) < 7 || strings.Count(s, "[") == 1 && strings.Count(s, "]") == 1)
	})
	// what is between the brackets, before and after them
	mid := []string{}
	var in func(s string, n int)
	in = func(s string, n int) {
		mid = append(mid, s)
		if n > 0 {
			for _, c := range []string{"b", "c", ",", " ", "."} {
				in(s+c, n-1)
			}
		}
	}
	in("", n-1)
	for _, x := range mid {
		r = append(r, "a["+x+"].d")
	}
	for _, pre := range []string{"", "a", "a.b", ".a", "a.", "a..b", "a b", "a.b.c", " a", "a "} {
		for _, post := range []string{"", ".", ".d", "d", ".d.e", "..d", ".d.", " .d", ". d", "[e]", ".[e]", "]", ".d[e]", "\n", ".d\n"} {
			for _, l := range []string{"[b]", "[b,b]", "[b, c]", "[]", "[", "]", "[[b]]", "[b]]"} {
				r = append(r, pre+l+post)
			}
		}
	}
	return r
}

// stringSession registers a part of them
func (g *Gen) stringSession(strs []string, k int) bool {
	w := g.w
	g.begin()
	defer g.w.end()
	if !w.do(Op{Op: "client", C: 1, Name: "client", Reg: 1}) {
		return false
	}
	m := 1
	for i := 0; i < perStrings; i++ {
		j := k*perStrings + i
		if j >= len(strs) {
			break
		}
		o := Op{Op: "regstring", C: 1, M: m, D: m, Str: strs[j], T: 2, Sem: 1, V: int64(j)}
		m++
		a, b := strings.IndexByte(o.Str, '['), strings.IndexByte(o.Str, ']')
		if a >= 0 && b > a {
			o.IsI = true
			for _, p := range strings.Split(o.Str[a+1:b], ",") {
				o.Vals = append(o.Vals, IV{strings.TrimSpace(p), int64(j)})
			}
			o.Vals = dedup(o.Vals)
		}
		if !w.do(o) {
			return false
		}
	}
	return w.do(Op{Op: "start", C: 1, Img: true})
}

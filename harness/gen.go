package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"
)

// random sessions

// Prof says what sessions are about
type Prof struct {
	Nops, Ncli int
	Long       float64 // share of names of boundary lengths
	W          map[string]int
	NoStart    bool
	Kinds      []string
	Fault      float64
	HistOne    bool
	Size       int  // of a large registry
	Pool       int  // number of names, whose identifiers differ
	NoAll      bool // no operation that can stop in the middle
	One        bool // a single long name or text in a session
}

var allKinds = []string{"single", "single", "inst", "inst", "counter", "gauge", "timer", "cvec", "gvec", "hist"}

var baseW = map[string]int{"newcli": 3, "newindom": 4, "newmetric": 16, "regindom": 4, "indombyname": 3, "register": 18, "regstring": 6,
	"upd": 30, "timer": 3, "hist": 4, "flag": 3, "start": 8, "stop": 4, "erase": 2, "has": 2, "info": 3, "get": 4, "image": 3}

func weights(ch map[string]int) map[string]int {
	w := map[string]int{}
	for k, v := range baseW {
		w[k] = v
	}
	for k, v := range ch {
		w[k] = v
	}
	return w
}

var profiles = map[string]Prof{
	"mixed":    {Nops: 34, Ncli: 2, Long: 0.12, W: weights(nil), Fault: 0.1},
	"content":  {Nops: 30, Ncli: 2, Long: 0.15, W: weights(map[string]int{"newindom": 8, "newmetric": 22, "register": 26, "start": 10, "stop": 8, "upd": 12, "image": 5})},
	"long":     {Nops: 24, Ncli: 1, Long: 0.55, W: weights(map[string]int{"newindom": 8, "regindom": 6, "indombyname": 5, "newmetric": 22, "register": 24, "start": 10, "stop": 8, "upd": 14, "regstring": 8})},
	"large":    {Size: 400},
	"huge":     {Size: 1500},
	"border":   {Nops: 6, Ncli: 1, W: weights(map[string]int{"start": 12, "stop": 8, "image": 8}), One: true},
	"update":   {Nops: 44, Ncli: 2, Long: 0.03, W: weights(map[string]int{"upd": 80, "start": 8, "stop": 3, "regstring": 3, "timer": 4, "hist": 5, "flag": 1}), Fault: 0.05},
	"types":    {Nops: 40, Ncli: 1, Long: 0.03, W: weights(map[string]int{"upd": 60, "newmetric": 30, "register": 20, "regstring": 8, "timer": 0, "hist": 0}), Kinds: []string{"single", "single", "inst"}},
	"counter":  {Nops: 40, Ncli: 1, Long: 0.0, W: weights(map[string]int{"upd": 80, "regstring": 0, "timer": 0, "hist": 0}), Kinds: []string{"counter", "cvec"}},
	"vector":   {Nops: 40, Ncli: 1, Long: 0.02, W: weights(map[string]int{"upd": 80, "get": 12, "regstring": 1, "timer": 0, "hist": 0}), Kinds: []string{"inst", "gauge", "cvec", "gvec", "gvec", "counter"}},
	"registry": {Nops: 40, Ncli: 1, Long: 0.08, W: weights(map[string]int{"newindom": 10, "regindom": 12, "indombyname": 10, "register": 30, "regstring": 20, "upd": 3, "has": 8, "start": 5, "stop": 5}), Fault: 0.2},
	"life":     {Nops: 40, Ncli: 2, Long: 0.02, W: weights(map[string]int{"start": 24, "stop": 16, "erase": 6, "flag": 8, "upd": 20, "timer": 2, "hist": 2, "image": 6, "vanish": 5}), Fault: 0.3},
	"many":     {Nops: 50, Ncli: 4, Long: 0.02, W: weights(map[string]int{"newcli": 10, "start": 20, "stop": 8, "upd": 24, "hist": 8, "image": 6, "regindom": 8, "vanish": 3}), Kinds: []string{"inst", "inst", "hist", "single", "counter"}},
	"grammar":  {Nops: 30, Ncli: 1, Long: 0.05, W: map[string]int{"newcli": 1, "regstring": 60, "has": 4, "start": 2, "stop": 3, "info": 4}},
	"timer":    {Nops: 30, Ncli: 1, Long: 0, W: weights(map[string]int{"timer": 60, "upd": 0, "regstring": 0, "hist": 0, "newindom": 0, "indombyname": 0, "regindom": 0}), Kinds: []string{"timer"}},
	"hist":     {Nops: 36, Ncli: 1, Long: 0, W: weights(map[string]int{"hist": 80, "upd": 0, "regstring": 0, "newindom": 1, "indombyname": 1, "regindom": 1, "timer": 0}), Kinds: []string{"hist"}},
	"ids":      {Nops: 30, Ncli: 2, Long: 0.2, W: weights(map[string]int{"info": 30, "newmetric": 30, "register": 30, "start": 8, "upd": 4, "newindom": 8, "regindom": 8, "made": 4}), Pool: 24},
	"units":    {Nops: 30, Ncli: 1, Long: 0.0, W: weights(map[string]int{"info": 30, "newmetric": 30, "register": 30, "start": 8, "upd": 4}), Kinds: []string{"single", "inst", "timer", "hist"}},
}

type hstat struct {
	n, distinct int
	vals        map[int64]bool
	cnt         map[int64]int64
}

// Gen makes operations that make sense in the world
type Gen struct {
	w      *World
	rnd    *rand.Rand
	p      Prof
	nextC  int
	nextM  int
	nextD  int
	nextR  int
	names  []string
	keep   func([]byte) // gets the files at the end
	hs     map[int]*hstat
	used   map[string]bool
	mreg   map[int]map[int]bool // indoms by registry, only to choose well
	border bool
}

func (g *Gen) pick(xs []string) string { return xs[g.rnd.Intn(len(xs))] }

var shortNames = []string{"a", "b", "m.one", "m.two", "x_1", "été", "名前.値", "with space", "histogram", "min", "max", "a.indom", "b.indom", "A", "0", "-", "[x]", "a,b", "tab\there"}

func (g *Gen) longName() string {
	if g.p.Pool > 0 && len(g.names) == g.p.Pool {
		return g.pick(g.names)
	}
	ls := []int{62, 63, 63, 64, 64, 65, 128, 200, 254, 255, 256, 256, 257, 257, 300}
	uni := 8
	if g.border {
		// next to the limit of the first format, where a single name decides
		ls, uni = []int{60, 62, 63, 63, 63}, 3
		if g.rnd.Intn(9) == 0 {
			ls, uni = []int{64, 64, 65, 80, 100, 120, 126}, 2
		}
	}
	l := ls[g.rnd.Intn(len(ls))]
	c := "abcdefgh"[g.rnd.Intn(2)]
	s := fmt.Sprintf("%c%d", c, l)
	if g.rnd.Intn(uni) == 0 {
		s += strings.Repeat("é", l)
		for len(s) > l {
			s = s[:len(s)-2]
		}
		for len(s) < l {
			s += "z"
		}
		return s
	}
	return s + strings.Repeat(string(c), l-len(s))
}

func (g *Gen) name() string {
	if g.rnd.Float64() < g.p.Long {
		return g.longName()
	}
	if g.rnd.Intn(40) == 0 {
		return ""
	}
	return g.pick(g.names)
}

func (g *Gen) text() string {
	if g.rnd.Float64() < g.p.Long {
		return g.longName()
	}
	return g.pick([]string{"", "t", "short text", "a longer text, with some words", "ünï", "t2"})
}

func (g *Gen) desc() []string {
	n := []int{0, 0, 1, 1, 2, 2, 2, 3}[g.rnd.Intn(8)]
	if n == 3 && g.rnd.Intn(3) > 0 {
		n = 0
	}
	r := []string{}
	for i := 0; i < n; i++ {
		r = append(r, g.text())
	}
	return r
}

func (g *Gen) instNames() []string {
	n := []int{0, 1, 1, 2, 2, 3, 3, 5}[g.rnd.Intn(8)]
	r := []string{}
	for i := 0; i < n; i++ {
		if g.rnd.Float64() < g.p.Long {
			r = append(r, g.longName())
		} else {
			r = append(r, g.pick([]string{"i", "j", "k", "1", "inst one", "ñ", "min", "max", ""}))
		}
	}
	switch g.rnd.Intn(16) {
	case 0: // much alike
		r = append([]string{}, [][]string{{"i", "I"}, {"i", "i "}, {"ij", "k"}, {"i", "jk"}, {"i", "j", "k"}, {"i,j"}, {"j", " i"}, {"ñ", "n\u0303"}, {"Inst One", "inst one", "INST ONE"}}[g.rnd.Intn(9)]...)
	}
	if g.rnd.Intn(12) == 0 {
		r = []string{"min", "max", "mean", "variance", "standard_deviation"}
		g.rnd.Shuffle(5, func(i, j int) { r[i], r[j] = r[j], r[i] })
	}
	return r
}

func (g *Gen) i64() int64 {
	switch g.rnd.Intn(6) {
	case 0:
		return []int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32 + 1, 1 << 62, -1}[g.rnd.Intn(11)]
	case 1:
		return int64(g.rnd.Uint64())
	case 2:
		return 0
	default:
		return int64(g.rnd.Intn(2000)) - 500
	}
}

func (g *Gen) f64() float64 {
	switch g.rnd.Intn(8) {
	case 0:
		return []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.MaxFloat32, -math.MaxFloat32,
			math.Nextafter(math.MaxFloat32, math.Inf(1)), math.Nextafter(-math.MaxFloat32, math.Inf(-1)), math.SmallestNonzeroFloat64, math.SmallestNonzeroFloat32, math.Copysign(0, -1), 0.1, 1e300}[g.rnd.Intn(14)]
	case 1:
		return g.rnd.NormFloat64() * 1e5
	case 2:
		return 0
	default:
		return float64(g.rnd.Intn(4000)-2000) / 8
	}
}

func (g *Gen) str() string {
	if g.rnd.Intn(4) == 0 {
		return g.longName()
	}
	return g.pick([]string{"", "v", "value", "some value that is longer", "välue", "x", "another one"})
}

// compatible value for a type, mostly
func (g *Gen) val(t int) interface{} {
	if g.rnd.Intn(7) == 0 {
		t = g.rnd.Intn(9)
	}
	switch t {
	case 0:
		return []interface{}{int32(g.i64()), int(g.i64()), int(int32(g.i64())), int32(g.rnd.Intn(100))}[g.rnd.Intn(4)]
	case 1:
		return []interface{}{uint32(g.i64()), uint(g.i64()), int(g.i64()), int(uint32(g.i64())), uint(uint32(g.i64()))}[g.rnd.Intn(5)]
	case 2:
		return []interface{}{g.i64(), int(g.i64())}[g.rnd.Intn(2)]
	case 3:
		return []interface{}{uint64(g.i64()), uint(g.i64()), int(g.i64())}[g.rnd.Intn(3)]
	case 4:
		return []interface{}{float32(g.f64()), g.f64(), float32(g.rnd.Intn(99)) / 4}[g.rnd.Intn(3)]
	case 5:
		return g.f64()
	case 6:
		return g.str()
	case 7:
		xs := oddValues()
		return xs[g.rnd.Intn(len(xs))]
	default:
		return []interface{}{int64(g.i64()), uint64(g.i64()), g.f64(), int32(1), uint32(1), float32(1), "s", uint(7), 7}[g.rnd.Intn(9)]
	}
}

// aVal is a value the type takes
func (g *Gen) aVal(t int) interface{} {
	switch t {
	case 0:
		return int32(g.i64())
	case 1:
		return uint32(g.i64())
	case 2:
		return g.i64()
	case 3:
		return uint64(g.i64())
	case 4:
		return float32(g.f64())
	case 5:
		return g.f64()
	}
	return g.str()
}

func (g *Gen) unit() ([]uStep, bool) {
	n := g.rnd.Intn(4)
	r := []uStep{}
	for i := 0; i < n; i++ {
		k := "stc"[g.rnd.Intn(3)]
		sc := 0
		switch k {
		case 's':
			sc = g.rnd.Intn(7)
		case 't':
			sc = g.rnd.Intn(6)
		}
		r = append(r, uStep{k, sc, g.rnd.Intn(16) - 8})
	}
	simple := n > 0 && g.rnd.Intn(2) == 0
	if simple && n > 1 && r[0].Kind == r[1].Kind {
		r = r[:1]
	}
	return r, simple
}

func (g *Gen) begin() {
	g.w.begin()
	g.nextC, g.nextM, g.nextD, g.nextR = 1, 1, 1, 1
	g.hs = map[int]*hstat{}
	g.used = map[string]bool{}
	g.border = g.p.Long > 0.1 && g.rnd.Intn(2) == 0
	k := 3 + g.rnd.Intn(6)
	g.names = nil
	for i := 0; i < k; i++ {
		g.names = append(g.names, g.pick(shortNames))
	}
	if g.p.Pool > 0 {
		g.idPool(g.p.Pool)
	}
}

func (g *Gen) anyC() int {
	return g.anyOf(len(g.w.cli), func(f func(int)) {
		for c := range g.w.cli {
			f(c)
		}
	})
}

// anyOf picks from a set in a reproducible way
func (g *Gen) anyOf(n int, each func(func(int))) int {
	if n == 0 {
		return -1
	}
	xs := []int{}
	each(func(x int) { xs = append(xs, x) })
	for i := 1; i < len(xs); i++ {
		for j := i; j > 0 && xs[j] < xs[j-1]; j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
	return xs[g.rnd.Intn(len(xs))]
}

func (g *Gen) anyM(ok func(*met) bool) int {
	ids, xs := []int{}, []int{}
	for i := range g.w.met {
		ids = append(ids, i)
	}
	sort.Ints(ids) // ok can depend on chance
	for _, i := range ids {
		if ok(g.w.met[i]) {
			xs = append(xs, i)
		}
	}
	return g.anyOf(len(xs), func(f func(int)) {
		for _, x := range xs {
			f(x)
		}
	})
}

func (g *Gen) anyD() int {
	xs := map[int]bool{}
	for i, d := range g.w.ind {
		if d.d != nil {
			xs[i] = true
		}
	}
	return g.anyOf(len(xs), func(f func(int)) {
		for x := range xs {
			f(x)
		}
	})
}

// activeIn says if a client of the registry is started
func (g *Gen) activeIn(r int) int {
	n := 0
	for _, c := range g.w.cli {
		if c.reg == r && c.active {
			n++
		}
	}
	return n
}

// canStart excludes what is not supported: two started clients with one
// registry or one metric
func (g *Gen) canStart(c *cli) bool {
	for _, o := range g.w.cli {
		if o != c && o.active && o.reg == c.reg {
			return false
		}
	}
	for _, m := range g.w.met {
		if m.regs[c.reg] {
			for r := range m.regs {
				if r != c.reg && g.activeIn(r) > 0 {
					return false
				}
			}
		}
	}
	return true
}

func (g *Gen) clientName() string {
	if g.rnd.Intn(6) == 0 {
		return g.pick([]string{"", ".", "..", "a/b", "/abs", "../up", "dir/", "./x"})
	}
	for i := 0; ; i++ {
		n := g.pick([]string{"client", "c.d", ".hidden", "with space", "ünïcode", "...", "-x", "a\\b", "C", "%d", "~", "no[gl]ob*"})
		if i > 4 {
			n = fmt.Sprintf("%s-%d", n, i)
		}
		if g.rnd.Intn(12) == 0 {
			n = strings.Repeat("n", 255)
		}
		if !g.used[n] {
			g.used[n] = true
			return n
		}
	}
}

func (g *Gen) grammarString() string {
	ids := []string{"a", "b", "m", "x_1", "9", "été", "名", "_", "A0"}
	switch g.rnd.Intn(5) {
	case 0: // any characters
		cs := []rune("ab_9é.[], \t-\n²½\u00a0\u3000@/][..,,")
		n := g.rnd.Intn(9)
		s := ""
		for i := 0; i < n; i++ {
			s += string(cs[g.rnd.Intn(len(cs))])
		}
		return s
	case 1: // no list
		s := g.pick(ids)
		for g.rnd.Intn(2) == 0 {
			s += "." + g.pick(ids)
		}
		return s
	}
	s := g.pick(ids)
	for g.rnd.Intn(2) == 0 {
		s += "." + g.pick(ids)
	}
	s += "["
	n := 1 + g.rnd.Intn(3)
	for i := 0; i < n; i++ {
		if i > 0 {
			s += g.pick([]string{",", ", ", ", ", ",\t"})
		}
		s += g.pick(ids)
	}
	s += "]"
	for g.rnd.Intn(2) == 0 {
		s += "." + g.pick(ids)
	}
	if g.rnd.Intn(4) == 0 { // one change
		r := []rune(s)
		i := g.rnd.Intn(len(r))
		switch g.rnd.Intn(3) {
		case 0:
			r = append(r[:i:i], r[i+1:]...)
		case 1:
			r[i] = []rune(".[], a-")[g.rnd.Intn(7)]
		case 2:
			r = append(r[:i:i], append([]rune{[]rune(".[], a-\n")[g.rnd.Intn(8)]}, r[i:]...)...)
		}
		return string(r)
	}
	return s
}

// op makes the next operation, or says that the choice is not possible
func (g *Gen) op(kind string) (o Op, ok bool) {
	w := g.w
	o.Img = g.rnd.Intn(12) == 0
	o.Must = g.rnd.Intn(4) == 0
	o.On = g.rnd.Intn(2) == 0
	c := g.anyC()
	if c < 0 && kind != "newcli" && kind != "newindom" && kind != "newmetric" && kind != "upd" && kind != "timer" && kind != "hist" && kind != "info" && kind != "get" && kind != "erase" {
		return o, false
	}
	o.C = c
	switch kind {
	case "newcli":
		if len(w.cli) >= g.p.Ncli {
			return o, false
		}
		o.Op, o.C, o.Name = "client", g.nextC, g.clientName()
		o.Reg = g.nextR
		if g.nextR > 1 && g.rnd.Intn(6) == 0 {
			o.Reg = 1 + g.rnd.Intn(g.nextR-1)
		} else {
			g.nextR++
		}
		o.Plain = g.rnd.Intn(2) == 0
		g.nextC++
	case "newindom", "indombyname":
		o.Op = map[string]string{"newindom": "indom", "indombyname": "indombyname"}[kind]
		o.D, o.Name, o.Insts = g.nextD, g.name(), g.instNames()
		if kind == "newindom" {
			o.Desc = g.desc()
		}
		if d := g.anyD(); d >= 0 && g.rnd.Intn(4) == 0 {
			// much like an earlier one
			o.Name, o.Insts = w.ind[d].name, append([]string{}, w.ind[d].insts...)
			switch g.rnd.Intn(8) {
			case 6, 7: // the same letters, cut otherwise
				if n := len(o.Insts); n > 0 {
					k := g.rnd.Intn(n)
					x := o.Insts[k]
					if c := len(x) / 2; c > 0 && n == 1 {
						o.Insts = []string{x[:c], x[c:]}
					} else if n > 1 {
						j := (k + 1) % n
						if len(x)+len(o.Insts[j]) > 255 {
							break
						}
						o.Insts[j] = x + o.Insts[j]
						if o.Insts[k] = ""; g.rnd.Intn(2) == 0 {
							o.Insts = append(o.Insts[:k], o.Insts[k+1:]...)
						}
					}
				}
			case 0:
				g.rnd.Shuffle(len(o.Insts), func(i, j int) { o.Insts[i], o.Insts[j] = o.Insts[j], o.Insts[i] })
			case 1:
				o.Name = g.name()
			case 2:
				if n := len(o.Insts); n > 0 {
					o.Insts[g.rnd.Intn(n)] = g.pick([]string{"i", "j", "k", "z"})
				}
			}
		}
		g.nextD++
	case "newmetric":
		kinds := g.p.Kinds
		if kinds == nil {
			kinds = allKinds
		}
		o.Op, o.Kind, o.M, o.Name, o.Desc = "metric", g.pick(kinds), g.nextM, g.name(), g.desc()
		o.T, o.Sem = g.rnd.Intn(7), []int{0, 1, 3, 4}[g.rnd.Intn(4)]
		o.U, o.Simple = g.unit()
		g.nextM++
		switch o.Kind {
		case "single":
			o.V = g.val(o.T)
			if g.rnd.Intn(2) == 0 {
				o.V = g.aVal(o.T)
			}
		case "inst":
			o.D = g.anyD()
			if o.D < 0 {
				return o, false
			}
			for _, i := range w.ind[o.D].insts {
				o.Vals = append(o.Vals, IV{i, g.aVal(o.T)})
			}
			switch g.rnd.Intn(10) {
			case 0:
				o.Vals = append(o.Vals, IV{"extra", g.aVal(o.T)})
			case 1:
				if len(o.Vals) > 0 {
					o.Vals = o.Vals[1:]
				}
			case 2:
				if len(o.Vals) > 0 {
					o.Vals[0].I = "other"
				}
			case 3:
				if len(o.Vals) > 0 {
					o.Vals[len(o.Vals)-1].V = g.val(o.T)
				}
			}
			o.Vals = dedup(o.Vals)
		case "counter":
			o.V = g.i64()
			if g.rnd.Intn(2) == 0 {
				o.V = int64(g.rnd.Intn(50))
			}
		case "gauge":
			o.V = g.f64()
		case "timer":
			o.T = g.rnd.Intn(6)
		case "cvec":
			o.D = g.nextD
			g.nextD++
			for _, i := range g.instNames() {
				o.Vals = append(o.Vals, IV{i, g.i64()})
			}
			o.Vals = dedup(o.Vals)
		case "gvec":
			o.D = g.nextD
			g.nextD++
			for _, i := range g.instNames() {
				o.Vals = append(o.Vals, IV{i, g.f64()})
			}
			o.Vals = dedup(o.Vals)
		case "hist":
			g.histParams(&o)
		}
	case "regindom":
		o.Op, o.D = "regindom", g.anyD()
		return o, o.D >= 0
	case "register":
		o.Op = "register"
		o.M = g.anyM(func(m *met) bool {
			if other := len(m.regs); m.regs[w.cli[c].reg] && other == 1 || other == 0 {
			} else if g.rnd.Intn(4) > 0 {
				return false
			}
			return len(m.regs) == 0 || g.rnd.Intn(4) == 0
		})
		if o.M < 0 {
			return o, false
		}
		// not into the registries of two started clients
		for r := range w.met[o.M].regs {
			if r != w.cli[c].reg && g.activeIn(r) > 0 && g.activeIn(w.cli[c].reg) > 0 {
				return o, false
			}
		}
	case "regstring":
		o.Op, o.M, o.D = "regstring", g.nextM, g.nextD
		g.nextM++
		g.nextD++
		o.T, o.Sem = g.rnd.Intn(7), []int{0, 1, 3, 4}[g.rnd.Intn(4)]
		o.U, o.Simple = g.unit()
		o.Str = g.grammarString()
		if g.p.Pool > 0 {
			o.Str = ""
			for _, n := range g.names {
				if !strings.ContainsAny(n, "[]") && g.rnd.Intn(5) == 0 {
					o.Str = n
				}
			}
		} else if g.rnd.Float64() < g.p.Long {
			o.Str = g.longName()
			if g.rnd.Intn(2) == 0 {
				o.Str = o.Str[:len(o.Str)/2] + "[i, j]." + o.Str[len(o.Str)/2:]
			}
		}
		o.V = g.aVal(o.T)
		if g.rnd.Intn(5) == 0 {
			o.V = g.val(o.T)
		}
		a, b := strings.IndexByte(o.Str, '['), strings.IndexByte(o.Str, ']')
		if a >= 0 && b > a {
			o.IsI = g.rnd.Intn(12) > 0
			for _, p := range strings.Split(o.Str[a+1:b], ",") {
				o.Vals = append(o.Vals, IV{strings.TrimSpace(p), g.aVal(o.T)})
			}
			o.Vals = dedup(o.Vals)
			if g.rnd.Intn(10) == 0 {
				o.Vals = append(o.Vals, IV{"extra", g.aVal(o.T)})
			}
			if g.rnd.Intn(12) == 0 {
				o.Vals[0].V = g.val(o.T)
			}
			o.Vals = dedup(o.Vals)
		} else {
			o.IsI = g.rnd.Intn(12) == 0
		}
	case "upd":
		o.Op = "upd"
		o.M = g.anyM(func(m *met) bool {
			return m.kind != "timer" && m.kind != "hist" && (len(m.regs) > 0 || g.rnd.Intn(5) == 0)
		})
		if o.M < 0 {
			return o, false
		}
		g.updOp(&o, w.met[o.M])
	case "timer":
		o.Op, o.F = "timer", g.pick([]string{"TStart", "TStart", "TStop", "TStop", "TStop", "TReset"})
		o.M = g.anyM(func(m *met) bool { return m.kind == "timer" })
		if g.rnd.Intn(2) == 0 {
			o.Sleep = time.Duration(g.rnd.Intn(1500)) * time.Microsecond
		}
		if g.rnd.Intn(3) == 0 {
			o.F, o.Sleep = "TTick", time.Duration(g.rnd.Intn(20000)>>g.rnd.Intn(8))
		}
		return o, o.M >= 0
	case "hist":
		o.Op = "hist"
		o.M = g.anyM(func(m *met) bool { return m.kind == "hist" })
		if o.M < 0 {
			return o, false
		}
		return o, g.histOp(&o, w.met[o.M])
	case "flag":
		o.Op, o.Flag = "flag", []int{1, 2, 4, 3, 6, 7, 0}[g.rnd.Intn(7)]
	case "start":
		o.Op = "start"
		if g.rnd.Float64() < g.p.Fault {
			o.Fault = g.pick([]string{"dir", "mmv", "nofile", "fsize"})
			if w.cli[c].active && (o.Fault == "nofile" || o.Fault == "fsize") {
				o.Fault = "dir"
			}
		}
		o.Must = o.Must && g.rnd.Intn(2) == 0
		if w.cli[c].active && g.rnd.Intn(3) > 0 {
			return o, false
		}
		return o, g.canStart(w.cli[c])
	case "vanish":
		o.Op = "vanish"
	case "stop":
		o.Op = "stop"
		if !w.cli[c].active && g.rnd.Intn(3) > 0 {
			return o, false
		}
	case "erase":
		o.Op = "erase"
	case "has":
		o.Op, o.Name = "has", g.pick(append([]string{"histogram", "a.b", "m"}, g.names...))
		if g.rnd.Intn(2) == 0 {
			if d := g.anyD(); d >= 0 {
				o.Name = w.ind[d].name
			}
		} else if m := g.anyM(func(*met) bool { return true }); m >= 0 {
			o.Name = w.met[m].name
		}
	case "info":
		o.Op, o.M = "info", g.anyM(func(*met) bool { return true })
		return o, o.M >= 0
	case "get":
		o.Op = "get"
		o.M = g.anyM(func(m *met) bool { return m.kind == "inst" || m.kind == "cvec" || m.kind == "gvec" })
		if o.M < 0 {
			return o, false
		}
		o.I = g.inst(w.met[o.M])
	case "made":
		o.Op, o.Insts = "made", nil
		for len(o.Insts) < 7 {
			o.Insts = append(o.Insts, g.pick(append(shortNames, g.names...)))
		}
	case "image":
		o.Op, o.Img = "image", true
	}
	return o, true
}

func dedup(vs []IV) []IV {
	m := map[string]bool{}
	r := []IV{}
	for _, v := range vs {
		if !m[v.I] {
			m[v.I] = true
			r = append(r, v)
		}
	}
	return r
}

func (g *Gen) inst(m *met) string {
	if len(m.insts) == 0 || g.rnd.Intn(9) == 0 {
		return g.pick([]string{"no such", "", "i", "min"})
	}
	return m.insts[g.rnd.Intn(len(m.insts))]
}

func (g *Gen) updOp(o *Op, m *met) {
	switch m.kind {
	case "single":
		o.F, o.V = "Set", g.val(m.t)
	case "inst":
		o.F, o.V, o.I = "Set", g.val(m.t), g.inst(m)
	case "counter", "cvec":
		o.F = g.pick([]string{"Set", "Inc", "Inc", "Inc"})
		if m.kind == "cvec" {
			o.I = g.inst(m)
			if !g.p.NoAll && g.rnd.Intn(4) == 0 {
				o.F, o.I, o.Must = g.pick([]string{"SetAll", "IncAll"}), "", false
			}
		} else if o.F == "Set" {
			o.Must = false
		}
		switch g.rnd.Intn(5) {
		case 0:
			o.V = g.i64()
		case 1:
			o.V = int64(1)
		case 2: // around the current value, or what is missing to the highest
			o.V = int64(g.rnd.Intn(3))
			i := o.I
			if i == "" && len(m.insts) > 0 {
				i = m.insts[g.rnd.Intn(len(m.insts))]
			}
			if v, err := readInst(m, i); err == nil {
				c := v.(int64)
				d := int64(g.rnd.Intn(3)) - 1
				if strings.HasPrefix(o.F, "Set") {
					o.V = c + d
				} else if c >= 0 {
					o.V = math.MaxInt64 - c + d
				}
			}
		default:
			o.V = int64(g.rnd.Intn(40)) - 4
		}
	case "gauge", "gvec":
		o.F = g.pick([]string{"Set", "Inc", "Dec", "Inc", "Dec"})
		o.V = g.f64()
		if m.kind == "gvec" {
			o.I = g.inst(m)
			if !g.p.NoAll && g.rnd.Intn(4) == 0 {
				o.F, o.I, o.Must = g.pick([]string{"SetAll", "IncAll", "DecAll"}), "", false
			}
		}
	}
}

func (g *Gen) histParams(o *Op) {
	o.Sig, o.Q, o.CQ = int64(g.rnd.Intn(7)), 1, 1
	if g.rnd.Intn(6) == 0 {
		o.CQ = 1 << 31
	}
	switch g.rnd.Intn(10) {
	case 0:
		o.Low, o.High = int64(g.rnd.Intn(400)), int64(g.rnd.Intn(400))
	case 1:
		o.Low, o.High = 0, 200
	case 2: // powers of 2
		o.Low, o.High = int64(g.rnd.Intn(2)), int64(1)<<uint(g.rnd.Intn(12))
	case 3, 4: // wide
		o.Q, o.CQ = 1<<(12+uint(g.rnd.Intn(8))), 1
		m := 3600000000 / o.Q
		o.Low, o.High = 0, []int64{m, m + 1, m * 2, 2000, 4000, 1000}[g.rnd.Intn(6)]
		if g.rnd.Intn(3) == 0 {
			o.Low = []int64{1, 2, 5}[g.rnd.Intn(3)]
		}
		if o.High*o.Q < 4096 {
			o.High = 4000
		}
	case 5:
		o.Low, o.High = -5, int64(g.rnd.Intn(300))
	default:
		o.Low, o.High = []int64{0, 1, 1, 2, 10}[g.rnd.Intn(5)], []int64{100, 150, 1000, 2000, 200}[g.rnd.Intn(5)]
	}
}

func (g *Gen) histOp(o *Op, m *met) bool {
	h := g.hs[o.M]
	if h == nil {
		h = &hstat{vals: map[int64]bool{}, cnt: map[int64]int64{}}
		g.hs[o.M] = h
	}
	lim, maxn, maxd := int64(200), 50, 30
	if m.q > 1 {
		lim, maxn, maxd = 4000, 8, 8
	}
	high := m.high
	if high < 0 {
		high = 0
	}
	if high > 3600000000/m.q {
		high = 3600000000 / m.q
	}
	o.N = 1
	if g.rnd.Intn(4) == 0 {
		o.N = int64(g.rnd.Intn(5)) - 1
		if h.distinct == 0 && g.rnd.Intn(2) == 0 {
			o.N = 1 + g.rnd.Int63n(50000)
		}
	}
	switch g.rnd.Intn(12) {
	case 0:
		o.Val = -1
	case 1:
		o.Val = high
	case 2:
		o.Val = high + 1 + g.rnd.Int63n(high+2)
	case 3:
		o.Val = 0
	case 4, 5, 6:
		// what leaves the mean, the deviation or an end where it is
		n, sum, sq := int64(0), int64(0), int64(0)
		for v := range h.vals {
			n, sum, sq = n+h.cnt[v], sum+v*h.cnt[v], sq+v*v*h.cnt[v]
		}
		if n == 0 || high == 0 {
			break
		}
		dev := int64(math.Round(math.Sqrt(float64(n*sq-sum*sum)) / float64(n)))
		switch g.rnd.Intn(6) {
		case 0:
			o.Val = (sum + n/2) / n
		case 1:
			o.Val = sum/n + dev
		case 2:
			o.Val = sum/n - dev
		case 3:
			vs := sorted64(h.vals)
			o.Val = []int64{vs[0], vs[len(vs)-1], vs[len(vs)/2]}[g.rnd.Intn(3)]
		default:
			if sum%n == 0 {
				o.Val = sum / n
			} else if o.Val = (n + 1 - sum%(n+1)) % (n + 1); o.N == 1 {
				// the next one can be the mean
				if k := (high - o.Val) / (n + 1); k > 0 {
					o.Val += (n + 1) * g.rnd.Int63n(k+1)
				}
			}
		}
		if o.Val < 0 || o.Val > high {
			o.Val = high
		}
	default:
		o.Val = g.rnd.Int63n(high + 1)
		if g.rnd.Intn(2) == 0 && h.distinct > 0 {
			for _, v := range sorted64(h.vals) {
				if g.rnd.Intn(h.distinct) == 0 {
					o.Val = v
				}
			}
		}
	}
	// the arithmetic of the specification is on small numbers
	if o.Val > lim && !(h.distinct == 0 || h.distinct == 1 && h.vals[o.Val]) {
		o.Val %= lim + 1
	}
	for v := range h.vals {
		if v > lim && v != o.Val {
			o.Val = v
			break
		}
	}
	if o.N > 0 && (h.n+int(o.N) > maxn) {
		if h.distinct != 1 || !h.vals[o.Val] || m.q > 1 {
			return false
		}
	}
	if !h.vals[o.Val] && h.distinct >= maxd {
		return false
	}
	if o.N > 0 && o.Val >= 0 && !h.vals[o.Val] {
		h.vals[o.Val] = true
		h.distinct++
	}
	if o.N > 0 {
		h.n += int(o.N)
		if o.Val <= high {
			h.cnt[o.Val] += o.N
		}
	}
	return true
}

func sorted64(m map[int64]bool) []int64 {
	r := []int64{}
	for k := range m {
		r = append(r, k)
	}
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// session runs one
func (g *Gen) session() bool {
	g.begin()
	defer g.w.end()
	if g.keep != nil {
		defer func() {
			for _, c := range g.w.cli {
				if c.active {
					if b, err := os.ReadFile(c.loc); err == nil {
						g.keep(b)
					}
				}
			}
		}()
	}
	kinds := []string{"newcli", "newindom", "newmetric", "regindom", "indombyname", "register", "regstring", "upd", "timer", "hist", "flag", "start", "stop", "erase", "has", "info", "get", "image", "vanish", "made"}
	if g.p.One && !g.oneLong() {
		return false
	}
	tot := 0
	for _, k := range kinds {
		tot += g.p.W[k]
	}
	run := func(kind string) bool {
		o, ok := g.op(kind)
		return !ok || g.w.do(o)
	}
	for i := 0; i < 3 && len(g.w.cli) == 0; i++ {
		if !run("newcli") {
			return false
		}
	}
	for i := 0; i < g.p.Nops; i++ {
		// registrations first, mostly
		if i < 6 && g.p.W["newmetric"] > 0 && g.rnd.Intn(2) == 0 {
			if !run("newmetric") || !run("register") {
				return false
			}
			continue
		}
		if i == 8 && g.p.W["upd"]+g.p.W["hist"]+g.p.W["timer"] > 40 && !run("start") {
			return false
		}
		x := g.rnd.Intn(tot)
		for _, k := range kinds {
			x -= g.p.W[k]
			if x < 0 {
				if !run(k) {
					return false
				}
				break
			}
		}
	}
	return true
}

// sized is a text of n bytes, of characters with up to four bytes each
func (g *Gen) sized(n int, letters bool) string {
	cs := [][]string{{"a", "b", "7"}, {"é", "ü"}, {"名", "前"}, {"a", "é", "名"}, {"😀", "a"}}
	k := g.rnd.Intn(len(cs))
	if letters && k == 4 {
		k = 3
	}
	s := ""
	for len(s) < n {
		s += g.pick(cs[k])
	}
	for len(s) > n {
		r := []rune(s)
		s = string(r[:len(r)-1])
	}
	for len(s) < n {
		s += "z"
	}
	return s
}

// oneLong is a few registrations, one of which has a name or text next to a
// limit, then a start
func (g *Gen) oneLong() bool {
	w := g.w
	g.nextC = 2
	if !w.do(Op{Op: "client", C: 1, Name: "client", Reg: 1}) || w.cli[1] == nil {
		return !w.broken
	}
	long := func(letters bool) string {
		ls := []int{60, 62, 63, 63, 64, 64, 65, 70, 90, 126, 128, 189, 192, 252}
		if g.rnd.Intn(3) == 0 {
			ls = []int{250, 253, 254, 255, 255, 256, 256, 257, 258, 300, 512}
		}
		return g.sized(ls[g.rnd.Intn(len(ls))], letters)
	}
	plain := func(n int) bool {
		kind := g.pick([]string{"single", "counter", "cvec", "gauge", "hist", "regstring"})
		o := Op{Op: "metric", Kind: kind, M: g.nextM, D: g.nextD, Name: fmt.Sprintf("plain.n%d", n), T: 2, Sem: 1, V: int64(3), Low: 0, High: 100, Sig: 2, Q: 1}
		g.nextM++
		g.nextD++
		switch kind {
		case "gauge":
			o.V = 2.5
		case "cvec":
			o.Vals = []IV{{"i", int64(1)}, {"j", int64(2)}}
		case "regstring":
			o.Op, o.Kind, o.C, o.Str = "regstring", "", 1, fmt.Sprintf("plain.n%d", n)
			return w.do(o)
		}
		return w.do(o) && (w.met[o.M] == nil || w.do(Op{Op: "register", C: 1, M: o.M}))
	}
	special := func() bool {
		m, d := g.nextM, g.nextD
		g.nextM++
		g.nextD++
		put := func(o Op) bool {
			o.M, o.D, o.Sem, o.U = m, d, 1, []uStep{{'c', 0, 1}}
			o.Op = "metric"
			return w.do(o) && (w.met[m] == nil || w.do(Op{Op: "register", C: 1, M: m}))
		}
		switch g.rnd.Intn(13) {
		case 0:
			return put(Op{Kind: "single", Name: long(false), T: 0, V: int32(1)})
		case 1:
			return put(Op{Kind: "counter", Name: long(false), V: int64(1)})
		case 2:
			return put(Op{Kind: "hist", Name: long(false), High: 100, Sig: 2, Q: 1})
		case 3:
			return put(Op{Kind: "gvec", Name: long(false), Vals: []IV{{"i", 1.5}}})
		case 4:
			return put(Op{Kind: "cvec", Name: "v", Vals: []IV{{"i", int64(4)}, {long(false), int64(5)}}})
		case 5:
			return put(Op{Kind: "gvec", Name: "v", Vals: []IV{{"i", 4.0}, {long(false), 5.0}}})
		case 6:
			return put(Op{Kind: "single", Name: "s", T: 6, V: long(false)})
		case 7:
			return put(Op{Kind: "single", Name: "s", T: 1, V: uint32(9), Desc: []string{long(false)}})
		case 8:
			return put(Op{Kind: "gauge", Name: "s", V: 1.0, Desc: []string{"t", long(false)}})
		case 9, 10: // instances, the name or a text of an instance domain
			o := Op{Op: "indom", D: d, Name: "dom", Insts: []string{"i", "j"}}
			switch g.rnd.Intn(5) {
			case 0:
				o.Name = long(false)
			case 1:
				o.Desc = []string{long(false)}
			case 2:
				o.Desc = []string{"t", long(false)}
			default:
				o.Insts[g.rnd.Intn(2)] = long(false)
			}
			if g.rnd.Intn(3) == 0 && len(o.Desc) == 0 {
				o.Op, o.C = "indombyname", 1
			}
			if !w.do(o) {
				return false
			}
			if w.ind[d] == nil {
				return true
			}
			if g.rnd.Intn(2) == 0 {
				return w.do(Op{Op: "regindom", C: 1, D: d})
			}
			q := Op{Kind: "inst", Name: "im", T: 6}
			for _, i := range w.ind[d].insts {
				q.Vals = append(q.Vals, IV{i, "v" + i[:1]})
			}
			return put(q)
		case 11:
			return w.do(Op{Op: "regstring", C: 1, M: m, D: d, Str: long(true), T: 2, V: int64(3)})
		}
		x := long(true)
		o := Op{Op: "regstring", C: 1, M: m, D: d, Str: "a[i," + x + "].b", T: 2, IsI: true, Vals: []IV{{"i", int64(1)}, {x, int64(2)}}}
		if g.rnd.Intn(3) == 0 {
			o.Str, o.Vals = x+"[i].b", []IV{{"i", int64(1)}}
		}
		return w.do(o)
	}
	n := g.rnd.Intn(4)
	at := g.rnd.Intn(n + 1)
	for i := 0; i <= n; i++ {
		if i == at && !special() || i != at && !plain(i) {
			return false
		}
	}
	if !w.do(Op{Op: "start", C: 1}) {
		return false
	}
	// later texts
	for m := 1; m < g.nextM; m++ {
		if x := w.met[m]; x != nil && x.t == 6 {
			i := x.insts[g.rnd.Intn(len(x.insts))]
			if !w.do(Op{Op: "upd", M: m, F: "Set", I: i, V: long(false)}) || !w.do(Op{Op: "image", Img: true}) {
				return false
			}
		}
	}
	return true
}

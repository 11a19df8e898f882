package main

import (
	"fmt"
	"sort"
)

// A session with a registry that is large in one or all ways: many instances of
// a domain, many domains, many metrics, many texts. shape is which, -1 for any.

const largeShapes, growShapes = 5, 4

func (g *Gen) large(size, shape int) bool {
	g.begin()
	defer g.w.end()
	w := g.w
	ncli := 1 + g.rnd.Intn(2)
	for c := 1; c <= ncli; c++ {
		if !w.do(Op{Op: "client", C: c, Name: fmt.Sprintf("large-%d", c), Reg: c}) || w.cli[c] == nil {
			return !w.broken
		}
	}
	some := func(n int) int { return n/2 + g.rnd.Intn(n/2+1) }
	ninst, ndom, nmet := 4, 3, 6
	texts, ntype := g.rnd.Intn(3), -1
	if shape < 0 {
		shape = g.rnd.Intn(largeShapes)
	} else {
		texts = 2
	}
	switch shape {
	case 0:
		ninst, nmet = some(size), 3
	case 1:
		ndom = some(size * 2 / 3)
	case 2:
		nmet = some(size)
	case 3:
		ninst, ndom, nmet = some(size/8), some(size/16), some(size/8)
	case 4: // texts everywhere
		nmet, texts, ntype, ncli = size+g.rnd.Intn(size/4), 2, 6, 1
	}
	text := func(k string, n int) []string {
		r := []string{}
		for i := 0; i < texts; i++ {
			r = append(r, fmt.Sprintf("%s %d %d", k, n, i))
		}
		return r
	}
	v2 := g.rnd.Intn(3) == 0
	inst := func(d, i int) string {
		if v2 && i == 0 && d == 0 {
			return g.sized(64+g.rnd.Intn(100), false)
		}
		return fmt.Sprintf("d%d.i%d", d, i)
	}
	m, d, first, ds := 0, 0, 0, []int{}
	add := func() bool {
		for k := 0; k < ndom; k++ {
			d++
			o := Op{Op: "indom", D: d, Name: fmt.Sprintf("dom.%d", d), Desc: text("domain", d)}
			n := ninst
			if k > 0 && ninst > 20 || n == 4 {
				n = 1 + g.rnd.Intn(3)
			}
			for i := 0; i < n; i++ {
				o.Insts = append(o.Insts, inst(k, i))
			}
			if !w.do(o) || w.ind[d] == nil || !w.do(Op{Op: "regindom", C: 1 + g.rnd.Intn(ncli), D: d}) {
				return false
			}
			ds = append(ds, d)
		}
		first = m + 1
		for k := 0; k < nmet; k++ {
			m++
			o := Op{Op: "metric", M: m, Name: fmt.Sprintf("metric.%d", m), Sem: 1, Desc: text("metric", m), U: []uStep{{'c', 0, 1}}}
			o.Kind = g.pick([]string{"single", "single", "counter", "gauge", "inst", "inst"})
			if k == 0 && ninst > 8 {
				// over all instances
				o.Kind = g.pick([]string{"inst", "cvec", "gvec"})
			}
			if shape == 0 && k < 3 {
				o.Kind = []string{"gvec", "cvec", "inst"}[k]
			}
			o.T = g.rnd.Intn(7)
			if ntype >= 0 {
				o.Kind, o.T = "single", ntype
			}
			if o.T == 6 && ninst > 20 && g.rnd.Intn(2) == 0 {
				o.T = 3
			}
			o.V = g.aVal(o.T)
			switch o.Kind {
			case "counter":
				o.V = int64(g.rnd.Intn(100))
			case "gauge":
				o.V = float64(g.rnd.Intn(100)) / 4
			case "inst":
				o.D = ds[g.rnd.Intn(len(ds))]
				if k == 0 || shape == 0 {
					o.D = ds[len(ds)-ndom]
				}
				for _, i := range w.ind[o.D].insts {
					o.Vals = append(o.Vals, IV{i, g.aVal(o.T)})
				}
			case "cvec":
				d++
				o.D = d
				for i := 0; i < ninst; i++ {
					o.Vals = append(o.Vals, IV{inst(0, i), int64(i)})
				}
			case "gvec":
				d++
				o.D = d
				for i := 0; i < ninst; i++ {
					o.Vals = append(o.Vals, IV{inst(0, i), float64(i) / 2})
				}
			}
			if !w.do(o) {
				return false
			}
			if w.met[m] == nil { // a text that is too long
				m--
			} else if !w.do(Op{Op: "register", C: 1 + g.rnd.Intn(ncli), M: m}) {
				return false
			}
		}
		return true
	}
	upd := func() bool {
		if !g.wholes(5) {
			return false
		}
		n := 5
		if ntype == 6 {
			n = 14
		}
		for k := 0; k < n; k++ {
			o := Op{Op: "upd", M: 1 + g.rnd.Intn(m)}
			if k == 0 {
				o.M = m
			}
			if k == 1 {
				o.M = first
			}
			g.updOp(&o, w.met[o.M])
			if n := len(w.met[o.M].insts); n > 0 && o.I != "" {
				o.I = w.met[o.M].insts[n-1]
			}
			if !w.do(o) {
				return false
			}
		}
		return true
	}
	run := func(ops ...Op) bool {
		for _, o := range ops {
			if !w.do(o) {
				return false
			}
		}
		return true
	}
	start := func() bool {
		for c := 1; c <= ncli; c++ {
			if !w.do(Op{Op: "start", C: c}) {
				return false
			}
		}
		return true
	}
	if !add() || m == 0 || !start() || !upd() || !run(Op{Op: "register", C: 1, M: 1}, Op{Op: "stop", C: 1}) {
		return m == 0 && !w.broken
	}
	// some more, of each
	nmet, ndom, ninst = 2, 1, 3
	return add() && run(Op{Op: "start", C: 1}) && upd() && run(Op{Op: "image", Img: true}, Op{Op: "has", C: 1, Name: "metric.1"})
}

// wholes calls what updates all instances, for the last so many vectors
func (g *Gen) wholes(last int) bool {
	keys := []int{}
	for k := range g.w.met {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	if len(keys) > last {
		keys = keys[len(keys)-last:]
	}
	for _, k := range keys {
		m := g.w.met[k]
		n := int64(g.rnd.Intn(50))
		for _, f := range []string{"SetAll", "IncAll", "DecAll"} {
			o := Op{Op: "upd", M: k, F: f}
			switch {
			case m.kind == "gvec":
				o.V = float64(n) / 4
			case m.kind == "cvec" && f != "DecAll":
				o.V = n
			default:
				continue
			}
			if !g.w.do(o) {
				return false
			}
		}
	}
	return true
}

// grow starts a client with registries of one size after another
func (g *Gen) grow(shape int, sizes []int) bool {
	g.begin()
	defer g.w.end()
	w := g.w
	run := func(ops ...Op) bool {
		for _, o := range ops {
			if !w.do(o) {
				return false
			}
		}
		return true
	}
	if !run(Op{Op: "client", C: 1, Name: "grow", Reg: 1}) || w.cli[1] == nil {
		return !w.broken
	}
	m, d, t := 0, 0, 0
	unit := []uStep{{'c', 0, 1}}
	single := func(desc ...string) bool {
		m++
		return run(Op{Op: "metric", Kind: "single", M: m, Name: fmt.Sprintf("metric.%d", m), Sem: 3, T: 1 + m%2, V: []interface{}{uint32(m), int64(m)}[m%2], U: unit, Desc: desc},
			Op{Op: "register", C: 1, M: m})
	}
	dom := func(n int, desc ...string) bool {
		d++
		o := Op{Op: "indom", D: d, Name: fmt.Sprintf("dom.%d", d), Desc: desc}
		for i := 0; i < n; i++ {
			o.Insts = append(o.Insts, fmt.Sprintf("d%d.i%d", d, i))
		}
		return run(o, Op{Op: "regindom", C: 1, D: d})
	}
	// all of the last vectors, and the ends of them
	touch := func() bool {
		if !g.wholes(2) {
			return false
		}
		for k := m; k > 0 && k > m-3; k-- {
			x := w.met[k]
			o := Op{Op: "upd", M: k, F: "Set"}
			if n := len(x.insts); n > 0 {
				o.I = x.insts[n-1]
			}
			o.V = g.aVal(x.t)
			switch x.kind {
			case "cvec":
				o.V = int64(1) << 40
			case "gvec":
				o.V = 2.5
			}
			if !run(o) {
				return false
			}
		}
		return true
	}
	c := 1
	for k, n := range sizes {
		if shape == 3 && n > 520 {
			break
		}
		switch shape {
		case 0: // metrics
			for m < n {
				if !single() {
					return false
				}
			}
		case 1: // domains
			for d < n {
				if !dom(1 + d%2) {
					return false
				}
			}
			if k == 0 && !single() {
				return false
			}
		case 2: // texts
			for ; t < n; t++ {
				desc := []string{fmt.Sprintf("text %d", t)}
				if t+1 < n && t%3 == 0 {
					t++
					desc = append(desc, fmt.Sprintf("text %d", t))
				}
				if t%2 == 0 && !single(desc...) || t%2 == 1 && !dom(1, desc...) {
					return false
				}
			}
		case 3: // instances, of a registry of its own each
			if k > 0 {
				c++
				if !run(Op{Op: "stop", C: c - 1}, Op{Op: "client", C: c, Name: fmt.Sprintf("grow-%d", c), Reg: c}) {
					return false
				}
			}
			vals := func(v interface{}) []IV {
				r := []IV{}
				for i := 0; i < n; i++ {
					r = append(r, IV{fmt.Sprintf("v%d", i), v})
				}
				return r
			}
			for j, kind := range []string{"cvec", "gvec"} {
				m, d = m+1, d+1
				if !run(Op{Op: "metric", Kind: kind, M: m, D: d, Name: fmt.Sprintf("%s.%d", kind, n), Vals: vals([]interface{}{int64(3), 4.5}[j])}, Op{Op: "register", C: c, M: m}) {
					return false
				}
			}
			if !touch() {
				return false
			}
		}
		if !run(Op{Op: "start", C: c}) || !touch() {
			return false
		}
		if shape != 3 && !run(Op{Op: "stop", C: c}) {
			return false
		}
	}
	return true
}

// growSizes are those next to a power of two and multiples of it
func growSizes(far bool) []int {
	r := []int{1, 2, 3}
	for _, n := range []int{8, 16, 32, 64, 100, 128, 192, 256} {
		r = append(r, n-1, n, n+1)
	}
	if far {
		for _, n := range []int{320, 384, 500, 512, 640, 768, 1000, 1024} {
			r = append(r, n-1, n, n+1)
		}
	}
	return r
}

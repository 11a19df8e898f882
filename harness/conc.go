package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/performancecopilot/speed/v4"
)

// Histories of concurrent calls. A history is a setup, which is sequential, and
// then blocks: a few goroutines with a few calls each, every call with two
// stamps from one counter, so that a call that ended before another one began
// is known to have come first. After a block everything is read back.

// cop is a call of a block
type cop struct {
	e    J
	f    func() error
	done func() // completes e, after the block
	more []J    // further events of the same call
}

type concGen struct {
	w     *World
	rnd   *rand.Rand
	g     *Gen
	fam   string
	clis  []int
	mets  []int
	spare []int // not registered yet
	names []string
	nextM int
	nextD int
	hang  bool
	at    int // the store at which the first call of a block is held
	of    int // how many stores a start makes
	first int // the metric a held call is about
}

var stamp int64

// storms holds some stores back, which keeps the locks that are held around them
func storms(seed int64) func() {
	var n uint64 = uint64(seed)
	restore := setHook(func(b, d []byte, off int) {
		x := atomic.AddUint64(&n, 0x9E3779B97F4A7C15)
		x ^= x >> 29
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 32
		switch {
		case x%16 == 0:
			time.Sleep(time.Duration(20+x>>8%300) * time.Microsecond)
		case x%4 == 0:
			runtime.Gosched()
		}
	})
	return restore
}

// holds lets the k-th store from now on wait until it is told to go on
func holds(k int, at func(), on chan bool) func() {
	n := int64(k)
	return setHook(func(b, d []byte, off int) {
		if atomic.AddInt64(&n, -1) == 0 {
			at()
			<-on
		}
	})
}

func (c *concGen) held() bool { return strings.HasPrefix(c.fam, "held") }

func (c *concGen) do(o Op) bool {
	if !c.w.do(o) {
		c.hang = true
	}
	return !c.hang
}

func (c *concGen) iv(n int) int64 { return int64(c.rnd.Intn(n)) }

var instPool = []string{"i", "j", "k", "inst one", "ñ"}

func (c *concGen) insts() []string {
	n := 1 + c.rnd.Intn(3)
	p := c.rnd.Perm(len(instPool))[:n]
	r := []string{}
	for _, i := range p {
		r = append(r, instPool[i])
	}
	return r
}

// typed is a value of a type, small
func (c *concGen) typed(t int) interface{} {
	n := c.iv(60)
	switch t {
	case 0:
		return int32(n - 20)
	case 1:
		return uint32(n)
	case 2:
		return n - 20
	case 3:
		return uint64(n) + 1<<40
	case 4:
		return float32(n)
	case 5:
		return float64(n)
	}
	return strings.Repeat("v", int(n)) + fmt.Sprint(n%7)
}

// newMetric makes a metric object of a kind
func (c *concGen) newMetric(kind, name string) int {
	c.nextM++
	o := Op{Op: "metric", Kind: kind, M: c.nextM, Name: name, Sem: 3, T: c.rnd.Intn(7)}
	if c.rnd.Intn(3) == 0 {
		o.Desc = []string{"text of " + name}
	}
	o.U = []uStep{{'c', 0, 1}}
	vals := func(f func() interface{}) {
		for _, i := range c.insts() {
			o.Vals = append(o.Vals, IV{i, f()})
		}
	}
	switch kind {
	case "single":
		o.V = c.typed(o.T)
	case "inst":
		ds := []int{}
		for d := range c.w.ind {
			if d > 0 && c.w.ind[d].name == "shared" {
				ds = append(ds, d)
			}
		}
		sort.Ints(ds)
		if len(ds) == 0 {
			c.nextD++
			if !c.do(Op{Op: "indom", D: c.nextD, Name: "shared", Insts: c.insts()}) || c.w.ind[c.nextD] == nil {
				return -1
			}
			ds = append(ds, c.nextD)
		}
		o.D = ds[c.rnd.Intn(len(ds))]
		for _, i := range c.w.ind[o.D].insts {
			o.Vals = append(o.Vals, IV{i, c.typed(o.T)})
		}
	case "counter":
		o.V = c.iv(10)
	case "gauge":
		o.V = float64(c.iv(10))
	case "timer":
		o.T = c.rnd.Intn(4)
	case "cvec":
		c.nextD++
		o.D = c.nextD
		vals(func() interface{} { return c.iv(10) })
	case "gvec":
		c.nextD++
		o.D = c.nextD
		vals(func() interface{} { return float64(c.iv(10)) })
	case "hist":
		o.Low, o.High, o.Sig, o.Q = 0, 150, 2, 1
	}
	if !c.do(o) || c.w.met[c.nextM] == nil {
		return -1
	}
	return c.nextM
}

var famKinds = map[string][]string{
	"counter": {"counter", "cvec"},
	"metrics": {"single", "inst", "counter", "gauge", "cvec", "gvec"},
	"hist":    {"hist"},
	"timer":   {"timer"},
	"start":   allKinds,
	"reg":     {"single", "inst", "counter", "cvec"},
	"rush":    {"single", "inst", "counter", "cvec", "gauge"},
	"held":    allKinds,
	"heldupd": allKinds,
	"multi":   {"inst", "inst", "hist", "counter", "gvec", "single"},
}

// setup of a history
func (c *concGen) setup() bool {
	ncli := 1
	if c.fam == "multi" {
		ncli = 2 + c.rnd.Intn(2)
	}
	for i := 1; i <= ncli; i++ {
		if !c.do(Op{Op: "client", C: i, Name: fmt.Sprintf("conc%d", i), Reg: i}) || c.w.cli[i] == nil {
			return false
		}
		c.clis = append(c.clis, i)
	}
	kinds := famKinds[c.fam]
	n := map[string]int{"counter": 1 + c.rnd.Intn(2), "metrics": 1 + c.rnd.Intn(3), "hist": 1, "timer": 1, "start": 2 + c.rnd.Intn(4), "held": 2 + c.rnd.Intn(4), "heldupd": 1 + c.rnd.Intn(3), "reg": 6, "rush": 20 + c.rnd.Intn(30), "multi": 3 * ncli}[c.fam]
	c.names = []string{"m.a", "m.b", "m.c"}
	for i := 0; i < n; i++ {
		kind := kinds[c.rnd.Intn(len(kinds))]
		name := fmt.Sprintf("m%d", i)
		if c.fam == "reg" {
			name = c.names[c.rnd.Intn(3)]
		}
		if c.rnd.Intn(25) == 0 {
			name += strings.Repeat("long", 20)
		}
		m := c.newMetric(kind, name)
		if m < 0 {
			if c.hang {
				return false
			}
			continue
		}
		if c.fam == "rush" || c.fam == "reg" && c.rnd.Intn(4) > 0 || (c.fam == "start" || c.fam == "held") && c.rnd.Intn(5) == 0 {
			c.spare = append(c.spare, m)
			continue
		}
		cl := c.clis[i%len(c.clis)]
		if !c.do(Op{Op: "register", C: cl, M: m}) {
			return false
		}
		c.mets = append(c.mets, m)
	}
	if c.held() {
		var n int64
		undo := setHook(func(b, d []byte, off int) { atomic.AddInt64(&n, 1) })
		ok := c.do(Op{Op: "start", C: 1})
		undo()
		c.of = int(n)
		return ok
	}
	for _, cl := range c.clis {
		p := 9
		switch c.fam {
		case "reg":
			p = 2
		case "rush":
			p = 0
		}
		if c.rnd.Intn(10) < p && !c.do(Op{Op: "start", C: cl}) {
			return false
		}
	}
	return true
}

func (c *concGen) target(f func(*met) bool) int {
	ok := []int{}
	for _, m := range c.mets {
		if f(c.w.met[m]) {
			ok = append(ok, m)
		}
	}
	if len(ok) == 0 {
		return -1
	}
	return ok[c.rnd.Intn(len(ok))]
}

func (c *concGen) newCop(op string) *cop {
	return &cop{e: J{"op": op, "sid": c.w.sid}, done: func() {}}
}

// metricOp is an update or a read of a metric
func (c *concGen) metricOp(mi int) *cop {
	w, s := c.w, c.w.tr.syms
	m := w.met[mi]
	inst := ""
	if len(m.insts) > 0 {
		inst = m.insts[c.rnd.Intn(len(m.insts))]
	}
	switch m.kind {
	case "timer":
		p := c.newCop("timer")
		x := m.m.(*speed.PCPTimer)
		f := []string{"TStart", "TStart", "TStop", "TStop", "TStop", "TReset"}[c.rnd.Intn(6)]
		p.e["m"], p.e["f"], p.e["lo"], p.e["hi"], p.e["us"], p.e["tot"] = mi, f, 0, 30000000, 0, limbs(0)
		var tot float64
		switch f {
		case "TStart":
			p.f = x.Start
		case "TReset":
			p.f = x.Reset
		default:
			p.f = func() (err error) { tot, err = x.Stop(); return }
			p.done = func() {
				us := math.Round(tot * perMicro[m.timeUnit])
				if !(us > -1e9 && us < 2e9) {
					us = -1e9
				}
				p.e["us"], p.e["tot"] = int64(us), limbs(math.Float64bits(tot))
			}
		}
		return p
	case "hist":
		if c.rnd.Intn(4) == 0 {
			p := c.newCop("stat")
			x := m.m.(*speed.PCPHistogram)
			var v float64
			k := c.rnd.Intn(6)
			p.e["m"], p.e["which"], p.e["v"] = mi, k, 0
			p.f = []func() error{
				must(func() { v = float64(x.Min()) }),
				must(func() { v = float64(x.Max()) }),
				must(func() { v = 4 * x.Mean() }),
				must(func() { v = float64(x.Percentile(50)) }),
				must(func() {
					for _, b := range x.Buckets() {
						v += float64(b.Count)
					}
				}),
				must(func() { v = 4 * x.StandardDeviation() })}[k]
			p.done = func() {
				if v = math.Round(v); v > -2e9 && v < 2e9 {
					p.e["v"] = int64(v)
				} else {
					p.e["v"] = -2000000000
				}
			}
			return p
		}
		p := c.newCop("hist")
		o := Op{Val: c.iv(150), N: 1, On: c.rnd.Intn(2) == 0}
		if c.rnd.Intn(4) == 0 {
			o.N = c.iv(4)
		}
		if c.rnd.Intn(12) == 0 {
			o.Val = -1
		}
		p.e["m"], p.e["val"], p.e["n"] = mi, o.Val, o.N
		p.f = histCall(m, o)
		p.done = func() {
			if p.e["r"] == "ok" {
				m.n, m.sum, m.sq = m.n+o.N, m.sum+o.N*o.Val, m.sq+o.N*o.Val*o.Val
			}
		}
		return p
	}
	if c.rnd.Intn(5) == 0 {
		p := c.newCop("get")
		var v interface{}
		p.e["m"], p.e["i"], p.e["w"], p.e["s"] = mi, s.of(inst), limbs(0), 0
		p.f = func() (err error) { v, err = readInst(m, inst); return }
		p.done = func() {
			if v != nil {
				_, p.e["w"], p.e["s"] = s.storedJ(v)
			}
		}
		return p
	}
	p := c.newCop("upd")
	o := Op{M: mi, F: "Set", I: inst, Must: false}
	switch m.kind {
	case "single", "inst":
		o.V = c.typed(m.t)
		if c.rnd.Intn(15) == 0 {
			o.V = struct{}{}
		}
	case "counter", "cvec":
		o.F = []string{"Set", "Inc", "Inc"}[c.rnd.Intn(3)]
		o.V = c.iv(5)
		if o.F == "Set" {
			o.V = c.iv(40)
		}
	case "gauge", "gvec":
		o.F = []string{"Set", "Inc", "Dec"}[c.rnd.Intn(3)]
		o.V = float64(c.iv(9))
	}
	p.e["m"], p.e["f"], p.e["i"], p.e["must"], p.e["v"], p.e["sums"] = mi, o.F, s.of(inst), false, s.valJ(o.V), []J{}
	p.f = updCall(m, o)
	// for all instances: one after the other, in any order
	if (m.kind == "cvec" || m.kind == "gvec") && c.rnd.Intn(5) == 0 {
		switch {
		case m.kind == "cvec":
			o.F = "Inc"
			if o.V.(int64) == 0 {
				o.V = int64(1)
			}
		case o.F == "Dec":
		default:
		}
		v := s.valJ(o.V)
		all := o
		all.F += "All"
		p.f = updCall(m, all)
		p.e["f"], p.e["v"] = o.F, v
		p.e["i"] = s.of(m.insts[0])
		for _, i := range m.insts[1:] {
			p.more = append(p.more, J{"op": "upd", "sid": w.sid, "m": mi, "f": o.F, "i": s.of(i), "must": false, "v": v, "sums": []J{}})
		}
	}
	return p
}

// regOp is an operation on the registry of a client
func (c *concGen) regOp(cl int) *cop {
	w, s := c.w, c.w.tr.syms
	k := w.cli[cl]
	r := k.c.Registry()
	name := c.names[c.rnd.Intn(len(c.names))]
	switch c.rnd.Intn(9) {
	case 0, 1, 2:
		all := append(append([]int{}, c.spare...), c.mets...)
		if len(all) == 0 {
			break
		}
		mi := all[c.rnd.Intn(len(all))]
		// a metric is in the registry of one client only
		for _, other := range c.clis {
			if other != cl && w.met[mi].regs[other] {
				mi = -1
				break
			}
		}
		if mi < 0 {
			break
		}
		p := c.newCop("register")
		m := w.met[mi]
		m.regs[cl] = true
		p.e["c"], p.e["m"], p.e["must"] = cl, mi, false
		p.f = func() error { return k.c.Register(m.m) }
		return p
	case 3, 4:
		p := c.newCop("regstring")
		c.nextM++
		c.nextD++
		o := Op{Op: "regstring", C: cl, M: c.nextM, D: c.nextD, Str: name, T: 2, Sem: 3, V: int64(3)}
		if c.rnd.Intn(2) == 0 {
			ins := []string{"i", "j"}[:1+c.rnd.Intn(2)]
			o.Str, o.IsI = "d["+strings.Join(ins, ",")+"]."+strings.TrimPrefix(name, "m."), true
			for _, i := range ins {
				o.Vals = append(o.Vals, IV{i, c.iv(9)})
			}
		}
		f := w.regStringPrep(o, p.e)
		var x speed.Metric
		p.f = func() (err error) { x, err = f(); return }
		p.done = func() {
			w.regStringDone(o, p.e, x)
			delete(p.e, "rb")
			if w.met[o.M] != nil {
				c.mets = append(c.mets, o.M)
			}
		}
		return p
	case 5:
		ds := []int{}
		for d, x := range w.ind {
			if d > 0 && x.d != nil {
				ds = append(ds, d)
			}
		}
		sort.Ints(ds)
		if len(ds) == 0 {
			break
		}
		d := ds[c.rnd.Intn(len(ds))]
		p := c.newCop("regindom")
		p.e["c"], p.e["d"], p.e["must"] = cl, d, false
		p.f = func() error { return k.c.RegisterIndom(w.ind[d].d) }
		return p
	case 6:
		p := c.newCop("indombyname")
		c.nextD++
		d := c.nextD
		n, ins := []string{"d", "shared", "e"}[c.rnd.Intn(3)], c.insts()
		p.e["c"], p.e["d"], p.e["name"], p.e["insts"], p.e["desc"], p.e["long"] = cl, d, s.of(n), s.all(ins), []int{}, false
		var x speed.InstanceDomain
		p.f = func() (err error) { x, err = r.AddInstanceDomainByName(n, ins); return }
		p.done = func() {
			if p.e["r"] == "ok" {
				vs := []IV{}
				for _, i := range ins {
					vs = append(vs, IV{I: i})
				}
				w.ind[d] = &indom{x.(*speed.PCPInstanceDomain), n, sortedKeys(vs)}
			}
		}
		return p
	case 7:
		p := c.newCop("has1")
		p.e["c"], p.e["metric"] = cl, c.rnd.Intn(2) == 0
		if !p.e["metric"].(bool) {
			name = []string{"d", "shared", "e"}[c.rnd.Intn(3)]
		}
		p.e["name"] = s.of(name)
		var yes bool
		if p.e["metric"].(bool) {
			p.f = must(func() { yes = r.HasMetric(name) })
		} else {
			p.f = must(func() { yes = r.HasInstanceDomain(name) })
		}
		p.done = func() { p.e["yes"] = yes }
		return p
	}
	p := c.newCop("count")
	which := c.rnd.Intn(5)
	var n int
	p.e["c"], p.e["which"] = cl, which+1
	p.f = must(func() {
		n = []func() int{r.MetricCount, r.ValuesCount, r.InstanceDomainCount, r.InstanceCount, r.StringCount}[which]()
	})
	p.done = func() { p.e["n"] = n }
	if which == 4 { // made of two counts
		p.e["op"] = "peek"
	}
	return p
}

// lifeOp is a start or a stop of a client, or something about it
func (c *concGen) lifeOp(cl int) *cop {
	k := c.w.cli[cl]
	var p *cop
	switch c.rnd.Intn(10) {
	case 0:
		p = c.newCop("flag")
		f := 1 + c.rnd.Intn(6)
		p.e["flag"] = f
		p.f = func() error { return k.c.SetFlag(speed.MMVFlag(f)) }
	case 1:
		p = c.newCop("peek")
		p.f = must(func() { k.c.Length() })
	case 2, 3, 4, 5:
		p = c.newCop("stop")
		p.e["must"] = false
		p.f = k.c.Stop
	default:
		p = c.newCop("start")
		p.e["must"], p.e["fault"], p.e["lost"] = false, false, false
		p.f = k.c.Start
	}
	p.e["c"] = cl
	return p
}

func (c *concGen) plan() [][]*cop {
	gs := [][]*cop{}
	add := func(n int, f func() *cop) {
		ops := []*cop{}
		for i := 0; i < n; i++ {
			if p := f(); p != nil {
				ops = append(ops, p)
			}
		}
		gs = append(gs, ops)
	}
	upd := func() *cop {
		m := c.target(func(*met) bool { return true })
		if m < 0 {
			return nil
		}
		return c.metricOp(m)
	}
	anyC := func() int { return c.clis[c.rnd.Intn(len(c.clis))] }
	switch c.fam {
	case "start":
		add(1+c.rnd.Intn(3), func() *cop { return c.lifeOp(1) })
		if c.rnd.Intn(3) == 0 {
			add(1+c.rnd.Intn(2), func() *cop { return c.lifeOp(1) })
		}
		if c.rnd.Intn(2) == 0 {
			add(1+c.rnd.Intn(3), func() *cop { return c.regOp(1) })
		}
		for i := 1 + c.rnd.Intn(2); i > 0; i-- {
			add(2+c.rnd.Intn(3), upd)
		}
	case "reg":
		for i := 2 + c.rnd.Intn(2); i > 0; i-- {
			add(2+c.rnd.Intn(2), func() *cop {
				if c.rnd.Intn(9) == 0 {
					return c.lifeOp(1)
				}
				return c.regOp(1)
			})
		}
	case "multi":
		for _, cl := range c.clis {
			cl := cl
			add(1+c.rnd.Intn(2), func() *cop { return c.lifeOp(cl) })
		}
		for i := 1 + c.rnd.Intn(2); i > 0; i-- {
			add(2+c.rnd.Intn(3), upd)
		}
		if c.rnd.Intn(4) == 0 {
			add(1, func() *cop { return c.regOp(anyC()) })
		}
	default:
		for i := 2 + c.rnd.Intn(3); i > 0; i-- {
			add(2+c.rnd.Intn(3), upd)
		}
		if c.rnd.Intn(6) == 0 {
			add(1, func() *cop { return c.lifeOp(1) })
		}
	}
	return gs
}

// rush is many registrations in a row by several goroutines, while the client is started
// or stopped
func (c *concGen) rush() [][]*cop {
	k := c.w.cli[1]
	on := false
	p := c.newCop("start")
	p.e["must"], p.e["c"] = false, 1
	if k.active {
		p.e["op"], on = "stop", true
	} else {
		p.e["fault"], p.e["lost"] = false, false
	}
	g := 2 + c.rnd.Intn(3)
	gs := make([][]*cop, g)
	var n int64
	for i, mi := range c.spare {
		m := c.w.met[mi]
		if on && i >= 3*g {
			break
		}
		q := c.newCop("register")
		m.regs[1] = true
		q.e["c"], q.e["m"], q.e["must"] = 1, mi, false
		q.f = func() error {
			atomic.AddInt64(&n, 1)
			return k.c.Register(m.m)
		}
		q.done = func() {
			if q.e["r"] == "ok" {
				for i, x := range c.spare {
					if x == mi {
						c.spare = append(c.spare[:i:i], c.spare[i+1:]...)
						c.mets = append(c.mets, mi)
						break
					}
				}
			}
		}
		gs[i%g] = append(gs[i%g], q)
	}
	when := int64(c.rnd.Intn(1 + len(c.spare)/2))
	p.f = func() error {
		for i := 0; atomic.LoadInt64(&n) < when && i < 1000000; i++ {
		}
		if on {
			return k.c.Stop()
		}
		return k.c.Start()
	}
	return append(gs, []*cop{p})
}

// heldPlan is a block in which the first call is held at one of its stores while the
// others run, or wait for it
func (c *concGen) heldPlan() [][]*cop {
	any := func() *cop {
		m := c.target(func(*met) bool { return true })
		switch k := c.rnd.Intn(10); {
		case m >= 0 && (k < 5 || c.fam == "heldupd"):
			if k < 4 && c.first >= 0 {
				m = c.first
			}
			return c.metricOp(m)
		case k < 8:
			return c.regOp(1)
		}
		return c.lifeOp(1)
	}
	var first *cop
	if c.first = c.target(func(*met) bool { return true }); c.w.cli[1].active && c.first >= 0 {
		for first = c.metricOp(c.first); first.e["op"] == "get" || first.e["op"] == "stat"; {
			first = c.metricOp(c.first)
		}
		c.at = 1 + c.rnd.Intn(1+c.rnd.Intn(4))
	} else {
		c.first = -1
		first = c.newCop("start")
		first.e["must"], first.e["fault"], first.e["lost"], first.e["c"] = false, false, false, 1
		first.f = c.w.cli[1].c.Start
		c.at = 1 + int(concTurn%int64(c.of+1))
		concTurn++
	}
	gs := [][]*cop{{first}}
	for i := 1 + c.rnd.Intn(2); i > 0; i-- {
		ops := []*cop{any()}
		if c.rnd.Intn(3) == 0 {
			ops = append(ops, any())
		}
		gs = append(gs, ops)
	}
	return gs
}

var concTurn int64

// run executes a block; the calls of a goroutine come one after the other
func (c *concGen) run(gs [][]*cop, seed int64) []*cop {
	var wg sync.WaitGroup
	var ready, bad int32
	all := []*cop{}
	undo := func() {}
	at, on := make(chan bool), make(chan bool)
	var once sync.Once
	free := func() { once.Do(func() { close(at) }) }
	switch {
	case c.held():
		undo = holds(c.at, free, on)
	case c.rnd.Intn(4) > 0:
		undo = storms(seed)
	}
	for i, ops := range gs {
		i := i
		all = append(all, ops...)
		wg.Add(1)
		go func(ops []*cop) {
			defer wg.Done()
			if c.held() {
				// the others run while the first one is held
				if i > 0 {
					<-at
				}
			} else {
				atomic.AddInt32(&ready, 1)
				for k := 0; int(atomic.LoadInt32(&ready)) < len(gs); k++ {
					if k > 2000 {
						runtime.Gosched()
					}
				}
			}
			for _, p := range ops {
				p.e["b"] = atomic.AddInt64(&stamp, 1)
				r := outcome(p.f)
				p.e["e"] = atomic.AddInt64(&stamp, 1)
				p.e["r"] = r
			}
			if c.held() {
				if i > 0 {
					atomic.AddInt32(&ready, 1)
				} else {
					free()
				}
			}
		}(ops)
	}
	end := make(chan bool)
	if (c.fam == "reg" || c.fam == "rush" || c.fam == "start") && seed%2 == 0 {
		regs := []*speed.PCPRegistry{}
		for _, k := range c.clis {
			regs = append(regs, c.w.cli[k].c.Registry().(*speed.PCPRegistry))
		}
		for k := int64(0); len(regs) > 0 && (k == 0 || k == 1 && c.fam == "reg"); k++ {
			go gossip(regs, seed+k, end)
		}
	}
	go func() { wg.Wait(); close(end) }()
	if c.held() {
		// and then for a moment, so that those that wait for it do wait
		<-at
		for t := time.Now(); time.Since(t) < 10*time.Millisecond && atomic.LoadInt32(&ready) < int32(len(gs)-1); {
			time.Sleep(50 * time.Microsecond)
		}
		close(on)
	}
	select {
	case <-end:
	case <-time.After(20 * time.Second):
		c.hang = true
		atomic.StoreInt32(&bad, 1)
	}
	undo()
	return all
}

func outcome(f func() error) (r string) {
	defer func() {
		if p := recover(); p != nil {
			r = "panic"
		}
	}()
	if err := f(); err != nil {
		return "err"
	}
	return "ok"
}

func (c *concGen) block(gs [][]*cop) bool {
	s0 := atomic.LoadInt64(&stamp)
	all := c.run(gs, c.rnd.Int63())
	if c.hang {
		// the calls are still running, nothing of them can be looked at
		c.w.tr.emit(J{"op": "conc", "sid": c.w.sid, "hang": true, "ops": []J{}})
		return false
	}
	ops := []J{}
	for _, p := range all {
		p.done()
		p.e["b"], p.e["e"] = p.e["b"].(int64)-s0, p.e["e"].(int64)-s0
		ops = append(ops, p.e)
		for _, m := range p.more {
			m["b"], m["e"], m["r"] = p.e["b"], p.e["e"], p.e["r"]
			ops = append(ops, m)
		}
	}
	c.w.tr.emit(J{"op": "conc", "sid": c.w.sid, "hang": false, "ops": ops})
	return true
}

// sync reads everything back
func (c *concGen) sync() {
	w := c.w
	ms := []int{}
	for m := range w.met {
		ms = append(ms, m)
	}
	sort.Ints(ms)
	rd := []J{}
	for _, m := range ms {
		x := w.met[m]
		if x.kind == "timer" {
			continue
		}
		j := J{"m": m, "rb": w.readback(x), "hist": x.kind == "hist", "hs": J{}}
		if x.kind == "hist" {
			j["hs"] = histSummary(x)
		}
		rd = append(rd, j)
	}
	locs := []string{}
	for _, id := range c.clis {
		locs = append(locs, w.cli[id].loc)
	}
	maps, fds := held(locs)
	cl := []J{}
	for k, id := range c.clis {
		x := w.cli[id]
		r := x.c.Registry()
		ob := J{"c": id, "maps": maps[k], "fds": fds[k], "len": x.c.Length(),
			"cnt": []int{r.MetricCount(), r.ValuesCount(), r.InstanceDomainCount(), r.InstanceCount(), r.StringCount()}}
		data, err := os.ReadFile(x.loc)
		ob["ex"] = err == nil
		x.active = maps[k] > 0
		x.last = nil
		if x.active && err == nil {
			x.im, x.last = decode(data, ob["len"].(int), w.tr.syms), data
			ob["img"] = x.im.json
		}
		cl = append(cl, ob)
	}
	w.tr.emit(J{"op": "sync", "sid": w.sid, "mets": rd, "cl": cl})
}

// burst is the same call by all at the same moment
func (c *concGen) burst(turn int) [][]*cop {
	m := c.target(func(*met) bool { return true })
	if m < 0 {
		return nil
	}
	gs := [][]*cop{}
	if c.w.met[m].kind != "timer" {
		for i := 2 + c.rnd.Intn(3); i > 0; i-- {
			gs = append(gs, []*cop{c.metricOp(m)})
		}
		return gs
	}
	want := []string{"TStart", "TStop", "TStart", "TReset"}[turn%4]
	for i := 3 + c.rnd.Intn(2); i > 0; i-- {
		p := c.metricOp(m)
		for p.e["f"] != want {
			p = c.metricOp(m)
		}
		gs = append(gs, []*cop{p})
	}
	return gs
}

// climb is what readers of a histogram find, one statistic after the other, while ever
// smaller values are recorded: none of them can come from an earlier moment than the one
// before. A part of what one reader found is kept, the part that is wrong if there is one.
func (c *concGen) climb(long time.Duration) {
	const top = 60
	reads := []int{}
	for end := time.Now().Add(long); time.Now().Before(end) && len(reads) < 1000; {
		h, err := speed.NewPCPHistogram("climb", 0, 2*top, 3, speed.OneUnit)
		die(err)
		h.MustRecord(top)
		var fin int32
		var wg sync.WaitGroup
		var mu sync.Mutex
		for g := 0; g < 12; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				got, wrong := []int{}, false
				last := 2 * top
				for k := g; ; k++ {
					stop := atomic.LoadInt32(&fin) == 1
					v := 0
					if k%2 == 0 {
						v = int(h.Percentile(0))
					} else {
						v = int(h.Min())
					}
					if len(got) > 30 && !wrong {
						got = append(got[:0], got[20:]...)
					}
					if len(got) <= 30 {
						got = append(got, v)
					}
					wrong = wrong || v > last
					last = v
					if stop {
						break
					}
				}
				mu.Lock()
				if wrong || len(reads) == 0 {
					reads = got
				}
				if wrong {
					reads = append(reads, make([]int, 1000-len(reads))...)
				}
				mu.Unlock()
			}(g)
		}
		for i := int64(top - 1); i > 0; i-- {
			h.MustRecord(i)
		}
		atomic.StoreInt32(&fin, 1)
		wg.Wait()
	}
	for len(reads) > 0 && reads[len(reads)-1] == 0 {
		reads = reads[:len(reads)-1]
	}
	c.w.tr.emit(J{"op": "climb", "sid": c.w.sid, "reads": reads, "top": top})
}

// gossip asks registries all the time for what does not change them
func gossip(regs []*speed.PCPRegistry, seed int64, end chan bool) {
	rnd := rand.New(rand.NewSource(seed))
	for k := 0; ; k++ {
		if k%16 == 0 {
			select {
			case <-end:
				return
			default:
			}
		}
		r := regs[k%len(regs)]
		switch rnd.Intn(12) {
		case 0:
			r.HasInstanceDomain("gossip")
		case 1:
			_, _, _, _, _ = r.MetricCount(), r.ValuesCount(), r.StringCount(), r.InstanceCount(), r.InstanceDomainCount()
		case 2:
			r.StringCount()
		default:
			r.HasMetric("gossip")
		}
	}
}

// stress is many calls that commute, which count as one
func (c *concGen) stress() [][]*cop {
	gs := [][]*cop{}
	k := int64(300 + c.rnd.Intn(2500))
	for g := 2 + c.rnd.Intn(3); g > 0; g-- {
		mi := c.target(func(m *met) bool {
			return m.kind == "counter" || m.kind == "cvec" || m.kind == "gauge" || m.kind == "gvec" || m.kind == "hist"
		})
		if mi < 0 {
			return nil
		}
		m := c.w.met[mi]
		p := c.newCop("upd")
		inst := m.insts[c.rnd.Intn(len(m.insts))]
		if m.kind == "hist" {
			k := 50 + k/10 // the specification multiplies sums
			p.e["op"], p.e["m"], p.e["val"], p.e["n"] = "hist", mi, int64(2), k
			x := m.m.(*speed.PCPHistogram)
			p.f = func() error {
				for i := int64(0); i < k; i++ {
					if err := x.Record(2); err != nil {
						return err
					}
				}
				return nil
			}
			p.done = func() { m.n, m.sum, m.sq = m.n+k, m.sum+2*k, m.sq+4*k }
			gs = append(gs, []*cop{p})
			continue
		}
		o := Op{M: mi, F: "Inc", I: inst, V: int64(1)}
		var tot interface{} = k
		if m.kind == "gauge" || m.kind == "gvec" {
			o.V, tot = float64(1), float64(k)
			if c.rnd.Intn(3) == 0 {
				o.F = "Dec"
			}
		}
		f := updCall(m, o)
		p.e["m"], p.e["f"], p.e["i"], p.e["must"], p.e["v"], p.e["sums"] = mi, o.F, c.w.tr.syms.of(inst), false, c.w.tr.syms.valJ(tot), []J{}
		p.f = func() error {
			for i := int64(0); i < k; i++ {
				if err := f(); err != nil {
					return err
				}
			}
			return nil
		}
		gs = append(gs, []*cop{p})
		if c.rnd.Intn(2) == 0 && (m.kind == "counter" || m.kind == "cvec") {
			// a counter is never seen to go back
			q := c.newCop("mono")
			var back bool
			q.f = func() error {
				var last int64 = math.MinInt64
				for i := int64(0); i < k; i++ {
					v, err := readInst(m, inst)
					if err != nil {
						return err
					}
					if n := v.(int64); n < last {
						back = true
					} else {
						last = n
					}
				}
				return nil
			}
			q.done = func() { q.e["back"] = back }
			gs = append(gs, []*cop{q})
		}
	}
	if c.fam == "start" || c.fam == "multi" {
		for _, cl := range c.clis {
			ops := []*cop{}
			for i := 3 + c.rnd.Intn(4); i > 0; i-- {
				ops = append(ops, c.lifeOp(cl))
			}
			gs = append(gs, ops)
		}
	}
	return gs
}

func (c *concGen) history() bool {
	w := c.w
	w.begin()
	w.tr.ev[len(w.tr.ev)-1]["fam"] = c.fam
	defer func() {
		for _, x := range w.cli {
			x := x
			if !c.hang {
				w.call(x.c.Stop)
			}
			_ = os.Remove(x.loc)
		}
	}()
	if !c.setup() {
		return !c.hang
	}
	n := 2 + c.rnd.Intn(2)
	if c.held() {
		n = 6
	} else if c.fam == "rush" {
		n = 5
	}
	for b := n; b > 0; b-- {
		if c.held() {
			if c.fam == "held" && c.w.cli[1].active && c.rnd.Intn(3) > 0 && !c.do(Op{Op: "stop", C: 1}) {
				return false
			}
			if !c.block(c.heldPlan()) {
				return false
			}
			c.sync()
			continue
		}
		switch c.fam {
		case "rush":
			if !c.block(c.rush()) {
				return false
			}
			c.sync()
			continue
		case "counter", "metrics", "hist", "timer":
			if b != 1 {
				break
			}
			k := 3
			if c.fam == "timer" {
				k = 40
			} else if c.fam == "metrics" {
				k = 6
			}
			for i := 0; i < k; i++ {
				if g := c.burst(i); g != nil {
					if !c.block(g) {
						return false
					}
					if c.fam == "metrics" {
						c.sync()
					}
				}
			}
		}
		gs := c.plan()
		if c.rnd.Intn(5) == 0 {
			if g := c.stress(); g != nil {
				gs = g
			}
		}
		if !c.block(gs) {
			return false
		}
		c.sync()
	}
	if c.fam == "hist" && c.rnd.Intn(12) == 0 {
		end := make(chan bool)
		go func() { c.climb(250 * time.Millisecond); close(end) }()
		select {
		case <-end:
		case <-time.After(30 * time.Second):
			c.hang = true
			c.w.tr.emit(J{"op": "conc", "sid": c.w.sid, "hang": true, "ops": []J{}})
			return false
		}
	}
	// one call after the other again, that each has to reach the file
	ops := []*cop{}
	for _, m := range c.mets {
		if p := c.metricOp(m); p != nil && p.e["op"] != "timer" {
			ops = append(ops, p)
		}
	}
	if len(ops) > 0 {
		if !c.block([][]*cop{ops}) {
			return false
		}
		c.sync()
	}
	return true
}

func concRun(tmp string) {
	tr := newTrace()
	w := newWorld(tr, tmp)
	rnd := rand.New(rand.NewSource(*fSeed))
	fams := strings.Split(*fProf, ",")
	concTurn = rnd.Int63n(1000)
	n := 0
	for ; n < *fN; n++ {
		c := &concGen{w: w, rnd: rand.New(rand.NewSource(rnd.Int63())), fam: fams[n%len(fams)]}
		if !c.history() {
			n++
			break
		}
	}
	tr.write(*fOut)
	fmt.Printf("sessions %d events %d syms %d\n", n, len(tr.ev), len(tr.syms.tab))
}

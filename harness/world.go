package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/performancecopilot/speed/v4"
)

// World executes operations on the library, observes everything that can be
// observed from outside, and writes down both

type uStep struct {
	Kind       byte // 's', 't', 'c'
	Scale, Dim int
}

// unitOf builds a unit with the library, and what it has to be by the layout
// of pmUnits
func unitOf(steps []uStep, simple bool) (speed.MetricUnit, uint32) {
	var u speed.MetricUnit
	var e uint32
	for i, s := range steps {
		d := int8(s.Dim)
		nib := uint32(s.Dim) & 15
		first := i == 0 && simple
		switch s.Kind {
		case 's':
			x := speed.SpaceUnit(1<<28 | uint32(s.Scale)<<16)
			if first {
				u, nib = x, 1
			} else {
				if u == nil {
					u = speed.NewMetricUnit()
				}
				u = u.Space(x, d)
			}
			e = e&^(15<<28|15<<16) | nib<<28 | uint32(s.Scale)<<16
		case 't':
			x := speed.TimeUnit(1<<24 | uint32(s.Scale)<<12)
			if first {
				u, nib = x, 1
			} else {
				if u == nil {
					u = speed.NewMetricUnit()
				}
				u = u.Time(x, d)
			}
			e = e&^(15<<24|15<<12) | nib<<24 | uint32(s.Scale)<<12
		case 'c':
			if first {
				u, nib = speed.OneUnit, 1
			} else {
				if u == nil {
					u = speed.NewMetricUnit()
				}
				u = u.Count(speed.OneUnit, d)
			}
			e = e&^(15<<20|15<<8) | nib<<20
		}
	}
	if u == nil {
		u = speed.NewMetricUnit()
	}
	return u, e
}

// IV is an instance and a value
type IV struct {
	I string
	V interface{}
}

// Op is one call
type Op struct {
	Op, Kind, F          string
	C, M, D, Reg         int
	Name, Str, I         string
	Desc                 []string
	T, Sem               int
	U                    []uStep
	Simple               bool
	V                    interface{}
	Vals                 []IV
	IsI                  bool
	Insts                []string
	Must                 bool
	Low, High, Sig, Q, N int64
	CQ                   int64
	Val                  int64
	Flag                 int
	Fault                string
	On                   bool
	Img                  bool
	Sleep                time.Duration
	Plain                bool // NewPCPClient instead of the variant with a registry
	Pub                  *Policy
	Data                 []byte
}

type cli struct {
	c      *speed.PCPClient
	name   string
	loc    string
	reg    int
	active bool
	last   []byte
	im     *Image
}

type met struct {
	kind       string
	name       string
	t          int
	m          speed.Metric
	insts      []string // sorted
	q, cq      int64    // values are recorded in units of q, cq times
	low, high  int64
	timeUnit   int
	tsB, tsA   time.Time
	tot        float64 // of what a timer told last
	on         bool
	regs       map[int]bool
	active     bool
	indom      int
	fromString bool
	n, sum, sq int64 // of what a histogram recorded
}

type indom struct {
	d     *speed.PCPInstanceDomain
	name  string
	insts []string
}

// World is what one session works on
type World struct {
	tr                           *Trace
	tmp                          string
	sid                          int
	sess                         int
	n                            int
	cli                          map[int]*cli
	reg                          map[int]*speed.PCPRegistry
	met                          map[int]*met
	ind                          map[int]*indom
	broken                       bool
	timeout                      time.Duration
	lent                         interface{}  // the map a registration got
	stop                         func()       // called when a call hangs
	offs                         map[int]bool // stores of the watched start
	nlook, npart, nstore, nstart int
}

// scrawl changes what was given to a call or came out of it, as its owner may
func scrawl(ss []string) {
	for i := range ss {
		ss[i] = "changed"
	}
}

// scrawlAll changes the results of the methods that return lists
func (w *World) scrawlAll() {
	if !w.owner() {
		return
	}
	for _, d := range w.ind {
		if d.d != nil {
			scrawl(d.d.Instances())
		}
	}
	for _, m := range w.met {
		if x, is := m.m.(interface{ Instances() []string }); is {
			scrawl(x.Instances())
		}
		if x, is := m.m.(*speed.PCPHistogram); is && m.high < 1000 {
			for _, b := range x.Buckets() {
				b.From, b.To, b.Count = -1, -1, -1
			}
		}
	}
}

// owner: in every second session the lists and maps that are given to calls
// or come out of them are changed afterwards
func (w *World) owner() bool { return w.sid%2 == 0 }

// lend is the list a call gets
func (w *World) lend(ss []string) []string {
	if ss == nil {
		return nil
	}
	return append([]string{}, ss...)
}

func (w *World) giveBack(ss []string) {
	if w.owner() {
		scrawl(ss)
	}
}

func newWorld(tr *Trace, tmp string) *World {
	return &World{tr: tr, tmp: tmp, timeout: 20 * time.Second}
}

func (w *World) begin() {
	w.sess++
	w.sid = w.sess
	w.cli, w.reg, w.met = map[int]*cli{}, map[int]*speed.PCPRegistry{}, map[int]*met{}
	w.ind = map[int]*indom{0: {name: "histogram", insts: []string{"max", "mean", "min", "standard_deviation", "variance"}}}
	speed.EraseFileOnStop = false
	w.tr.emit(J{"op": "begin", "sid": w.sid, "r": "ok", "cl": []J{}})
}

// end releases what the session holds
func (w *World) end() {
	for _, c := range w.cli {
		if c.active && !w.broken {
			c := c
			w.call(func() error { return c.c.Stop() })
		}
		_ = os.Remove(c.loc)
	}
}

func (w *World) call(f func() error) (r string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- "panic"
			}
		}()
		if err := f(); err != nil {
			done <- "err"
		} else {
			done <- "ok"
		}
	}()
	select {
	case r = <-done:
	case <-time.After(w.timeout):
		r = "hang"
		w.broken = true
	}
	return
}

func sortedKeys(vs []IV) []string {
	m := map[string]bool{}
	for _, v := range vs {
		m[v.I] = true
	}
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (w *World) valsJ(vs []IV) []J {
	r := []J{}
	for _, v := range vs {
		r = append(r, J{"i": w.tr.syms.of(v.I), "v": w.tr.syms.valJ(v.V)})
	}
	return r
}

func tooLong(ss ...string) bool {
	for _, s := range ss {
		if len(s) > 254 {
			return true
		}
	}
	return false
}

func must(f func()) func() error { return func() error { f(); return nil } }

// do executes an operation, observes and emits the event; FALSE when it hangs
func (w *World) do(o Op) bool {
	s := w.tr.syms
	e := J{"op": o.Op, "sid": w.sid}
	var wa *Watch
	fresh := -1 // a client whose file was written anew
	stopped := -1
	switch o.Op {
	case "client":
		e["c"], e["name"], e["reg"] = o.C, s.of(o.Name), o.Reg
		reg := w.reg[o.Reg]
		var c *speed.PCPClient
		e["r"] = w.call(func() (err error) {
			if reg == nil && o.Plain {
				c, err = speed.NewPCPClient(o.Name)
			} else {
				if reg == nil {
					reg = speed.NewPCPRegistry()
				}
				c, err = speed.NewPCPClientWithRegistry(o.Name, reg)
			}
			return
		})
		if e["r"] == "ok" {
			w.reg[o.Reg] = c.Registry().(*speed.PCPRegistry)
			w.cli[o.C] = &cli{c: c, name: o.Name, reg: o.Reg, loc: filepath.Join(w.tmp, "mmv", o.Name)}
		}
	case "indom", "indombyname":
		e["d"], e["name"], e["insts"], e["desc"] = o.D, s.of(o.Name), s.all(o.Insts), s.all(o.Desc)
		e["long"] = tooLong(append(append([]string{}, o.Insts...), o.Desc...)...)
		var d *speed.PCPInstanceDomain
		insts, desc := w.lend(o.Insts), w.lend(o.Desc)
		if o.Op == "indom" {
			e["r"] = w.call(func() (err error) { d, err = speed.NewPCPInstanceDomain(o.Name, insts, desc...); return })
		} else {
			e["c"] = o.C
			e["r"] = w.call(func() error {
				x, err := w.cli[o.C].c.Registry().AddInstanceDomainByName(o.Name, insts)
				if err == nil {
					d = x.(*speed.PCPInstanceDomain)
				}
				return err
			})
		}
		w.giveBack(insts)
		w.giveBack(desc)
		if e["r"] == "ok" && d != nil {
			vs := []IV{}
			for _, i := range o.Insts {
				vs = append(vs, IV{I: i})
			}
			w.ind[o.D] = &indom{d, o.Name, sortedKeys(vs)}
		}
	case "metric":
		w.newMetric(o, e)
	case "regindom":
		e["c"], e["d"], e["must"] = o.C, o.D, o.Must
		c, d := w.cli[o.C].c, w.ind[o.D].d
		if o.Must {
			e["r"] = w.call(must(func() { c.MustRegisterIndom(d) }))
		} else {
			e["r"] = w.call(func() error { return c.RegisterIndom(d) })
		}
	case "register":
		e["c"], e["m"], e["must"] = o.C, o.M, o.Must
		c, m := w.cli[o.C], w.met[o.M]
		if o.Must {
			e["r"] = w.call(must(func() { c.c.MustRegister(m.m) }))
		} else {
			e["r"] = w.call(func() error { return c.c.Register(m.m) })
		}
		if e["r"] == "ok" {
			m.regs[c.reg] = true
		}
	case "regstring":
		w.regString(o, e)
	case "upd":
		w.update(o, e)
	case "timer":
		w.timer(o, e)
	case "hist":
		w.hist(o, e)
	case "flag":
		e["c"], e["flag"] = o.C, o.Flag
		e["r"] = w.call(func() error { return w.cli[o.C].c.SetFlag(speed.MMVFlag(o.Flag)) })
	case "erase":
		e["on"], e["r"] = o.On, "ok"
		speed.EraseFileOnStop = o.On
	case "start":
		c := w.cli[o.C]
		e["c"], e["fault"], e["must"] = o.C, o.Fault != "", o.Must
		undo := w.fault(o.Fault, c)
		if o.Pub != nil {
			wa = watch(c.loc, o.Pub)
			e["policy"] = o.Pub.name
		}
		if o.Must {
			e["r"] = w.call(must(c.c.MustStart))
		} else {
			e["r"] = w.call(c.c.Start)
		}
		if wa != nil {
			wa.stop()
			w.offs = wa.offs
			w.nlook, w.npart, w.nstore, w.nstart = w.nlook+wa.nlook, w.npart+wa.part, w.nstore+wa.stores, w.nstart+1
		}
		undo()
		e["lost"] = o.Fault == "nofile" || o.Fault == "fsize"
		if e["r"] == "ok" {
			c.active = true
			fresh = o.C
		}
	case "stop":
		c := w.cli[o.C]
		e["c"], e["must"] = o.C, o.Must
		if o.Must {
			e["r"] = w.call(must(c.c.MustStop))
		} else {
			e["r"] = w.call(c.c.Stop)
		}
		if e["r"] == "ok" {
			stopped = o.C
		}
		c.active = false
	case "has":
		e["c"], e["name"], e["r"] = o.C, s.of(o.Name), "ok"
		r := w.cli[o.C].c.Registry()
		e["r"] = w.call(func() error {
			e["metric"], e["indom"] = r.HasMetric(o.Name), r.HasInstanceDomain(o.Name)
			return nil
		})
	case "info":
		e["m"], e["r"] = o.M, "ok"
		m := w.met[o.M].m.(speed.PCPMetric)
		e["id"], e["name"], e["t"], e["sem"] = limbs2(m.ID()), s.of(m.Name()), int(m.Type()), int(m.Semantics())
		e["short"], e["long"], e["u"] = s.of(m.ShortDescription()), s.of(m.LongDescription()), limbs2(unitBits(m.Unit()))
		e["ind"], e["insts"], e["indid"] = -1, []int{}, limbs2(0)
		if m.Description() != m.ShortDescription()+"\n"+m.LongDescription() {
			e["short"] = -1
		}
		if d := m.Indom(); d != nil {
			e["ind"], e["insts"], e["indid"] = s.of(d.Name()), s.all(d.Instances()), limbs2(d.ID())
			for _, i := range d.Instances() {
				if !d.HasInstance(i) {
					e["ind"] = -2
				}
			}
			if d.InstanceCount() != len(d.Instances()) || d.HasInstance("no such instance") {
				e["ind"] = -2
			}
		}
	case "get":
		m := w.met[o.M]
		e["m"], e["i"] = o.M, s.of(o.I)
		e["w"], e["s"] = limbs(0), 0
		e["r"] = w.call(func() error {
			v, err := readInst(m, o.I)
			if err == nil {
				_, e["w"], e["s"] = s.storedJ(v)
			}
			return err
		})
	case "made":
		e["made"] = w.made(o.Insts)
		e["r"] = "ok"
	case "image":
		e["r"] = "ok"
	case "vanish":
		e["c"], e["r"] = o.C, "ok"
		_ = os.Remove(w.cli[o.C].loc)
	case "plant":
		w.plant(o, e)
	case "crash":
		w.crash(o, e)
	default:
		die(fmt.Errorf("unknown operation %v", o.Op))
	}
	w.scrawlAll()
	w.observe(e, o, fresh, stopped)
	if wa != nil {
		var final []byte
		if fresh >= 0 {
			final = w.cli[fresh].last
		}
		e["pubs"] = wa.images(final, w.cli[o.C].c.Length(), s)
	}
	w.tr.emit(e)
	w.n++
	return !w.broken
}

func unitBits(u speed.MetricUnit) uint32 { return u.PMAPI() }

func readInst(m *met, i string) (interface{}, error) {
	switch x := m.m.(type) {
	case *speed.PCPSingletonMetric:
		return x.Val(), nil
	case *speed.PCPInstanceMetric:
		return x.ValInstance(i)
	case *speed.PCPCounter:
		return x.Val(), nil
	case *speed.PCPGauge:
		return x.Val(), nil
	case *speed.PCPCounterVector:
		return x.Val(i)
	case *speed.PCPGaugeVector:
		return x.Val(i)
	case *speed.PCPHistogram:
		switch i {
		case "min":
			return float64(x.Min()), nil
		case "max":
			return float64(x.Max()), nil
		case "mean":
			return x.Mean(), nil
		case "variance":
			return x.Variance(), nil
		case "standard_deviation":
			return x.StandardDeviation(), nil
		}
	}
	return nil, fmt.Errorf("cannot be read")
}

// readback of all values of a metric
func (w *World) readback(m *met) []J {
	r := []J{}
	for _, i := range m.insts {
		v, err := readInst(m, i)
		if err != nil {
			continue
		}
		k, wd, sy := w.tr.syms.storedJ(v)
		r = append(r, J{"i": w.tr.syms.of(i), "k": k, "w": wd, "s": sy})
	}
	return r
}

func (w *World) newMetric(o Op, e J) {
	s := w.tr.syms
	u, ue := unitOf(o.U, o.Simple)
	e["m"], e["kind"], e["name"], e["desc"], e["u"] = o.M, o.Kind, s.of(o.Name), s.all(o.Desc), limbs2(ue)
	e["long"] = tooLong(append([]string{o.Name}, o.Desc...)...)
	m := &met{kind: o.Kind, name: o.Name, t: o.T, regs: map[int]bool{}, insts: []string{""}, indom: -1}
	t, sem := speed.MetricType(o.T), speed.MetricSemantics(o.Sem)
	desc := w.lend(o.Desc)
	var lent interface{} // the map a call gets
	switch o.Kind {
	case "single":
		e["t"], e["sem"], e["v"] = o.T, o.Sem, s.valJ(o.V)
		e["r"] = w.call(func() error {
			x, err := speed.NewPCPSingletonMetric(o.V, o.Name, t, sem, u, desc...)
			m.m = x
			return err
		})
	case "inst":
		e["t"], e["sem"], e["d"], e["vals"] = o.T, o.Sem, o.D, w.valsJ(o.Vals)
		vals := speed.Instances{}
		for _, v := range o.Vals {
			vals[v.I] = v.V
		}
		m.insts, m.indom, lent = w.ind[o.D].insts, o.D, vals
		e["r"] = w.call(func() error {
			x, err := speed.NewPCPInstanceMetric(vals, o.Name, w.ind[o.D].d, t, sem, u, desc...)
			m.m = x
			return err
		})
	case "counter":
		m.t = 2
		e["v"] = s.valJ(o.V)
		e["r"] = w.call(func() error {
			x, err := speed.NewPCPCounter(o.V.(int64), o.Name, desc...)
			m.m = x
			return err
		})
	case "gauge":
		m.t = 5
		e["v"] = s.valJ(o.V)
		e["r"] = w.call(func() error {
			x, err := speed.NewPCPGauge(o.V.(float64), o.Name, desc...)
			m.m = x
			return err
		})
	case "timer":
		m.t, m.timeUnit = 5, o.T
		tu := speed.TimeUnit(1<<24 | uint32(o.T)<<12)
		e["u"] = limbs2(1<<24 | uint32(o.T)<<12)
		e["r"] = w.call(func() error {
			x, err := speed.NewPCPTimer(o.Name, tu, desc...)
			m.m = x
			return err
		})
	case "cvec":
		m.t = 2
		e["d"], e["iname"], e["vals"] = o.D, s.of(o.Name+".indom"), w.valsJ(o.Vals)
		vals := map[string]int64{}
		for _, v := range o.Vals {
			vals[v.I] = v.V.(int64)
		}
		m.insts, m.indom, lent = sortedKeys(o.Vals), o.D, vals
		e["long"] = e["long"].(bool) || tooLong(m.insts...)
		e["r"] = w.call(func() error {
			x, err := speed.NewPCPCounterVector(vals, o.Name, desc...)
			m.m = x
			if err == nil {
				w.ind[o.D] = &indom{x.Indom(), o.Name + ".indom", m.insts}
			}
			return err
		})
	case "gvec":
		m.t = 5
		e["d"], e["iname"], e["vals"] = o.D, s.of(o.Name+".indom"), w.valsJ(o.Vals)
		vals := map[string]float64{}
		for _, v := range o.Vals {
			vals[v.I] = v.V.(float64)
		}
		m.insts, m.indom, lent = sortedKeys(o.Vals), o.D, vals
		e["long"] = e["long"].(bool) || tooLong(m.insts...)
		e["r"] = w.call(func() error {
			x, err := speed.NewPCPGaugeVector(vals, o.Name, desc...)
			m.m = x
			if err == nil {
				w.ind[o.D] = &indom{x.Indom(), o.Name + ".indom", m.insts}
			}
			return err
		})
	case "hist":
		m.t, m.q, m.cq, m.insts, m.indom = 5, o.Q, o.CQ, w.ind[0].insts, 0
		m.low, m.high = o.Low, o.High
		e["low"], e["high"], e["sig"], e["q"] = o.Low, o.High, o.Sig, o.Q
		e["hmax"] = int64(3600000000) / o.Q
		if o.Q == 1 {
			e["hmax"] = math.MaxInt32
		}
		e["r"] = w.call(func() error {
			x, err := speed.NewPCPHistogram(o.Name, o.Low*o.Q, o.High*o.Q, int(o.Sig), u, desc...)
			m.m = x
			if err == nil && w.ind[0].d == nil {
				w.ind[0].d = x.Indom()
			}
			return err
		})
	}
	w.giveBack(desc)
	w.giveBackMap(lent)
	if e["r"] == "ok" {
		w.met[o.M] = m
		if o.Kind != "timer" {
			e["rb"] = w.readback(m)
		}
	}
}

func (w *World) giveBackMap(m interface{}) {
	if !w.owner() {
		return
	}
	switch x := m.(type) {
	case speed.Instances:
		for k := range x {
			delete(x, k)
		}
		x["changed"] = nil
	case map[string]int64:
		for k := range x {
			x[k] = -77
		}
		x["changed"] = -77
	case map[string]float64:
		for k := range x {
			delete(x, k)
		}
		x["changed"] = -77
	}
}

func (w *World) regString(o Op, e J) {
	f := w.regStringPrep(o, e)
	var x speed.Metric
	e["r"] = w.call(func() (err error) { x, err = f(); return })
	w.giveBackMap(w.lent)
	w.lent = nil
	w.regStringDone(o, e, x)
}

func (w *World) regStringPrep(o Op, e J) func() (speed.Metric, error) {
	s := w.tr.syms
	c := w.cli[o.C]
	u, ue := unitOf(o.U, o.Simple)
	s.of(o.Str)
	e["c"], e["m"], e["d"], e["must"] = o.C, o.M, o.D, o.Must
	e["runes"], e["uid"], e["cand"] = grammarOf(s, o.Str)
	e["t"], e["sem"], e["u"] = o.T, o.Sem, limbs2(ue)
	e["isI"], e["v"], e["vals"] = o.IsI, J{"k": "other", "w": limbs(0), "f": limbs(0), "s": 0}, []J{}
	e["long"] = tooLong(o.Str)
	var val interface{} = o.V
	if o.IsI {
		in := speed.Instances{}
		for _, v := range o.Vals {
			in[v.I] = v.V
		}
		val = in
		w.lent = in
		e["vals"] = w.valsJ(o.Vals)
	} else {
		e["v"] = s.valJ(o.V)
	}
	e["rname"], e["rindom"], e["rinsts"] = 0, -1, []int{}
	t, sem := speed.MetricType(o.T), speed.MetricSemantics(o.Sem)
	return func() (speed.Metric, error) {
		if o.Must {
			return c.c.MustRegisterString(o.Str, val, t, sem, u), nil
		}
		return c.c.RegisterString(o.Str, val, t, sem, u)
	}
}

func (w *World) regStringDone(o Op, e J, x speed.Metric) {
	s := w.tr.syms
	c := w.cli[o.C]
	if e["r"] != "ok" || x == nil {
		return
	}
	m := &met{kind: "single", name: x.Name(), t: o.T, m: x, regs: map[int]bool{c.reg: true}, insts: []string{""}, indom: -1, fromString: true}
	p := x.(speed.PCPMetric)
	e["rname"] = s.of(p.Name())
	if d := p.Indom(); d != nil {
		m.kind = "inst"
		m.insts = append([]string{}, d.Instances()...)
		sort.Strings(m.insts)
		e["rindom"], e["rinsts"] = s.of(d.Name()), s.all(d.Instances())
		m.indom = -1
		for k, x := range w.ind {
			if x.d == d {
				m.indom = k
			}
		}
		// of concurrent registrations it is not known which one made it
		if m.indom < 0 && e["b"] == nil {
			w.ind[o.D] = &indom{d, d.Name(), m.insts}
			m.indom = o.D
		}
	}
	w.met[o.M] = m
	e["rb"] = w.readback(m)
}

func dyadic(f float64) (int, bool) {
	x := f * 8
	if x != math.Trunc(x) || math.Abs(x) > 1<<26 {
		return 0, false
	}
	return int(x), true
}

func (w *World) update(o Op, e J) {
	s := w.tr.syms
	m := w.met[o.M]
	e["m"], e["f"], e["i"], e["must"] = o.M, o.F, s.of(o.I), o.Must
	e["v"] = s.valJ(o.V)
	if m.kind == "gauge" || m.kind == "gvec" {
		if o.F != "Set" && o.F != "SetAll" {
			sums := []J{}
			for _, i := range m.insts {
				if o.F == "Inc" || o.F == "Dec" {
					if i != o.I {
						continue
					}
				}
				pv, err := readInst(m, i)
				if err != nil {
					continue
				}
				p, v := pv.(float64), o.V.(float64)
				sum := p + v
				if strings.HasPrefix(o.F, "Dec") {
					sum = p - v
				}
				q := J{"i": s.of(i), "p": limbs(math.Float64bits(p)), "s": limbs(math.Float64bits(sum)), "pn": 0, "vn": 0, "sn": 0}
				pn, a := dyadic(p)
				vn, b := dyadic(v)
				sn, c := dyadic(sum)
				q["dy"] = a && b && c
				if a && b && c {
					q["pn"], q["vn"], q["sn"] = pn, vn, sn
				}
				sums = append(sums, q)
			}
			e["sums"] = sums
		} else {
			e["sums"] = []J{}
		}
	}
	e["r"] = w.call(updCall(m, o))
	if e["r"] != "hang" {
		e["rb"] = w.readback(m)
	}
}

// updCall is the call for an update
func updCall(m *met, o Op) func() error {
	v := o.V
	return func() error {
		switch x := m.m.(type) {
		case *speed.PCPSingletonMetric:
			if o.Must {
				x.MustSet(v)
				return nil
			}
			return x.Set(v)
		case *speed.PCPInstanceMetric:
			if o.Must {
				x.MustSetInstance(v, o.I)
				return nil
			}
			return x.SetInstance(v, o.I)
		case *speed.PCPCounter:
			switch {
			case o.F == "Set":
				return x.Set(v.(int64))
			case o.Must && v.(int64) == 1 && o.On:
				x.Up()
			case o.Must:
				x.MustInc(v.(int64))
			default:
				return x.Inc(v.(int64))
			}
		case *speed.PCPGauge:
			f := v.(float64)
			switch o.F {
			case "Set":
				if !o.Must {
					return x.Set(f)
				}
				x.MustSet(f)
			case "Inc":
				if !o.Must {
					return x.Inc(f)
				}
				x.MustInc(f)
			case "Dec":
				if !o.Must {
					return x.Dec(f)
				}
				x.MustDec(f)
			}
		case *speed.PCPCounterVector:
			n := v.(int64)
			switch o.F {
			case "Set":
				if !o.Must {
					return x.Set(n, o.I)
				}
				x.MustSet(n, o.I)
			case "Inc":
				if !o.Must {
					return x.Inc(n, o.I)
				}
				if n == 1 && o.On {
					x.Up(o.I)
				} else {
					x.MustInc(n, o.I)
				}
			case "SetAll":
				x.SetAll(n)
			case "IncAll":
				if n == 1 && o.On {
					x.UpAll()
				} else {
					x.IncAll(n)
				}
			}
		case *speed.PCPGaugeVector:
			f := v.(float64)
			switch o.F {
			case "Set":
				if !o.Must {
					return x.Set(f, o.I)
				}
				x.MustSet(f, o.I)
			case "Inc":
				if !o.Must {
					return x.Inc(f, o.I)
				}
				x.MustInc(f, o.I)
			case "Dec":
				if !o.Must {
					return x.Dec(f, o.I)
				}
				x.MustDec(f, o.I)
			case "SetAll":
				x.SetAll(f)
			case "IncAll":
				x.IncAll(f)
			case "DecAll":
				x.DecAll(f)
			}
		}
		return nil
	}
}

var perMicro = []float64{1e-3, 1, 1e3, 1e6, 60e6, 3600e6}

func (w *World) timer(o Op, e J) {
	m := w.met[o.M]
	x := m.m.(*speed.PCPTimer)
	e["m"], e["f"] = o.M, o.F
	if o.Sleep > 0 && o.F != "TTick" {
		time.Sleep(o.Sleep)
	}
	var tot float64
	switch o.F {
	case "TStart":
		b := time.Now()
		e["r"] = w.call(x.Start)
		if e["r"] == "ok" {
			m.tsB, m.tsA = b, time.Now()
		}
	case "TReset":
		e["r"] = w.call(x.Reset)
	case "TStop":
		b := time.Now()
		e["r"] = w.call(func() (err error) { tot, err = x.Stop(); return })
		a := time.Now()
		lo, hi := b.Sub(m.tsA).Microseconds(), a.Sub(m.tsB).Microseconds()+1
		if m.tsB.IsZero() || lo < 0 || hi > 1e9 {
			lo, hi = 0, 0
		}
		e["lo"], e["hi"] = lo, hi
		us := math.Round(tot * perMicro[m.timeUnit])
		if !(us > -1e9 && us < 2e9) {
			us = -1e9
		}
		e["us"], e["tot"] = int64(us), limbs(math.Float64bits(tot))
	case "TTick":
		// a short interval, in nanoseconds
		var t [4]time.Time
		e["r"] = w.call(func() error {
			t[0] = time.Now()
			if err := x.Start(); err != nil {
				return err
			}
			t[1] = time.Now()
			for t[2] = t[1]; t[2].Sub(t[1]) < o.Sleep; {
				t[2] = time.Now()
			}
			var err error
			tot, err = x.Stop()
			t[3] = time.Now()
			return err
		})
		lo, hi := t[2].Sub(t[1]).Nanoseconds(), t[3].Sub(t[0]).Nanoseconds()
		if e["r"] != "ok" || lo < 0 || hi > 1e9 {
			lo, hi = 0, 1
		}
		cap31 := func(f float64) int64 {
			if f = math.Round(f); !(f > -1e9 && f < 2e9) {
				return -1000000000
			}
			return int64(f)
		}
		e["lons"], e["hins"], e["ns"] = lo, hi, cap31((tot-m.tot)*perMicro[m.timeUnit]*1000)
		e["lo"], e["hi"], e["us"], e["tot"] = lo/1000, hi/1000+1, cap31(tot*perMicro[m.timeUnit]), limbs(math.Float64bits(tot))
	}
	if e["r"] == "ok" && o.F != "TStart" {
		m.tot = tot // nothing after a Reset
	}
}

func (w *World) hist(o Op, e J) {
	m := w.met[o.M]
	e["m"], e["val"], e["n"], e["must"] = o.M, o.Val, o.N, o.Must
	e["r"] = w.call(histCall(m, o))
	e["rb"] = w.readback(m)
	if e["r"] == "ok" {
		m.n, m.sum, m.sq = m.n+o.N, m.sum+o.N*o.Val, m.sq+o.N*o.Val*o.Val
	}
	e["hs"] = histSummary(m)
}

// times is how often one recording of the specification is made
func (m *met) times() int64 {
	if m.cq > 1 {
		return m.cq
	}
	return 1
}

func histCall(m *met, o Op) func() error {
	x := m.m.(*speed.PCPHistogram)
	raw, n := o.Val*m.q, o.N*m.times()
	return func() error {
		switch {
		case o.Must && n == 1:
			x.MustRecord(raw)
		case o.Must:
			x.MustRecordN(raw, n)
		case n == 1 && o.On:
			return x.Record(raw)
		default:
			return x.RecordN(raw, n)
		}
		return nil
	}
}

// histSummary is what a histogram reports
func histSummary(m *met) J {
	x := m.m.(*speed.PCPHistogram)
	q := float64(m.q)
	cap31 := func(f float64) int64 {
		f = math.Round(f)
		if !(f > -2e9 && f < 2e9) {
			return -2000000000
		}
		return int64(f)
	}
	link := x.Variance() == x.StandardDeviation()*x.StandardDeviation() || math.Abs(x.Variance()-x.StandardDeviation()*x.StandardDeviation()) <= 1e-9*x.Variance()
	hs := J{"min": cap31(float64(x.Min()) / q), "max": cap31(float64(x.Max()) / q), "mean4": cap31(4 * x.Mean() / q), "dev4": cap31(4 * x.StandardDeviation() / q),
		"var4": cap31(4 * x.Variance() / q / q), "high": x.High() / m.q, "highr": x.High() % m.q, "low": x.Low() / m.q, "link": link}
	pct := []J{}
	for _, p := range []int64{0, 1, 100, 250, 500, 750, 900, 990, 999, 1000} {
		pct = append(pct, J{"p": p, "r": cap31(float64(x.Percentile(float64(p)/10)) / q)})
	}
	hs["pct"] = pct
	var cnt int64
	for _, b := range x.Buckets() {
		cnt += b.Count
	}
	hs["count"] = cnt / m.times()
	if cnt%m.times() != 0 {
		hs["count"] = -1
	}
	hs["fine"] = fine(m, x)
	return hs
}

// made is the names and identifiers of what several goroutines make at the same
// time, each of a lot and only once what is the same
func (w *World) made(names []string) []J {
	type id struct {
		name string
		id   uint32
		dom  bool
	}
	var wg sync.WaitGroup
	var ready int32
	const n = 6
	seen := [n]map[id]bool{}
	for k := 0; k < n; k++ {
		seen[k] = map[id]bool{}
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() { _ = recover() }()
			atomic.AddInt32(&ready, 1)
			for int(atomic.LoadInt32(&ready)) < n {
				runtime.Gosched()
			}
			for i := 0; i < 240; i++ {
				x := names[(i*(k+1)+k)%len(names)]
				if k%2 == 0 {
					if m, err := speed.NewPCPCounter(1, x); err == nil {
						seen[k][id{m.Name(), m.ID(), false}] = true
					}
				} else if d, err := speed.NewPCPInstanceDomain(x, []string{"i"}); err == nil {
					seen[k][id{d.Name(), d.ID(), true}] = true
				}
			}
		}(k)
	}
	wg.Wait()
	js := []J{}
	have := map[id]bool{}
	for _, m := range seen {
		for x := range m {
			if !have[x] {
				have[x] = true
				js = append(js, J{"name": w.tr.syms.of(x.name), "id": limbs2(x.id), "dom": x.dom})
			}
		}
	}
	return js
}

// fine is the mean and the variance in parts that are as small as the integers
// of the specification allow; k = 0 when they do not
func fine(m *met, x *speed.PCPHistogram) J {
	part := func(v float64, n, total int64) (int64, int64) {
		k := int64(1 << 18)
		for k > 0 && (total > 1<<29/k || n > 1<<29/k) {
			k >>= 1
		}
		f := math.Round(v * float64(k))
		if !(math.Abs(f)*float64(n) < 1<<30) {
			f = -float64(int64(1<<30) / n) // far off, whatever the sums are
		}
		return k, int64(f)
	}
	if m.q != 1 || m.n <= 0 || m.n > 5000 || m.sum > 1<<28 || m.sq > (1<<28)/m.n {
		return J{"k": 0, "m": 0, "kv": 0, "v": 0}
	}
	k, mk := part(x.Mean(), m.n, m.sum)
	kv, vk := part(x.Variance(), m.n*m.n, m.n*m.sq)
	return J{"k": k, "m": mk, "kv": kv, "v": vk}
}

// fault makes the next start of c impossible; the returned function undoes it
func (w *World) fault(kind string, c *cli) func() {
	switch kind {
	case "dir": // something that cannot be removed is in the place of the file
		aside := filepath.Join(w.tmp, "aside")
		had := os.Rename(c.loc, aside) == nil
		die(os.MkdirAll(filepath.Join(c.loc, "x"), 0700))
		return func() {
			die(os.RemoveAll(c.loc))
			if had {
				die(os.Rename(aside, c.loc))
			}
		}
	case "mmv": // the directory cannot be made
		dir, aside := filepath.Join(w.tmp, "mmv"), filepath.Join(w.tmp, "mmv-aside")
		had := os.Rename(dir, aside) == nil
		die(os.WriteFile(dir, []byte("x"), 0600))
		return func() {
			die(os.Remove(dir))
			if had {
				die(os.Rename(aside, dir))
			}
		}
	case "nofile": // no more files can be opened
		return limit(syscall.RLIMIT_NOFILE, 0)
	case "fsize": // the file cannot be made large enough
		signal.Ignore(syscall.SIGXFSZ)
		return limit(syscall.RLIMIT_FSIZE, 64)
	}
	return func() {}
}

func limit(what int, n uint64) func() {
	var old syscall.Rlimit
	die(syscall.Getrlimit(what, &old))
	l := old
	l.Cur = n
	die(syscall.Setrlimit(what, &l))
	return func() { die(syscall.Setrlimit(what, &old)) }
}

// held counts the mappings and open files of a location in this process
func held(locs []string) (maps, fds []int) {
	maps, fds = make([]int, len(locs)), make([]int, len(locs))
	b, err := os.ReadFile("/proc/self/maps")
	die(err)
	for _, l := range bytes.Split(b, []byte("\n")) {
		p := bytes.IndexByte(l, '/')
		if p < 0 {
			continue
		}
		path := string(l[p:])
		for i, loc := range locs {
			if path == loc || path == loc+" (deleted)" {
				maps[i]++
			}
		}
	}
	d, err := os.ReadDir("/proc/self/fd")
	die(err)
	for _, f := range d {
		path, err := os.Readlink("/proc/self/fd/" + f.Name())
		if err != nil {
			continue
		}
		for i, loc := range locs {
			if path == loc || path == loc+" (deleted)" {
				fds[i]++
			}
		}
	}
	return
}

// escaped is the path as it is in /proc/self/maps, where line feeds are escaped
func (w *World) observe(e J, o Op, fresh, stopped int) {
	ids := []int{}
	for c := range w.cli {
		ids = append(ids, c)
	}
	sort.Ints(ids)
	cl := []J{}
	locs := []string{}
	for _, id := range ids {
		locs = append(locs, w.cli[id].loc)
	}
	maps, fds := held(locs)
	for k, id := range ids {
		c := w.cli[id]
		ob := J{"c": id, "maps": maps[k], "fds": fds[k], "chg": []J{}, "sch": []J{}}
		st, err := os.Lstat(c.loc)
		ex := err == nil && st.Mode().IsRegular()
		ob["ex"] = ex
		if !w.broken {
			r := c.c.Registry()
			ob["cnt"] = []int{r.MetricCount(), r.ValuesCount(), r.InstanceDomainCount(), r.InstanceCount(), r.StringCount()}
			ob["len"] = c.c.Length()
		} else {
			ob["cnt"], ob["len"] = []int{0, 0, 0, 0, 0}, 0
		}
		var data []byte
		if ex {
			data, err = os.ReadFile(c.loc)
			die(err)
		}
		if id == fresh || (o.Img && c.active || id == stopped) && ex {
			im := decode(data, ob["len"].(int), w.tr.syms)
			ob["img"] = im.json
			if id == fresh {
				c.im, c.last = im, data
				e["img"] = im.json
			}
		}
		if id != fresh && ex && c.last != nil {
			ob["chg"], ob["sch"] = diff(c.last, data, c.im, w.tr.syms)
		}
		c.last = data
		cl = append(cl, ob)
	}
	e["cl"] = cl
}

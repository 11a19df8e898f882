package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/performancecopilot/speed/v4"
)

// Readers that have mapped the file on their own look at the words of values
// again and again while these are updated. What they have seen is written down,
// with what was written.

type slot struct {
	m    *met
	inst string
	off  int
	word *uint64 // in the mapping of the reader

	mu      sync.Mutex
	written []interface{}
	steps   bool // a counter that is incremented by the same step
	n       int64
	seen    map[uint64]bool
	odd     map[uint64]bool
	back    bool
	looks   int64
}

const tornStep = int64(0x0001000100010001)

func (s *slot) note(w uint64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.steps && (w>>48 != w&0xffff || w>>32&0xffff != w&0xffff || w>>16&0xffff != w&0xffff) {
		if len(s.odd) < 20 {
			s.odd[w] = true
		}
	} else if len(s.seen) < 60 {
		s.seen[w] = true
	}
}

type torn struct {
	rnd   *rand.Rand
	slots []*slot
	mets  []*met
	stop  int32
}

func (t *torn) words(n int) []uint64 {
	r := []uint64{}
	for i := 0; i < n; i++ {
		switch t.rnd.Intn(4) {
		case 0:
			r = append(r, 0x0101010101010101*uint64(1+t.rnd.Intn(255)))
		case 1:
			r = append(r, 0x1122334455667788)
		case 2:
			r = append(r, []uint64{math.MaxUint64, 0x8000000000000000, 0x00000000ffffffff, 0xffffffff00000000, 1}[t.rnd.Intn(5)])
		default:
			r = append(r, t.rnd.Uint64()|1)
		}
	}
	return r
}

// value of a type from a word, never zero
func tornVal(t int, w uint64) interface{} {
	h := uint32(w>>32) ^ uint32(w)
	if h == 0 {
		h = uint32(w) | 1
	}
	switch t {
	case 0:
		return int32(h)
	case 1:
		return h
	case 2:
		return int64(w)
	case 3:
		return w
	case 4:
		if h&0x7f800000 == 0x7f800000 {
			h &^= 0x40000000
		}
		return math.Float32frombits(h | 1)
	}
	if w&0x7ff0000000000000 == 0x7ff0000000000000 {
		w &^= 0x4000000000000000
	}
	return math.Float64frombits(w | 1)
}

// make a metric; it is written by one goroutine
func (t *torn) metric(kind string, k int, syms *Syms) *met {
	name := fmt.Sprintf("t%d", k)
	m := &met{kind: kind, name: name, insts: []string{""}}
	add := func(inst string, v interface{}) *slot {
		s := &slot{m: m, inst: inst, seen: map[uint64]bool{}, odd: map[uint64]bool{}}
		if v != nil {
			s.written = append(s.written, v)
		}
		t.slots = append(t.slots, s)
		return s
	}
	var err error
	switch kind {
	case "single":
		m.t = t.rnd.Intn(6)
		v := tornVal(m.t, t.words(1)[0])
		m.m, err = speed.NewPCPSingletonMetric(v, name, speed.MetricType(m.t), speed.InstantSemantics, speed.OneUnit)
		add("", v)
	case "inst":
		m.t = t.rnd.Intn(6)
		m.insts = []string{"a", "b", "c"}[:1+t.rnd.Intn(3)]
		vals := speed.Instances{}
		for _, i := range m.insts {
			v := tornVal(m.t, t.words(1)[0])
			vals[i] = v
			add(i, v)
		}
		d, e := speed.NewPCPInstanceDomain(name+".d", m.insts)
		die(e)
		m.m, err = speed.NewPCPInstanceMetric(vals, name, d, speed.MetricType(m.t), speed.InstantSemantics, speed.OneUnit)
	case "counter":
		m.t = 2
		m.m, err = speed.NewPCPCounter(0, name)
		add("", nil).steps = true
	case "cvec":
		m.t = 2
		m.insts = []string{"a", "b"}
		vals := map[string]int64{}
		for _, i := range m.insts {
			vals[i] = 0
			add(i, nil).steps = true
		}
		m.m, err = speed.NewPCPCounterVector(vals, name)
	case "gauge":
		m.t = 5
		v := tornVal(5, t.words(1)[0]).(float64)
		m.m, err = speed.NewPCPGauge(v, name)
		add("", v)
	case "gvec":
		m.t = 5
		m.insts = []string{"a", "b"}
		vals := map[string]float64{}
		for _, i := range m.insts {
			v := tornVal(5, t.words(1)[0]).(float64)
			vals[i] = v
			add(i, v)
		}
		m.m, err = speed.NewPCPGaugeVector(vals, name)
	case "timer":
		m.t = 5
		m.m, err = speed.NewPCPTimer(name, speed.NanosecondUnit)
		add("", 0.0)
	case "hist":
		m.t = 5
		m.insts = []string{"max", "mean", "min", "standard_deviation", "variance"}
		m.m, err = speed.NewPCPHistogram(name, 0, 1000, 3, speed.OneUnit)
		for _, i := range m.insts {
			add(i, 0.0)
		}
	}
	die(err)
	t.mets = append(t.mets, m)
	return m
}

func (t *torn) slotsOf(m *met) []*slot {
	r := []*slot{}
	for _, s := range t.slots {
		if s.m == m {
			r = append(r, s)
		}
	}
	return r
}

// write updates a metric n times, or for as long as d
func (t *torn) write(m *met, seed int64, d time.Duration, errs *int32) {
	rnd := rand.New(rand.NewSource(seed))
	sl := t.slotsOf(m)
	note := func(s *slot, v interface{}) {
		s.mu.Lock()
		s.written = append(s.written, v)
		s.mu.Unlock()
	}
	fail := func(err error) {
		if err != nil {
			atomic.AddInt32(errs, 1)
		}
	}
	end := time.Now().Add(d)
	switch m.kind {
	case "counter", "cvec":
		for i := 0; i < 32000 && (i%64 > 0 || time.Now().Before(end)); i++ {
			s := sl[rnd.Intn(len(sl))]
			if s.n == 32000 {
				continue
			}
			fail(updCall(m, Op{F: "Inc", I: s.inst, V: tornStep})())
			s.n++
		}
	case "timer":
		x := m.m.(*speed.PCPTimer)
		for i := 0; i < 150; i++ {
			fail(x.Start())
			v, err := x.Stop()
			fail(err)
			note(sl[0], v)
		}
	case "hist":
		x := m.m.(*speed.PCPHistogram)
		for i := 0; i < 60; i++ {
			fail(x.Record(rnd.Int63n(1000)))
			for _, s := range sl {
				v, err := readInst(m, s.inst)
				die(err)
				note(s, v)
			}
		}
	default:
		vals := map[*slot][]interface{}{}
		f := []func() error{}
		for _, s := range sl {

			for _, w := range (&torn{rnd: rnd}).words(1 + rnd.Intn(3)) {
				v := tornVal(m.t, w)
				note(s, v)
				vals[s] = append(vals[s], v)
				f = append(f, updCall(m, Op{F: "Set", I: s.inst, V: v}))
			}
		}
		if m.kind == "gvec" && rnd.Intn(2) == 0 {
			v := tornVal(5, rnd.Uint64()|1).(float64)
			for _, s := range sl {
				note(s, v)
			}
			f = append(f, updCall(m, Op{F: "SetAll", V: v}))
		}
		for i := 0; i%64 > 0 || time.Now().Before(end); i++ {
			fail(f[rnd.Intn(len(f))]())
		}
	}
}

func (t *torn) history(tr *Trace, tmp string, n int, millis int) {
	c, err := speed.NewPCPClient("torn")
	die(err)
	loc := filepath.Join(tmp, "mmv", "torn")
	kinds := []string{"single", "single", "inst", "counter", "cvec", "gauge", "gvec", "timer", "hist"}
	for k := 2 + t.rnd.Intn(2); k > 0; k-- {
		c.MustRegister(t.metric(kinds[t.rnd.Intn(len(kinds))], k, tr.syms).m)
	}
	die(c.Start())
	defer func() {
		die(c.Stop())
		_ = os.Remove(loc)
	}()
	f, err := os.Open(loc)
	die(err)
	st, err := f.Stat()
	die(err)
	mem, err := syscall.Mmap(int(f.Fd()), 0, int(st.Size()), syscall.PROT_READ, syscall.MAP_SHARED)
	die(err)
	defer syscall.Munmap(mem)
	_ = f.Close()
	if !t.place(mem) {
		return
	}
	e := J{"op": "torn", "sid": n, "fails": 0}
	var errs int32
	var wg, rd sync.WaitGroup
	watched := t.rnd.Intn(2) == 0
	if watched {
		// what is in the word when a store is about to be made
		byOff := map[int]*slot{}
		for _, s := range t.slots {
			byOff[s.off], byOff[s.off+4] = s, s
		}
		var x uint64
		undo := setHook(func(b, d []byte, off int) {
			if len(b) != len(mem) {
				return
			}
			s := byOff[off&^3]
			if s == nil {
				return
			}
			s.note(le.Uint64(b[s.off:]))
			if atomic.AddUint64(&x, 1)%64 == 0 {
				time.Sleep(50 * time.Microsecond)
			} else {
				runtime.Gosched()
			}
		})
		defer undo()
	}
	for i := 0; i < 3; i++ {
		rd.Add(1)
		go func(i int) {
			defer rd.Done()
			last := make([]uint64, len(t.slots))
			var looks int64
			for k, s := range t.slots {
				last[k] = atomic.LoadUint64(s.word)
				s.note(last[k])
			}
			for atomic.LoadInt32(&t.stop) == 0 {
				for r := 0; r < 200; r++ {
					for k, s := range t.slots {
						v := atomic.LoadUint64(s.word)
						if v != last[k] {
							if s.steps && int64(v) < int64(last[k]) {
								s.mu.Lock()
								s.back = true
								s.mu.Unlock()
							}
							s.note(v)
							last[k] = v
						}
					}
				}
				looks += 200
			}
			for _, s := range t.slots {
				atomic.AddInt64(&s.looks, looks)
			}
		}(i)
	}
	for _, m := range t.mets {
		wg.Add(1)
		go func(m *met, seed int64) {
			defer wg.Done()
			t.write(m, seed, time.Duration(millis)*time.Millisecond, &errs)
		}(m, t.rnd.Int63())
	}
	wg.Wait()
	atomic.StoreInt32(&t.stop, 1)
	rd.Wait()
	e["fails"] = int(errs)
	sl := []J{}
	for _, s := range t.slots {
		vs, ws := []J{}, [][]int{}
		have := map[string]bool{}
		for _, v := range s.written {
			if k := fmt.Sprintf("%T%v", v, v); !have[k] {
				have[k] = true
				vs = append(vs, tr.syms.valJ(v))
			}
		}
		for _, set := range []map[uint64]bool{s.seen, s.odd} {
			xs := []uint64{}
			for w := range set {
				xs = append(xs, w)
			}
			sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
			for _, w := range xs {
				ws = append(ws, limbs(w))
			}
		}
		sl = append(sl, J{"kind": s.m.kind, "t": s.m.t, "i": s.inst, "o": s.off, "steps": s.steps, "n": s.n, "vals": vs, "seen": ws,
			"last": limbs(atomic.LoadUint64(s.word)), "back": s.back, "looks": s.looks})
	}
	e["slots"] = sl
	tr.emit(e)
}

// place finds the words of the values
func (t *torn) place(mem []byte) bool {
	syms := newSyms()
	im := decode(mem, len(mem), syms)
	if !im.ok || im.ver != 1 {
		return false
	}
	names := map[int]string{}
	tab := syms.table()
	str := func(s int) string {
		b := []byte{}
		if s > 0 {
			for _, x := range tab[s-1] {
				b = append(b, byte(x))
			}
		}
		return string(b)
	}
	for _, k := range []string{"metrics", "insts"} {
		for _, x := range im.json[k].([]J) {
			names[x["o"].(int)] = str(x["n"].(int))
		}
	}
	at := map[[2]string]int{}
	for _, v := range im.json["vals"].([]J) {
		i := ""
		if o := v["i"].(int); o > 0 {
			i = names[o]
		}
		at[[2]string{names[v["m"].(int)], i}] = v["o"].(int)
	}
	for _, s := range t.slots {
		o, ok := at[[2]string{s.m.name, s.inst}]
		if !ok || o%8 != 0 {
			return false
		}
		s.off = o
		s.word = (*uint64)(unsafe.Pointer(&mem[o]))
	}
	return true
}

func tornRun(tmp string) {
	tr := newTrace()
	rnd := rand.New(rand.NewSource(*fSeed))
	t0 := time.Now()
	n := 0
	for n < *fN {
		n++
		t := &torn{rnd: rand.New(rand.NewSource(rnd.Int63()))}
		t.history(tr, tmp, n, 60)
		if *fSecs > 0 && time.Since(t0).Seconds() > *fSecs {
			break
		}
	}
	tr.write(*fOut)
	var looks int64
	for _, e := range tr.ev {
		for _, s := range e["slots"].([]J) {
			looks += s["looks"].(int64)
		}
	}
	fmt.Printf("sessions %d events %d looks %d\n", n, len(tr.ev), looks)
}

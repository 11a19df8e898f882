package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/performancecopilot/speed/v4/bytewriter"
)

// What a reader can see of a file while it is made: every store of a start is
// held back until it is its turn, in an order that a policy gives, and the
// file is read in between like a reader would

var fKill = flag.Int("kill", 0, "end the process before this store of a start")

// classes of stores, by what lies there
const (
	clTag = iota
	clG1
	clG2
	clHdr
	clToc
	clIndom
	clInst
	clMetric
	clValue
	clString
	nClasses
)

var classNames = []string{"tag", "g1", "g2", "header", "toc", "indom", "inst", "metric", "value", "string"}

func classOf(im *Image) func(int) int {
	return func(o int) int {
		switch {
		case o < 4:
			return clTag
		case o >= 8 && o < 16:
			return clG1
		case o >= 16 && o < 24:
			return clG2
		case o < 40:
			return clHdr
		case im == nil || o < 40+16*len(im.tocs):
			return clToc
		}
		c, best := clToc, -1
		for _, t := range im.tocs {
			if t[2] <= o && t[2] > best && t[1] > 0 {
				best, c = t[2], clToc+t[0]
			}
		}
		return c
	}
}

// Policy gives the turns: lower numbers first; a store with a number above 0
// has to wait until nothing else has come for a while
type Policy struct {
	name  string
	prio  func(off int) int
	quiet time.Duration
	free  bool // no stores are held back, the file is read all the time
	looks int  // one in so many grants without waiting is preceded by a look
}

type pend struct {
	off, prio int
	done      chan struct{}
}

// Watch is the reader, and who gives the turns
type Watch struct {
	loc    string
	old    []byte
	pol    *Policy
	mu     sync.Mutex
	on     bool
	q      []*pend
	kick   chan struct{}
	stopc  chan struct{}
	wg     sync.WaitGroup
	offs   map[int]bool
	stores int
	nlook  int
	part   int // incomplete files seen
	cands  [][]byte
	kill   int
}

func complete(b []byte) bool {
	return len(b) >= 24 && bytes.Equal(b[:4], []byte("MMV\x00")) && binary.LittleEndian.Uint64(b[8:]) == binary.LittleEndian.Uint64(b[16:])
}

func (w *Watch) look() {
	b, err := os.ReadFile(w.loc)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.nlook++
	if err != nil || w.old != nil && bytes.Equal(b, w.old) {
		return
	}
	if !complete(b) {
		w.part++
		return
	}
	for _, c := range w.cands {
		if bytes.Equal(c, b) {
			return
		}
	}
	if len(w.cands) < 8 {
		w.cands = append(w.cands, b)
	}
}

func (w *Watch) hook(buf, data []byte, off int) {
	w.mu.Lock()
	if !w.on {
		w.mu.Unlock()
		return
	}
	w.stores++
	w.offs[off] = true
	if w.kill > 0 && w.stores == w.kill {
		_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
	if w.pol.free {
		w.mu.Unlock()
		w.look()
		return
	}
	p := &pend{off: off, prio: w.pol.prio(off), done: make(chan struct{})}
	w.q = append(w.q, p)
	w.mu.Unlock()
	select {
	case w.kick <- struct{}{}:
	default:
	}
	<-p.done
}

// setHook has a function called before every store; what it returns ends that
func setHook(f func(b, d []byte, off int)) func() {
	bytewriter.VerifHook = f
	return func() { bytewriter.VerifHook = nil }
}

func watch(loc string, pol *Policy) *Watch {
	w := &Watch{loc: loc, pol: pol, on: true, kick: make(chan struct{}, 1), stopc: make(chan struct{}), offs: map[int]bool{}}
	if b, err := os.ReadFile(loc); err == nil {
		w.old = b
	}
	bytewriter.VerifHook = w.hook
	w.wg.Add(1)
	go w.run()
	return w
}

// grant lets those with the lowest number go
func (w *Watch) grant() {
	w.mu.Lock()
	sort.SliceStable(w.q, func(i, j int) bool { return w.q[i].prio < w.q[j].prio })
	for i := 0; len(w.q) > 0 && (i == 0 || w.q[0].prio == i); {
		i = w.q[0].prio
		close(w.q[0].done)
		w.q = w.q[1:]
		if i == 0 {
			i = -1
		}
	}
	w.mu.Unlock()
}

func (w *Watch) lowest() (int, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	best, any := 0, false
	for _, p := range w.q {
		if !any || p.prio < best {
			best, any = p.prio, true
		}
	}
	return best, any
}

func (w *Watch) run() {
	defer w.wg.Done()
	n := 0
	for {
		if w.pol.free {
			w.look()
			select {
			case <-w.stopc:
				return
			default:
			}
			continue
		}
		p, any := w.lowest()
		if !any {
			select {
			case <-w.kick:
			case <-w.stopc:
				return
			}
			continue
		}
		n++
		if p == 0 {
			if w.pol.looks > 0 && n%w.pol.looks == 0 {
				w.look()
			}
			w.grant()
			continue
		}
		select {
		case <-w.kick:
		case <-w.stopc:
			return
		case <-time.After(w.pol.quiet):
			w.look()
			w.grant()
		}
	}
}

// stop is for when the start has returned
func (w *Watch) stop() {
	close(w.stopc)
	w.wg.Wait()
	w.look()
	w.mu.Lock()
	w.on = false
	for _, p := range w.q {
		close(p.done)
	}
	w.q = nil
	w.mu.Unlock()
	bytewriter.VerifHook = nil
}

// images that a reader took for complete, but for the final one
func (w *Watch) images(final []byte, rep int, s *Syms) []J {
	r := []J{}
	for _, c := range w.cands {
		if final == nil || !bytes.Equal(c, final) {
			r = append(r, decode(c, rep, s).json)
		}
	}
	return r
}

// policies
func freely() *Policy { return &Policy{name: "free", free: true} }

func starve(off int) *Policy {
	return &Policy{name: fmt.Sprintf("starve %d", off), quiet: 2 * time.Millisecond, prio: func(o int) int {
		if o == off {
			return 1
		}
		return 0
	}}
}

func starveClass(c int, cl func(int) int) *Policy {
	return &Policy{name: "starve " + classNames[c], quiet: 2 * time.Millisecond, looks: 5, prio: func(o int) int {
		if cl(o) == c {
			return 1
		}
		return 0
	}}
}

// inOrder gives turns to classes
func inOrder(order []int, cl func(int) int) *Policy {
	rank := map[int]int{}
	name := "order"
	for i, c := range order {
		rank[c] = i + 1
		name += " " + classNames[c]
	}
	return &Policy{name: name, quiet: 250 * time.Microsecond, prio: func(o int) int { return rank[cl(o)] }}
}

// anyhow gives each store a number of its own
func anyhow(rnd *rand.Rand) *Policy {
	seed := rnd.Int63()
	return &Policy{name: fmt.Sprintf("random %d", seed), quiet: 100 * time.Microsecond, prio: func(o int) int {
		return 1 + rand.New(rand.NewSource(seed+int64(o))).Intn(1<<20)
	}}
}

// what a registry is must not depend on chance within the library, a child
// process makes the same
var pubProf = Prof{Nops: 18, NoAll: true, Ncli: 1, Long: 0.06, W: map[string]int{"newindom": 4, "newmetric": 20, "regindom": 8, "indombyname": 4,
	"register": 30, "regstring": 6, "upd": 10, "hist": 2, "flag": 2}, Kinds: []string{"single", "single", "inst", "counter", "gauge", "timer", "cvec", "gvec", "hist"}}

// pubRegistry makes a client and what it publishes
func (g *Gen) pubRegistry() bool {
	g.begin()
	w := g.w
	if !w.do(Op{Op: "client", C: 1, Reg: 1, Name: g.pick([]string{"pub", "p.q", "pub lished"})}) {
		return false
	}
	g.nextC, g.nextR = 2, 2
	if g.rnd.Intn(12) == 0 {
		return true
	}
	return g.pubOps(g.p.Nops)
}

func (g *Gen) pubOps(n int) bool {
	kinds := []string{"newindom", "newmetric", "regindom", "indombyname", "register", "regstring", "upd", "hist", "flag"}
	tot := 0
	for _, k := range kinds {
		tot += g.p.W[k]
	}
	for i := 0; i < n; i++ {
		x := g.rnd.Intn(tot)
		for _, k := range kinds {
			x -= g.p.W[k]
			if x < 0 {
				o, ok := g.op(k)
				o.Img = false
				if ok && !g.w.do(o) {
					return false
				}
				break
			}
		}
	}
	return true
}

// leftover puts something where the file will be
func (g *Gen) leftover(size int) Op {
	o := Op{Op: "plant", C: 1}
	last := g.w.cli[1].last
	var b []byte
	switch g.rnd.Intn(6) {
	case 0: // garbage
		b = make([]byte, g.rnd.Intn(2*size+1))
		g.rnd.Read(b)
	case 1: // looks complete, and larger
		b = make([]byte, size+g.rnd.Intn(2*size))
		g.rnd.Read(b)
	case 2:
		b = make([]byte, size)
		for i := range b {
			b[i] = 0xff
		}
	case 3: // an earlier file, longer or shorter
		b = append(append([]byte{}, last...), make([]byte, 300)...)
		if g.rnd.Intn(2) == 0 && len(last) > 50 {
			b = b[:len(last)-g.rnd.Intn(40)]
		}
	case 4: // an incomplete one
		b = append([]byte{}, last...)
		if len(b) > 24 {
			copy(b[16:24], make([]byte, 8))
		}
	default:
		b = append([]byte{}, last...)
		for k := 40; k < len(b); k++ {
			b[k] ^= 0x5a
		}
	}
	if k := g.rnd.Intn(3); k > 0 && len(b) >= 24 {
		copy(b, "MMV\x00")
		binary.LittleEndian.PutUint32(b[4:], uint32(k))
		gen := uint64(time.Now().Unix())
		if g.rnd.Intn(3) == 0 {
			gen = 0
		}
		binary.LittleEndian.PutUint64(b[8:], gen)
		binary.LittleEndian.PutUint64(b[16:], gen)
	}
	o.Data = b
	return o
}

// pubSession: one registry, many starts
func (g *Gen) pubSession(orders [][]int, seed int64, kills int) bool {
	defer g.w.end()
	if !g.pubRegistry() {
		return false
	}
	w := g.w
	c := w.cli[1]
	if kills > 0 {
		if !g.pubKills(seed, kills) {
			return false
		}
	}
	if !w.do(Op{Op: "start", C: 1, Pub: freely()}) || !c.active {
		return !w.broken
	}
	cl := classOf(c.im)
	offs := []int{}
	for o := range w.offs {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	g.rnd.Shuffle(len(offs), func(i, j int) { offs[i], offs[j] = offs[j], offs[i] })
	// one start
	once := func(p *Policy) bool {
		if g.rnd.Intn(3) > 0 { // else it is active already
			if g.rnd.Intn(3) == 0 && !w.do(Op{Op: "erase", On: g.rnd.Intn(2) == 0}) {
				return false
			}
			if !w.do(Op{Op: "stop", C: 1}) {
				return false
			}
			switch g.rnd.Intn(6) {
			case 0, 1:
				if !w.do(g.leftover(c.c.Length())) {
					return false
				}
			case 2:
				if !w.do(Op{Op: "flag", C: 1, Flag: 1 + g.rnd.Intn(7)}) {
					return false
				}
			}
		}
		// another content, without a new layout
		if m := g.anyM(func(m *met) bool { return m.kind != "timer" && m.kind != "hist" && len(m.regs) > 0 }); m >= 0 {
			o := Op{Op: "upd", M: m}
			g.updOp(&o, w.met[m])
			if !w.do(o) {
				return false
			}
		}
		return w.do(Op{Op: "start", C: 1, Pub: p})
	}
	if len(offs) > 60 {
		offs = offs[:60]
	}
	for _, o := range offs {
		if !once(starve(o)) {
			return false
		}
	}
	for k := 0; k < nClasses; k++ {
		if !once(starveClass(k, cl)) {
			return false
		}
	}
	for i := 0; i < 4; i++ {
		if !once(anyhow(g.rnd)) || !once(freely()) {
			return false
		}
	}
	for _, o := range orders {
		if !once(inOrder(o, cl)) {
			return false
		}
	}
	return true
}

// pubKills: the process that starts ends at some store; the next one starts
func (g *Gen) pubKills(seed int64, n int) bool {
	w := g.w
	for i := 0; i < n; i++ {
		if g.rnd.Intn(3) == 0 && !w.do(g.leftover(w.cli[1].c.Length())) {
			return false
		}
		k := 1 + g.rnd.Intn(120)
		if i == 0 {
			k = 1 << 20
		} else if i%3 == 0 {
			k = 1 + g.rnd.Intn(12)
		}
		if !w.do(Op{Op: "crash", C: 1, N: int64(k), Val: seed}) {
			return false
		}
		if i%2 == 1 {
			if !w.do(Op{Op: "start", C: 1, Pub: freely()}) || !w.do(Op{Op: "stop", C: 1}) {
				return false
			}
		}
	}
	return true
}

// plant and crash are events at the location of an inactive client
func (w *World) plant(o Op, e J) {
	c := w.cli[o.C]
	die(os.MkdirAll(w.tmp+"/mmv", 0755))
	_ = os.Remove(c.loc)
	die(os.WriteFile(c.loc, o.Data, 0644))
	e["c"], e["r"], e["ex"] = o.C, "ok", true
	c.last = nil
}

func (w *World) crash(o Op, e J) {
	c := w.cli[o.C]
	old, _ := os.ReadFile(c.loc)
	exe, err := os.Executable()
	die(err)
	var out bytes.Buffer
	cmd := exec.Command(exe, "pub-child", "-seed", strconv.FormatInt(o.Val, 10), "-kill", strconv.FormatInt(o.N, 10))
	cmd.Stdout, cmd.Stderr = &out, &out
	die(cmd.Start())
	pid := cmd.Process.Pid
	t := time.AfterFunc(30*time.Second, func() { _ = cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if !ok || !ws.Signaled() || ws.Signal() != syscall.SIGKILL {
		fmt.Fprintf(os.Stderr, "%s\n", out.Bytes())
		if strings.Contains(out.String(), "HARNESS:") || !strings.Contains(out.String(), "performancecopilot/speed") {
			die(fmt.Errorf("child: %v", err))
		}
		os.Exit(2)
	}
	e["c"], e["r"], e["k"] = o.C, "ok", o.N
	b, err := os.ReadFile(c.loc)
	e["ex"] = err == nil
	e["pubs"] = []J{}
	if err == nil && !(old != nil && bytes.Equal(old, b)) && complete(b) {
		decodePid = pid
		e["pubs"] = []J{decode(b, c.c.Length(), w.tr.syms).json}
		decodePid = os.Getpid()
	}
	c.last = nil
}

// pubChild repeats a registry and starts
func pubChild(tmp string) {
	w := newWorld(newTrace(), tmp)
	g := &Gen{w: w, rnd: rand.New(rand.NewSource(*fSeed)), p: pubProf}
	if g.pubRegistry() {
		pol := anyhow(rand.New(rand.NewSource(int64(*fKill))))
		pol.quiet = 20 * time.Microsecond
		x := watch(w.cli[1].loc, pol)
		x.kill = *fKill
		_ = w.cli[1].c.Start()
	}
	_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
	select {}
}

// readOrders: lines with names of classes
func readOrders(path string) [][]int {
	f, err := os.Open(path)
	die(err)
	defer f.Close()
	r := [][]int{}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		o := []int{}
		for _, n := range strings.Fields(sc.Text()) {
			for k, c := range classNames {
				if c == n {
					o = append(o, k)
				}
			}
		}
		r = append(r, o)
	}
	return r
}

func publishRun(tmp string) {
	tr := newTrace()
	w := newWorld(tr, tmp)
	rnd := rand.New(rand.NewSource(*fSeed))
	orders := [][]int{}
	if *fIn != "" {
		orders = readOrders(*fIn)
	}
	k := 0
	for ; k < *fN; k++ {
		seed := rnd.Int63()
		g := &Gen{w: w, rnd: rand.New(rand.NewSource(seed)), p: pubProf}
		mine := [][]int{}
		for i := k; i < len(orders); i += *fN {
			mine = append(mine, orders[i])
		}
		if !g.pubSession(mine, seed, 8) {
			break
		}
	}
	tr.head["looks"], tr.head["partial"], tr.head["stores"] = w.nlook, w.npart, w.nstore
	tr.write(*fOut)
	fmt.Printf("sessions %d events %d starts %d looks %d incomplete %d stores %d\n", k, len(tr.ev), w.nstart, w.nlook, w.npart, w.nstore)
}

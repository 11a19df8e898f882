package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/performancecopilot/speed/v4/mmvdump"
)

// files of MMV format 1 and 2, made by an own encoder, by the library, or by
// damage to these, and what the dump package makes of them

type rstr struct{ s string }

type rinst struct {
	d         int
	pad       uint32
	internal  uint32
	name      string
	noff, off uint64
}

type rindom struct {
	serial      uint32
	insts       []int // consecutive
	short, long int   // strings, -1 for none
	off         uint64
}

type rmetric struct {
	name                             string
	item, typ, sem, unit, indom, pad uint32
	short, long, nameStr             int
	off                              uint64
	dom                              int
}

type rvalue struct {
	val   uint64
	extra uint64
	m, i  int
	str   int
	off   uint64
}

func rname(r *rand.Rand, max int) string {
	l := r.Intn(12)
	switch r.Intn(8) {
	case 0:
		l = max
	case 1:
		l = max - 1
	case 2:
		l = r.Intn(max + 1)
	}
	cs := []string{"a", "b", "c", "x", ".", "_", "-", " ", "[", "]", "=", "\"", "(", ")", "/", "ü", "名", "0", "1", "9", "%", "\t", "\\", ","}
	s := ""
	for len(s) < l {
		s += cs[r.Intn(len(cs))]
	}
	for len(s) > max {
		_, n := lastRune(s)
		s = s[:len(s)-n]
	}
	return s
}

func lastRune(s string) (string, int) {
	n := 1
	for n < len(s) && s[len(s)-n]&0xC0 == 0x80 {
		n++
	}
	return s[len(s)-n:], n
}

func rword(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		xs := []uint64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, math.Float64bits(1.5), math.Float64bits(math.Inf(1)), math.Float64bits(math.NaN()),
			uint64(math.Float32bits(-2.25)), uint64(math.Float32bits(float32(math.Inf(-1)))), 0x7FC00000, 0x80000000, math.Float64bits(math.Copysign(0, -1)), math.Float64bits(1e21), math.Float64bits(5e-324), 1, math.Float64bits(0.1), uint64(math.Float32bits(0.1)), uint64(math.Float32bits(1e21))}
		return xs[r.Intn(len(xs))]
	case 1:
		return uint64(r.Intn(1000))
	case 2:
		return math.Float64bits(r.NormFloat64() * 1000)
	case 3:
		return uint64(r.Uint32())
	}
	return r.Uint64()
}

func r32(r *rand.Rand) uint32 {
	switch r.Intn(4) {
	case 0:
		return []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 2, 725}[r.Intn(7)]
	case 1:
		return uint32(r.Intn(5000))
	}
	return r.Uint32()
}

// encodeRandom makes a well-formed file; in a big one a section has many items
func encodeRandom(r *rand.Rand, big bool) []byte {
	ver := 1 + r.Intn(2)
	many := -1
	if big {
		many = r.Intn(4)
	}
	some := func(which, n int) int {
		if which == many {
			return []int{17, 31, 33, 63, 64, 65, 66, 67, 71, 97, 100, 127, 128, 129, 130, 131, 150, 200}[r.Intn(18)]
		}
		return r.Intn(n)
	}
	ilen, mlen := 80, 104
	if ver == 2 {
		ilen, mlen = 24, 48
	}
	strs := []string{}
	str := func(max int) int {
		if len(strs) > 0 && r.Intn(6) == 0 {
			return r.Intn(len(strs)) // shared
		}
		strs = append(strs, rname(r, max))
		return len(strs) - 1
	}
	if n := some(3, 1); n > 0 {
		for ; n > 0; n-- {
			str(40)
		}
	}
	opt := func() int {
		if r.Intn(2) == 0 {
			return -1
		}
		return str(256)
	}
	indoms, insts, metrics, values := []rindom{}, []rinst{}, []rmetric{}, []rvalue{}
	inames := []int{}
	mnames := []int{}
	serials := map[uint32]bool{0: true, 1<<32 - 1: true}
	for n := some(0, 4); n > 0; n-- {
		d := rindom{short: opt(), long: opt()}
		for serials[d.serial] {
			d.serial = r32(r)
		}
		serials[d.serial] = true
		in := r.Intn(4)
		if len(indoms) == 0 {
			in = some(1, 4)
		}
		for k := in; k > 0; k-- {
			x := rinst{d: len(indoms), internal: r32(r), name: rname(r, 63)}
			if r.Intn(6) == 0 {
				x.pad = r32(r)
			}
			nm := -1
			if ver == 2 {
				nm = str(256)
			}
			inames = append(inames, nm)
			d.insts = append(d.insts, len(insts))
			insts = append(insts, x)
		}
		indoms = append(indoms, d)
	}
	for n := some(2, 5); n > 0; n-- {
		m := rmetric{name: rname(r, 63), item: r32(r), typ: uint32(r.Intn(7)), sem: []uint32{0, 1, 3, 4}[r.Intn(4)], short: opt(), long: opt(), indom: 1<<32 - 1, dom: -1}
		if r.Intn(6) == 0 {
			m.pad = r32(r)
		}
		m.unit = uint32(r.Intn(16))<<28 | uint32(r.Intn(16))<<24 | uint32(r.Intn(16))<<20 | uint32(r.Intn(7))<<16 | uint32(r.Intn(6))<<12
		if r.Intn(3) == 0 {
			m.unit = []uint32{0, 1 << 28, 1 << 24, 1 << 20, 1<<28 | 0xF<<24}[r.Intn(5)]
		}
		nm := -1
		if ver == 2 {
			nm = str(256)
		}
		mnames = append(mnames, nm)
		if len(indoms) > 0 && r.Intn(2) == 0 {
			m.dom = r.Intn(len(indoms))
			m.indom = indoms[m.dom].serial
		}
		k := len(metrics)
		metrics = append(metrics, m)
		add := func(i int) {
			v := rvalue{val: rword(r), m: k, i: i, str: -1}
			if r.Intn(5) == 0 {
				v.extra = rword(r)
			}
			if m.typ == 6 {
				v.str = str(256)
			}
			values = append(values, v)
		}
		if m.dom < 0 {
			if r.Intn(8) > 0 {
				add(-1)
			}
		} else {
			for _, i := range indoms[m.dom].insts {
				if r.Intn(8) > 0 {
					add(i)
				}
			}
		}
	}
	r.Shuffle(len(values), func(i, j int) { values[i], values[j] = values[j], values[i] })
	if r.Intn(4) == 0 {
		str(256) // not referenced
	}
	counts := [6]int{0, len(indoms), len(insts), len(metrics), len(values), len(strs)}
	lens := [6]int{0, 32, ilen, mlen, 32, 256}
	tocs := []int{}
	for t := 1; t <= 5; t++ {
		if counts[t] > 0 || r.Intn(4) == 0 {
			tocs = append(tocs, t)
		}
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(tocs), func(i, j int) { tocs[i], tocs[j] = tocs[j], tocs[i] })
	}
	order := append([]int{}, tocs...)
	if r.Intn(2) == 0 {
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	at := [6]int{}
	p := 40 + 16*len(tocs)
	gaps := r.Intn(3) == 0
	for _, t := range order {
		if gaps {
			p += 8 * r.Intn(5)
		}
		at[t] = p
		p += counts[t] * lens[t]
	}
	if gaps {
		p += r.Intn(20)
	}
	b := make([]byte, p)
	if gaps {
		_, _ = r.Read(b[40+16*len(tocs):])
	}
	p4 := func(o int, v uint32) { le.PutUint32(b[o:], v) }
	p8 := func(o int, v uint64) { le.PutUint64(b[o:], v) }
	text := func(o, n int, s string) {
		for i := o; i < o+n; i++ {
			b[i] = 0
		}
		copy(b[o:o+n], s)
	}
	sref := func(i int) uint64 {
		if i < 0 {
			return 0
		}
		return uint64(at[5] + 256*i)
	}
	copy(b, "MMV\x00")
	p4(4, uint32(ver))
	g := rword(r)
	p8(8, g)
	p8(16, g)
	p4(24, uint32(len(tocs)))
	p4(28, r32(r))
	p4(32, r32(r))
	p4(36, r32(r))
	for i, t := range tocs {
		o := 40 + 16*i
		p4(o, uint32(t))
		p4(o+4, uint32(counts[t]))
		p8(o+8, uint64(at[t]))
		if counts[t] == 0 && r.Intn(3) == 0 {
			p8(o+8, uint64(len(b)))
		}
	}
	for i, d := range indoms {
		o := at[1] + 32*i
		p4(o, d.serial)
		p4(o+4, uint32(len(d.insts)))
		io := uint64(0)
		if len(d.insts) > 0 {
			io = uint64(at[2] + ilen*d.insts[0])
		}
		p8(o+8, io)
		p8(o+16, sref(d.short))
		p8(o+24, sref(d.long))
	}
	for i, x := range insts {
		o := at[2] + ilen*i
		p8(o, uint64(at[1]+32*x.d))
		p4(o+8, x.pad)
		p4(o+12, x.internal)
		if ver == 1 {
			text(o+16, 64, x.name)
		} else {
			p8(o+16, sref(inames[i]))
		}
	}
	for i, m := range metrics {
		o := at[3] + mlen*i
		if ver == 1 {
			text(o, 64, m.name)
			o += 64
		} else {
			p8(o, sref(mnames[i]))
			o += 8
		}
		for k, v := range []uint32{m.item, m.typ, m.sem, m.unit, m.indom, m.pad} {
			p4(o+4*k, v)
		}
		p8(o+24, sref(m.short))
		p8(o+32, sref(m.long))
	}
	for i, v := range values {
		o := at[4] + 32*i
		p8(o, v.val)
		p8(o+8, v.extra)
		if v.str >= 0 {
			p8(o+8, sref(v.str))
		}
		p8(o+16, uint64(at[3]+mlen*v.m))
		io := uint64(0)
		if v.i >= 0 {
			io = uint64(at[2] + ilen*v.i)
		}
		p8(o+24, io)
	}
	for i, s := range strs {
		text(at[5]+256*i, 256, s)
	}
	return b
}

// damage changes a file somewhere it matters
func damage(r *rand.Rand, in []byte) []byte {
	b := append([]byte{}, in...)
	if len(b) < 48 {
		return b[:r.Intn(len(b)+1)]
	}
	n := uint64(len(b))
	nt := int(int32(le.Uint32(b[24:])))
	odd := func() uint64 {
		xs := []uint64{0, 1, n, n - 1, n + 1, n - 8, n - 24, n - 32, n - 48, n - 80, n - 104, n - 256, 40, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 40, 1<<64 - 1, 1<<64 - 256, 1<<64 - 32, 1<<64 - 40, 2, 3, 5, 6, -n, 0x0800000000000000, 0x0100000000000001, 0x2000000000000000}
		if r.Intn(4) == 0 && nt > 0 && nt < 9 {
			o := 40 + 16*r.Intn(nt)
			if o+16 <= len(b) {
				return le.Uint64(b[o+8:]) + uint64(8*(r.Intn(40)-8))
			}
		}
		return xs[r.Intn(len(xs))]
	}
	put4 := func(o int, v uint32) {
		if o >= 0 && o+4 <= len(b) {
			le.PutUint32(b[o:], v)
		}
	}
	put8 := func(o int, v uint64) {
		if o >= 0 && o+8 <= len(b) {
			le.PutUint64(b[o:], v)
		}
	}
	// the fields of the items of the sections
	field := func() bool {
		if nt <= 0 || nt > 8 || 40+16*nt > len(b) {
			return false
		}
		o := 40 + 16*r.Intn(nt)
		t, c, at := le.Uint32(b[o:]), le.Uint32(b[o+4:]), le.Uint64(b[o+8:])
		ver := le.Uint32(b[4:])
		lens := map[uint32]uint64{1: 32, 2: 80, 3: 104, 4: 32}
		if ver == 2 {
			lens[2], lens[3] = 24, 48
		}
		l, ok := lens[t]
		if m := uint64(len(b)); !ok || c == 0 || c > 1<<16 || at > m || at+uint64(c)*l > m {
			return false
		}
		p := int(at) + int(l)*r.Intn(int(c))
		ref := func(o int) {
			// a reference to where something else is, or next to it, or nowhere
			x := odd()
			if r.Intn(2) == 0 {
				q := 40 + 16*r.Intn(nt)
				if q+16 <= len(b) {
					x = le.Uint64(b[q+8:]) + uint64(8*r.Intn(40)) - uint64([]int{0, 0, 0, 1, 8}[r.Intn(5)])
				}
			}
			put8(o, x)
		}
		num := func(o int, xs ...uint32) {
			x := r.Uint32()
			if len(xs) > 0 && r.Intn(3) > 0 {
				x = xs[r.Intn(len(xs))]
			}
			put4(o, x)
		}
		switch t {
		case 1:
			switch r.Intn(5) {
			case 0:
				num(p, 0, 1<<32-1)
			case 1:
				num(p+4, 0, 1, 1<<31, 1<<32-1, 1<<31-1)
			default:
				ref(p + 8 + 8*r.Intn(3))
			}
		case 2:
			switch r.Intn(4) {
			case 0:
				num(p + 8 + 4*r.Intn(2))
			case 1, 2:
				ref(p)
			default:
				if ver == 2 {
					ref(p + 16)
				} else {
					_, _ = r.Read(b[p+16 : p+80])
				}
			}
		case 3:
			q := p + 64
			if ver == 2 {
				q = p + 8
			}
			switch r.Intn(8) {
			case 0:
				num(q+4, 7, 8, 9, 1<<31, 1<<32-1, 6, 10, 127, 255, 256)
			case 1:
				num(q+8, 2, 5, 1<<31, 1<<32-1, 255)
			case 2, 3: // the unit: any scales and dimensions
				u := r.Uint32()
				if r.Intn(2) == 0 {
					u |= []uint32{1 << 28, 1 << 24, 1 << 20, 0xF << 28}[r.Intn(4)]
				}
				if r.Intn(2) == 0 {
					u = uint32(r.Intn(16))<<28 | uint32(r.Intn(16))<<24 | uint32(r.Intn(16))<<20 | uint32(r.Intn(16))<<16 | uint32(r.Intn(16))<<12 | uint32(r.Intn(16))<<8
				}
				put4(q+12, u)
			case 4:
				num(q+16, 0, 1<<32-1, 1, 1<<32-2)
			case 5:
				if ver == 2 {
					ref(p)
				} else {
					_, _ = r.Read(b[p : p+64])
				}
			default:
				ref(q + 24 + 8*r.Intn(2))
			}
		case 4:
			switch r.Intn(4) {
			case 0:
				put8(p, rword(r))
			default:
				ref(p + 8 + 8*r.Intn(3))
			}
		}
		return true
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		x := r.Intn(17)
		if x >= 11 {
			for x = 0; x < 5 && !field(); x++ {
			}
			x = 11
		}
		switch x {
		case 0:
			b = b[:r.Intn(len(b)+1)]
		case 1: // cut close to the end of a section
			if nt > 0 && nt < 9 {
				o := 40 + 16*r.Intn(nt)
				if o+16 <= len(b) {
					if e := int64(le.Uint64(b[o+8:])) + int64(r.Intn(3)-1) + int64(le.Uint32(b[o+4:]))*int64([]int{0, 24, 32, 48, 80, 104, 256}[r.Intn(7)]); e >= 0 && e <= int64(len(b)) {
						b = b[:e]
					}
				}
			}
		case 2: // header
			if r.Intn(4) == 0 { // a tag that is nearly right
				copy(b, []string{"mmv\x00", "Mmv\x00", "MMv\x00", "mMV\x00", "MMVV", "MMV\x01", "MMW\x00", "MM\x00\x00", "VMM\x00", "\x00MMV", "MVM\x00", "MMV ", "mmV\x00", "ＭMV", "\xCD\xCDV\x00", "MM\xD6\x00"}[r.Intn(16)][:4])
				break
			}
			put4(4*r.Intn(10), uint32(odd()))
		case 3:
			put4(24, []uint32{0, uint32(nt) + 1, uint32(nt) - 1, 1<<32 - 1, 1<<31 - 1, 1 << 31, 1 << 28, uint32(len(b)), uint32(r.Intn(40))}[r.Intn(9)])
		case 4: // a section: kind, count or offset
			if nt > 0 && nt < 9 {
				o := 40 + 16*r.Intn(nt)
				switch r.Intn(5) {
				case 0:
					put4(o, []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 1<<32 - 1, 1 << 31, 1 << 16, 257}[r.Intn(13)])
				case 1, 2:
					if o+8 <= len(b) {
						c := le.Uint32(b[o+4:])
						put4(o+4, []uint32{c + 1, c - 1, c + 2, 0, 1<<32 - 1, 1 << 31, 1<<31 - 1, 1 << 27, 1 << 24, 134217728, 0x08000001, uint32(len(b))}[r.Intn(12)])
					}
				default:
					put8(o+8, odd())
				}
			}
		case 5, 6, 7: // a reference or number in some item
			put8(40+8*r.Intn((len(b)-40)/8), odd())
		case 8:
			put4(40+4*r.Intn((len(b)-40)/4), uint32(odd()))
		case 9:
			for x := 1 + r.Intn(8); x > 0; x-- {
				if len(b) > 0 {
					b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
				}
			}
		case 10:
			b = append(b, make([]byte, r.Intn(60))...)
		}
		if len(b) < 48 {
			return b
		}
	}
	return b
}

// atEnd puts bytes right before memory that cannot be touched
func atEnd(b []byte) ([]byte, func()) {
	ps := os.Getpagesize()
	n := (len(b)+ps-1)/ps*ps + ps
	mem, err := syscall.Mmap(-1, 0, n+ps, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	die(err)
	die(syscall.Mprotect(mem[n:], syscall.PROT_NONE))
	// what lies before can be read, but must not count
	for i := range mem[:n] {
		mem[i] = 0xA5
	}
	d := mem[n-len(b) : n : n]
	copy(d, b)
	return d, func() { die(syscall.Munmap(mem)) }
}

func trimZeros(s string) []int { return ints([]byte(strings.TrimRight(s, "\x00"))) }

func pos(u uint64) int { return off(u) }

// failing is a writer with room for some bytes only
type failing struct {
	left int
	got  []byte
}

func (f *failing) Write(b []byte) (int, error) {
	k, err := len(b), error(nil)
	if k > f.left {
		k, err = f.left, fmt.Errorf("full")
	}
	f.left -= k
	f.got = append(f.got, b[:k]...)
	return k, err
}

// hiccup is a writer that fails at one call only
type hiccup struct{ at, n int }

func (f *hiccup) Write(b []byte) (int, error) {
	f.n++
	if f.n-1 == f.at {
		return 0, fmt.Errorf("not now")
	}
	return len(b), nil
}

// readCase gives a file to the dump package
func readCase(tmp string, b []byte, guard bool, cli string) J {
	cur := filepath.Join(tmp, "current.bin")
	die(os.WriteFile(cur, b, 0644))
	e := J{"b": ints(b), "w": "none", "cli": "none", "src": ""}
	data, free := append([]byte{}, b...), func() {}
	if guard {
		data, free = atEnd(b)
	}
	var (
		h       *mmvdump.Header
		tocs    []*mmvdump.Toc
		metrics map[uint64]mmvdump.Metric
		values  map[uint64]*mmvdump.Value
		insts   map[uint64]mmvdump.Instance
		indoms  map[uint64]*mmvdump.InstanceDomain
		strs    map[uint64]*mmvdump.String
	)
	e["r"] = guarded(func() (err error) {
		h, tocs, metrics, values, insts, indoms, strs, err = mmvdump.Dump(data)
		return
	})
	var out bytes.Buffer
	if e["r"] == "ok" {
		e["head"] = J{"ver": limbs2(uint32(h.Version)), "g": limbs(h.G1), "g2": limbs(h.G2), "ntoc": limbs2(uint32(h.Toc)), "flag": limbs2(uint32(h.Flag)),
			"pid": limbs2(uint32(h.Process)), "cluster": limbs2(uint32(h.Cluster))}
		ts := []J{}
		for _, t := range tocs {
			ts = append(ts, J{"t": limbs2(uint32(t.Type)), "c": limbs2(uint32(t.Count)), "o": limbs(t.Offset)})
		}
		e["tocs"] = ts
		keys := func(n int, each func(func(uint64))) []uint64 {
			r := make([]uint64, 0, n)
			each(func(k uint64) { r = append(r, k) })
			sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
			return r
		}
		ji, jn, jm, jv, js, jt := []J{}, []J{}, []J{}, []J{}, []J{}, []J{}
		for _, k := range keys(len(indoms), func(f func(uint64)) {
			for k := range indoms {
				f(k)
			}
		}) {
			d := indoms[k]
			ji = append(ji, J{"o": pos(k), "serial": limbs2(d.Serial), "count": limbs2(d.Count), "off": limbs(d.Offset), "short": limbs(d.Shorttext), "long": limbs(d.Longtext)})
		}
		for _, k := range keys(len(insts), func(f func(uint64)) {
			for k := range insts {
				f(k)
			}
		}) {
			x := insts[k]
			j := J{"o": pos(k), "indom": limbs(x.Indom()), "pad": limbs2(x.Padding()), "internal": limbs2(uint32(x.Internal())), "name": []int{}, "noff": limbs(0)}
			switch y := x.(type) {
			case *mmvdump.Instance1:
				j["name"] = trimZeros(string(y.External[:]))
			case *mmvdump.Instance2:
				j["noff"] = limbs(y.External)
			}
			jn = append(jn, j)
		}
		for _, k := range keys(len(metrics), func(f func(uint64)) {
			for k := range metrics {
				f(k)
			}
		}) {
			x := metrics[k]
			j := J{"o": pos(k), "item": limbs2(x.Item()), "typ": limbs2(uint32(x.Typ())), "sem": limbs2(uint32(x.Sem())), "unit": limbs2(uint32(x.Unit())),
				"indom": limbs2(uint32(x.Indom())), "pad": limbs2(x.Padding()), "short": limbs(x.ShortText()), "long": limbs(x.LongText()), "name": []int{}, "noff": limbs(0)}
			switch y := x.(type) {
			case *mmvdump.Metric1:
				j["name"] = trimZeros(string(y.Name[:]))
			case *mmvdump.Metric2:
				j["noff"] = limbs(y.Name)
			}
			jm = append(jm, j)
		}
		for _, k := range keys(len(values), func(f func(uint64)) {
			for k := range values {
				f(k)
			}
		}) {
			v := values[k]
			jv = append(jv, J{"o": pos(k), "val": limbs(v.Val), "extra": limbs(uint64(v.Extra)), "metric": limbs(v.Metric), "inst": limbs(v.Instance)})
			if m, ok := metrics[v.Metric]; ok {
				j := J{"o": pos(k), "k": "err", "w": limbs(0)}
				r := guarded(func() error {
					x, err := mmvdump.FixedVal(v.Val, m.Typ())
					if err == nil {
						j["k"], j["w"] = typedJ(x)
					}
					return err
				})
				if r != "ok" {
					j["k"] = r
				}
				jt = append(jt, j)
			}
		}
		for _, k := range keys(len(strs), func(f func(uint64)) {
			for k := range strs {
				f(k)
			}
		}) {
			js = append(js, J{"o": pos(k), "s": trimZeros(string(strs[k].Payload[:]))})
		}
		e["indoms"], e["insts"], e["metrics"], e["values"], e["strings"], e["typed"] = ji, jn, jm, jv, js, jt
		e["w"] = guarded(func() error { return mmvdump.Write(&out, h, tocs, metrics, values, insts, indoms, strs) })
		// a panic of a String method does not get out of package fmt
		parts := guarded(func() error {
			for _, t := range tocs {
				_ = t.Type.String()
			}
			for _, m := range metrics {
				_, _, _ = m.Unit().String(), m.Typ().String(), m.Sem().String()
			}
			return nil
		})
		if parts != "ok" || bytes.Contains(out.Bytes(), []byte("(PANIC=")) {
			e["w"] = "panic"
		}
		if e["w"] == "ok" {
			if p := parsePrinted(strings.Replace(out.String(), "\x00", "", -1)); p != nil {
				e["print"] = p
			} else {
				e["print"] = J{"head": J{}, "secs": []J{}}
			}
		}
	}
	// a writer that fails once it has taken some bytes
	e["cut"] = "none"
	if n := out.Len(); e["w"] == "ok" && n > 0 {
		for _, k := range []int{0, n / 3, n - 1} {
			f := &failing{left: k}
			r := guarded(func() error { return mmvdump.Write(f, h, tocs, metrics, values, insts, indoms, strs) })
			if r == "err" && !bytes.HasPrefix(out.Bytes(), f.got) {
				r = "other"
			}
			if e["cut"] == "none" || r != "err" {
				e["cut"] = r
			}
		}
	}
	if e["cut"] == "err" {
		all := &hiccup{at: -1}
		_ = mmvdump.Write(all, h, tocs, metrics, values, insts, indoms, strs)
		for step, k := 1+all.n/40, 0; k < all.n; k += step {
			f := &hiccup{at: k}
			if r := guarded(func() error { return mmvdump.Write(f, h, tocs, metrics, values, insts, indoms, strs) }); r != "err" {
				e["cut"] = r
			}
		}
	}
	e["kept"] = bytes.Equal(data, b)
	if cli != "" {
		e["cli"] = runCLI(cli, cur, e, out.Bytes())
	}
	free()
	return e
}

func runCLI(cli, file string, e J, want []byte) string {
	var o, x bytes.Buffer
	c := exec.Command(cli, file)
	c.Stdout, c.Stderr = &o, &x
	err := c.Run()
	if err != nil {
		return "err"
	}
	l := fmt.Sprintf("File      = %v\n", file)
	if strings.HasPrefix(o.String(), l) && bytes.Equal(o.Bytes()[len(l):], want) {
		return "same"
	}
	return "different"
}

func typedJ(x interface{}) (string, []int) {
	switch v := x.(type) {
	case int32:
		return "int32", limbs(uint64(int64(v)))
	case uint32:
		return "uint32", limbs(uint64(v))
	case int64:
		return "int64", limbs(uint64(v))
	case uint64:
		return "uint64", limbs(v)
	case float32:
		if v != v {
			return "float32", limbs(0x7FFFFFFFFFFFFFFF)
		}
		return "float32", limbs(uint64(math.Float32bits(v)))
	case float64:
		if v != v {
			return "float64", limbs(0x7FFFFFFFFFFFFFFF)
		}
		return "float64", limbs(math.Float64bits(v))
	}
	return fmt.Sprintf("%T", x), limbs(0)
}

// numbers gives what a printed number can be
func numbers(s string) []J {
	r := []J{}
	add := func(x interface{}, err error) {
		if err == nil {
			k, w := typedJ(x)
			r = append(r, J{"k": k, "w": w})
		}
	}
	i, err := strconv.ParseInt(s, 10, 64)
	add(i, err)
	if err == nil && i >= math.MinInt32 && i <= math.MaxInt32 {
		add(int32(i), nil)
	}
	u, err := strconv.ParseUint(s, 10, 64)
	add(u, err)
	if err == nil && u <= math.MaxUint32 {
		add(uint32(u), nil)
	}
	f, err := strconv.ParseFloat(s, 64)
	add(f, err)
	f, err = strconv.ParseFloat(s, 32)
	add(float32(f), err)
	return r
}

var (
	headRx  = regexp.MustCompile(`^Version +=\s*(-?\d+)\nGenerated +=\s*(\d+)\nToc Count +=\s*(-?\d+)\nCluster +=\s*(-?\d+)\nProcess +=\s*(-?\d+)\nFlags +=\s*(0x-?[0-9a-f]+)\n\n`)
	tocRx   = regexp.MustCompile(`^TOC\[(\d+)\], offset: (\d+), (\w+) offset: (\d+) \((-?\d+) entries\)$`)
	itemRx  = regexp.MustCompile(`(?s)^\t\[(\d+)/(\d+)\] (.*)$`)
	instRx  = regexp.MustCompile(`(?s)^instance = \[(-?\d+)/(.*)\]$`)
	indomRx = regexp.MustCompile(`^(\d+) instances, starting at offset (\d+)$`)
	strRx   = regexp.MustCompile(`(?s)^\t\[(\d+)\] (.*)$`)
	typeRx  = regexp.MustCompile(`^\t\ttype=(\S+) \((0x-?[0-9a-f]+)\), sem=(\S+) \((0x-?[0-9a-f]+)\), pad=0x([0-9a-f]+)$`)
	idRx    = regexp.MustCompile(`\[(-?\d+) or "`)
)

var typeNames = map[string]int{"Int32Type": 0, "Uint32Type": 1, "Int64Type": 2, "Uint64Type": 3, "FloatType": 4, "DoubleType": 5, "StringType": 6}
var semNames = map[string]int{"NoSemantics": 0, "CounterSemantics": 1, "InstantSemantics": 3, "DiscreteSemantics": 4}

func hex32(s string) []int {
	s = strings.TrimPrefix(s, "0x")
	neg := strings.HasPrefix(s, "-")
	v, err := strconv.ParseUint(strings.TrimPrefix(s, "-"), 16, 64)
	if err != nil || v > 1<<32 {
		return []int{-1, -1}
	}
	x := int64(v)
	if neg {
		x = -x
	}
	return limbs2(uint32(x))
}

func dec32(s string) []int {
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil || v < math.MinInt32 || v > math.MaxUint32 {
		return []int{-1, -1}
	}
	return limbs2(uint32(v))
}

func dec64(s string) []int {
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return []int{-1, -1, -1, -1}
	}
	return limbs(v)
}

func decOff(s string) int {
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return -1
	}
	return off(v)
}

func nameNo(m map[string]int, s string, other string) int {
	if n, ok := m[s]; ok {
		return n
	}
	if strings.HasPrefix(s, other+"(") {
		return -1
	}
	return -2
}

// parsePrinted cuts the printed form into its items; nil when it is not one
func parsePrinted(s string) J {
	m := headRx.FindStringSubmatch(s)
	if m == nil {
		return nil
	}
	p := J{"head": J{"ver": dec32(m[1]), "g": dec64(m[2]), "ntoc": dec32(m[3]), "cluster": dec32(m[4]), "pid": dec32(m[5]), "flag": hex32(m[6])}}
	ls := strings.Split(s[len(m[0]):], "\n")
	secs := []J{}
	i := 0
	next := func() (string, bool) {
		if i < len(ls) {
			i++
			return ls[i-1], true
		}
		return "", false
	}
	txt := func(what string) J {
		l, _ := next()
		if l == "\t\t(no "+what+")" {
			return J{"has": false, "s": []int{}}
		}
		if q := "\t\t" + what + "="; strings.HasPrefix(l, q) {
			return J{"has": true, "s": ints([]byte(l[len(q):]))}
		}
		return J{"has": true, "s": []int{-1}}
	}
	kinds := map[string]int{"indoms": 1, "instances": 2, "metric": 3, "values": 4, "strings": 5}
	for i < len(ls) {
		l, _ := next()
		if l == "" && i == len(ls) {
			break
		}
		m := tocRx.FindStringSubmatch(l)
		if m == nil {
			return nil
		}
		n, _ := strconv.Atoi(m[1])
		sec := J{"i": n, "at": decOff(m[2]), "kind": kinds[m[3]], "off": dec64(m[4]), "c": dec32(m[5])}
		items := []J{}
		for {
			l, ok := next()
			if !ok {
				return nil
			}
			if l == "" {
				break
			}
			if kinds[m[3]] == 5 {
				q := strRx.FindStringSubmatch(l)
				if q == nil {
					return nil
				}
				items = append(items, J{"k": "string", "o": decOff(q[1]), "s": ints([]byte(q[2]))})
				continue
			}
			q := itemRx.FindStringSubmatch(l)
			if q == nil {
				return nil
			}
			it := J{"o": decOff(q[2])}
			switch kinds[m[3]] {
			case 1:
				x := indomRx.FindStringSubmatch(q[3])
				if x == nil {
					return nil
				}
				it["k"], it["serial"], it["count"], it["off"] = "indom", dec32(q[1]), dec32(x[1]), dec64(x[2])
				it["short"] = txt("shorttext")
				it["long"] = txt("longtext")
			case 2:
				x := instRx.FindStringSubmatch(q[3])
				if x == nil {
					return nil
				}
				it["k"], it["serial"], it["internal"], it["name"] = "inst", dec32(q[1]), dec32(x[1]), ints([]byte(x[2]))
			case 3:
				it["k"], it["item"], it["name"] = "metric", dec32(q[1]), ints([]byte(q[3]))
				l, _ := next()
				x := typeRx.FindStringSubmatch(l)
				if x == nil {
					return nil
				}
				it["typ"], it["tname"], it["sem"], it["sname"], it["pad"] = hex32(x[2]), nameNo(typeNames, x[1], "Type"), hex32(x[4]), nameNo(semNames, x[3], "Semantics"), hex32(x[5])
				l, _ = next()
				if !strings.HasPrefix(l, "\t\tunits=") {
					return nil
				}
				it["unit"] = unitText(l[len("\t\tunits="):], dumpTok, dumpNames)
				l, _ = next()
				if l == "\t\t(no indom)" {
					it["ind"] = J{"has": false, "v": limbs2(0)}
				} else if strings.HasPrefix(l, "\t\tindom=") {
					it["ind"] = J{"has": true, "v": dec32(l[len("\t\tindom="):])}
				} else {
					return nil
				}
				it["short"] = txt("shorttext")
				it["long"] = txt("longtext")
			case 4:
				it["k"], it["item"], it["rest"] = "value", dec32(q[1]), ints([]byte(q[3]))
				last := q[3]
				if k := strings.LastIndex(last, " = "); k >= 0 {
					last = last[k+3:]
				}
				it["last"], it["num"] = ints([]byte(last)), numbers(last)
				// the number of the instance: the last one that looks so
				it["idec"], it["iid"] = []int{}, []int{-1, -1}
				if x := idRx.FindAllStringSubmatch(q[3], -1); x != nil {
					it["ids"] = len(x)
					d := x[len(x)-1][1]
					it["idec"], it["iid"] = ints([]byte(d)), dec32(d)
				}
			default:
				return nil
			}
			items = append(items, it)
		}
		sec["items"] = items
		secs = append(secs, sec)
	}
	p["secs"] = secs
	return p
}

func readerRun(tmp string) {
	tr := newTrace()
	r := rand.New(rand.NewSource(*fSeed))
	cli := os.Getenv("VERIF_CLI")
	n := *fN
	files := [][]byte{}
	// files of the library
	lw := newWorld(newTrace(), tmp)
	for i := 0; i < n/25+2; i++ {
		g := &Gen{w: lw, rnd: rand.New(rand.NewSource(r.Int63())), p: profiles["content"]}
		g.keep = func(b []byte) {
			if len(b) > 0 && len(b) < 5000 && !bytes.ContainsAny(b, "\n") {
				files = append(files, b)
			}
		}
		if !g.session() {
			break
		}
	}
	if len(files) > n/8 {
		r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
		files = files[:n/8]
	}
	for len(files) < n {
		files = append(files, encodeRandom(r, len(files)%16 == 7))
	}
	put := func(e J) { tr.emit(e) }
	for i, f := range files[:n/2] {
		c := ""
		if i%10 == 0 {
			c = cli
		}
		put(readCase(tmp, f, i%2 == 0, c))
	}
	// several at the same time
	for fs := files[n/2:]; len(fs) > 0; {
		k := 1 + r.Intn(6)
		if k > len(fs) {
			k = len(fs)
		}
		es, wg, ready := make([]J, k), sync.WaitGroup{}, make(chan bool)
		wg.Add(k)
		for i := range es {
			dir := filepath.Join(tmp, fmt.Sprint("at", i))
			die(os.MkdirAll(dir, 0755))
			b := fs[i]
			if i > 1 && r.Intn(3) == 0 {
				b = damage(r, b)
			}
			go func(i int) {
				<-ready
				es[i] = readCase(dir, b, i%2 == 0, "")
				wg.Done()
			}(i)
		}
		close(ready)
		wg.Wait()
		for _, e := range es {
			put(e)
		}
		fs = fs[k:]
	}
	// every truncation of a few
	for k := 0; k < 1+n/300; k++ {
		f := files[r.Intn(len(files))]
		for try := 0; len(f) > 1200 && try < 50; try++ {
			f = files[r.Intn(len(files))]
		}
		for l := 0; l <= len(f) && l < 1200; l++ {
			if l < 48 || r.Intn(6) == 0 || l%8 < 1 {
				put(readCase(tmp, f[:l], true, ""))
			}
		}
	}
	for i := 0; i < 3*n; i++ {
		c := ""
		if i%60 == 0 {
			c = cli
		}
		f := files[r.Intn(len(files))]
		for try := 0; len(f) > 4000 && r.Intn(4) > 0 && try < 9; try++ {
			f = files[r.Intn(len(files))]
		}
		put(readCase(tmp, damage(r, f), i%4 > 0, c))
	}
	for i := 0; i < n/4; i++ {
		b := make([]byte, r.Intn(200))
		_, _ = r.Read(b)
		if len(b) > 40 && r.Intn(4) > 0 {
			copy(b, "MMV\x00\x01\x00\x00\x00")
			copy(b[16:24], b[8:16])
			if r.Intn(2) == 0 {
				le.PutUint32(b[24:], uint32(r.Intn(4)))
			}
		}
		put(readCase(tmp, b, true, ""))
	}
	tr.write(*fOut)
	fmt.Printf("sessions %d events %d\n", len(tr.ev), len(tr.ev))
}

package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/performancecopilot/speed/v4/bytewriter"
)

// sessions of writes to buffers

type bwv struct {
	v interface{}
	k string
	w uint64
	b []int
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func bwVal(v interface{}) bwv {
	switch x := v.(type) {
	case int8:
		return bwv{v, "int8", uint64(int64(x)), nil}
	case uint8:
		return bwv{v, "uint8", uint64(x), nil}
	case bool:
		if x {
			return bwv{v, "bool", 1, nil}
		}
		return bwv{v, "bool", 0, nil}
	case int16:
		return bwv{v, "int16", uint64(int64(x)), nil}
	case uint16:
		return bwv{v, "uint16", uint64(x), nil}
	case int32:
		return bwv{v, "int32", uint64(int64(x)), nil}
	case uint32:
		return bwv{v, "uint32", uint64(x), nil}
	case int64:
		return bwv{v, "int64", uint64(x), nil}
	case uint64:
		return bwv{v, "uint64", x, nil}
	case float32:
		return bwv{v, "float32", uint64(math.Float32bits(x)), nil}
	case float64:
		return bwv{v, "float64", math.Float64bits(x), nil}
	case string:
		return bwv{v, "string", 0, ints([]byte(x))}
	case []byte:
		return bwv{v, "bytes", 0, ints(x)}
	}
	return bwv{v, "other", 0, nil}
}

func (x bwv) j() J {
	b := x.b
	if b == nil {
		b = []int{}
	}
	return J{"k": x.k, "w": limbs(x.w), "b": b}
}

func clip(n int) int {
	if n > 1<<30 {
		return 1 << 30
	}
	if n < -(1 << 30) {
		return -(1 << 30)
	}
	return n
}

// guarded runs f with a time limit
func guarded(f func() error) (r string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- "panic"
			}
		}()
		if err := f(); err != nil {
			done <- "err"
		} else {
			done <- "ok"
		}
	}()
	select {
	case r = <-done:
	case <-time.After(20 * time.Second):
		r = "hang"
	}
	return
}

func bwCall(w bytewriter.Writer, v interface{}, off int, must bool, generic bool) (r string, ret int) {
	r = guarded(func() (err error) {
		if !generic {
			switch x := v.(type) {
			case int32:
				if must {
					ret = w.MustWriteInt32(x, off)
				} else {
					ret, err = w.WriteInt32(x, off)
				}
				return
			case int64:
				if must {
					ret = w.MustWriteInt64(x, off)
				} else {
					ret, err = w.WriteInt64(x, off)
				}
				return
			case uint32:
				if must {
					ret = w.MustWriteUint32(x, off)
				} else {
					ret, err = w.WriteUint32(x, off)
				}
				return
			case uint64:
				if must {
					ret = w.MustWriteUint64(x, off)
				} else {
					ret, err = w.WriteUint64(x, off)
				}
				return
			case float32:
				if must {
					ret = w.MustWriteFloat32(x, off)
				} else {
					ret, err = w.WriteFloat32(x, off)
				}
				return
			case float64:
				if must {
					ret = w.MustWriteFloat64(x, off)
				} else {
					ret, err = w.WriteFloat64(x, off)
				}
				return
			case string:
				if must {
					ret = w.MustWriteString(x, off)
				} else {
					ret, err = w.WriteString(x, off)
				}
				return
			case []byte:
				if must {
					ret = w.MustWrite(x, off)
				} else {
					ret, err = w.Write(x, off)
				}
				return
			}
		}
		if must {
			ret = w.MustWriteVal(v, off)
		} else {
			ret, err = w.WriteVal(v, off)
		}
		return
	})
	return
}

func bwRandVal(rnd *rand.Rand) interface{} {
	u := rnd.Uint64()
	if rnd.Intn(3) == 0 {
		u = []uint64{0, 1, math.MaxUint64, 1 << 63, 1<<63 - 1, 1 << 31, 1<<31 - 1, 0x0102030405060708, 0xff, 0x80}[rnd.Intn(10)]
	}
	str := func() string {
		b := make([]byte, rnd.Intn(12))
		for i := range b {
			b[i] = byte(1 + rnd.Intn(255))
		}
		return string(b)
	}
	switch rnd.Intn(14) {
	case 0:
		return int32(u)
	case 1:
		return int64(u)
	case 2:
		return uint32(u)
	case 3:
		return u
	case 4:
		return math.Float32frombits(uint32(u) &^ (1 << 22))
	case 5:
		return []float64{0, 1, -1.5, math.MaxFloat64, math.Inf(1), math.SmallestNonzeroFloat64, math.Pi, math.Copysign(0, -1)}[rnd.Intn(8)]
	case 6:
		return str()
	case 7:
		return []byte(str())
	case 8:
		return int8(u)
	case 9:
		return uint8(u)
	case 10:
		return int16(u)
	case 11:
		return uint16(u)
	case 12:
		return u%2 == 0
	}
	return int64(u)
}

func bwRun(tmp string) {
	tr := newTrace()
	rnd := rand.New(rand.NewSource(*fSeed))
	type B struct {
		w      bytewriter.Writer
		m      *bytewriter.MemoryMappedWriter
		loc    string
		sid    int
		mapped bool
		// the array a buffer is a part of, live and as it was
		array, was []byte
		from, to   int
	}
	look := func(b *B, e J) {
		e["buf"], e["mapped"], e["file"], e["around"] = ints(b.w.Bytes()), b.mapped || b.array != nil, []int{}, true
		if b.array != nil {
			e["file"] = ints(b.array[b.from:b.to])
			e["around"] = bytes.Equal(b.array[:b.from], b.was[:b.from]) && bytes.Equal(b.array[b.to:], b.was[b.to:])
		}
		if b.mapped {
			d, err := os.ReadFile(b.loc)
			if err != nil {
				e["file"] = []int{-1}
			} else {
				e["file"] = ints(d)
			}
		}
	}
	sid := 0
	// make a buffer; kind 0 plain, 1 slice, 2 mapped, 3 mapped over an old file, 4 mapped in new directories
	newB := func(kind, n int) *B {
		sid++
		b := &B{sid: sid}
		e := J{"op": "new", "sid": sid, "must": true}
		init := make([]byte, n)
		switch kind {
		case 1:
			// a part of a larger array, the program's own
			b.array = make([]byte, n+rnd.Intn(24))
			b.from = rnd.Intn(len(b.array) - n + 1)
			b.to = b.from + n
			for i := range b.array {
				b.array[i] = byte(rnd.Intn(256))
			}
			b.was = append([]byte{}, b.array...)
			copy(init, b.array[b.from:])
		case 3, 4, 2:
			b.mapped = true
		}
		e["init"] = ints(init)
		b.loc = filepath.Join(tmp, fmt.Sprintf("f%d", sid))
		if kind == 4 {
			b.loc = filepath.Join(tmp, fmt.Sprintf("d%d", sid), "x y", "file")
		}
		if kind == 3 {
			old := make([]byte, rnd.Intn(3*n+10))
			for i := range old {
				old[i] = byte(rnd.Intn(256))
			}
			die(os.WriteFile(b.loc, old, os.FileMode([]int{0644, 0600, 0400}[rnd.Intn(3)])))
		}
		if kind == 5 {
			b.mapped = true
			b.loc = filepath.Join(tmp, fmt.Sprintf("f%d", sid))
			die(os.MkdirAll(filepath.Join(b.loc, "sub"), 0700))
			e["must"] = false
		}
		if kind == 6 {
			b.mapped = true
			p := filepath.Join(tmp, fmt.Sprintf("g%d", sid))
			die(os.WriteFile(p, []byte("x"), 0600))
			b.loc = filepath.Join(p, "file")
			e["must"] = false
		}
		e["r"] = guarded(func() (err error) {
			switch kind {
			case 0:
				b.w = bytewriter.NewByteWriter(n)
			case 1:
				b.w = bytewriter.NewByteWriterSlice(b.array[b.from:b.to])
			default:
				b.m, err = bytewriter.NewMemoryMappedWriter(b.loc, n)
				b.w = b.m
			}
			return
		})
		e["len"] = 0
		if e["r"] == "ok" {
			e["len"] = b.w.Len()
			look(b, e)
		} else {
			e["buf"], e["mapped"], e["file"], e["around"] = []int{}, false, []int{}, true
		}
		tr.emit(e)
		if e["r"] != "ok" {
			return nil
		}
		return b
	}
	write := func(b *B, v interface{}, off int, must, generic bool) {
		x := bwVal(v)
		e := J{"op": "w", "sid": b.sid, "v": x.j(), "off": clip(off), "m": must, "unk": x.k == "other"}
		r, ret := bwCall(b.w, v, off, must, generic)
		e["r"], e["ret"] = r, clip(ret)
		look(b, e)
		tr.emit(e)
	}
	unmap := func(b *B, remove bool) {
		e := J{"op": "unmap", "sid": b.sid, "remove": remove}
		e["r"] = guarded(func() error { return b.m.Unmap(remove) })
		d, err := os.ReadFile(b.loc)
		e["exists"], e["file"] = err == nil, ints(d)
		maps, fds := held([]string{b.loc})
		e["maps"], e["fds"] = maps[0], fds[0]
		tr.emit(e)
		_ = os.Remove(b.loc)
	}
	// every offset around small buffers, for every kind of value
	n := 0
	samples := []interface{}{int32(-2), int64(-3), uint32(0x01020304), uint64(0x0102030405060708), float32(1.5), float64(-2.25), "abc", "", []byte{9, 8}, []byte{},
		int8(-1), uint8(200), int16(-300), uint16(0x0102), true}
	for size := 0; size <= 9; size++ {
		for si, v := range samples {
			kind := (size + si) % 2
			if size > 0 && (size+si)%5 == 0 {
				kind = 2
			}
			b := newB(kind, size)
			if b == nil {
				continue
			}
			for off := -2; off <= size+2; off++ {
				write(b, v, off, (off+si)%2 == 0, (off+si+size)%3 == 0)
				n++
			}
			for _, off := range []int{math.MinInt64, math.MinInt64 + 1, -1 << 32, math.MaxInt64, math.MaxInt64 - 3, math.MaxInt64 - 7, 1 << 32, 1<<32 + 1, math.MaxInt32, -4, -8} {
				write(b, v, off, (off+si)%2 == 0, si%3 == 0)
			}
			if kind == 2 {
				unmap(b, si%2 == 0)
			}
		}
	}
	// large ones, of which the bytes that are not zero are told
	for s := 0; s < 14; s++ {
		sid++
		edges := []int{1 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 21, 1 << 22}
		n := edges[rnd.Intn(len(edges))]
		switch rnd.Intn(3) {
		case 0:
			n += rnd.Intn(600) - 300
		case 1:
			n += rnd.Intn(n)
		}
		loc := filepath.Join(tmp, fmt.Sprintf("big%d", sid))
		mapped := rnd.Intn(4) > 0
		var x bytewriter.Writer
		var mm *bytewriter.MemoryMappedWriter
		e := J{"op": "big", "sid": sid, "n": n, "len": -1, "fsize": -1, "mapped": mapped, "file": true}
		e["r"] = guarded(func() (err error) {
			if !mapped {
				x = bytewriter.NewByteWriter(n)
				return nil
			}
			mm, err = bytewriter.NewMemoryMappedWriter(loc, n)
			x = mm
			return
		})
		ws, nz := []J{}, [][]int{}
		if e["r"] == "ok" {
			for k := 0; k < 12; k++ {
				v := bwRandVal(rnd)
				off := edges[rnd.Intn(len(edges))] + rnd.Intn(20) - 12
				switch rnd.Intn(4) {
				case 0:
					off = n - rnd.Intn(20) + 3
				case 1:
					off = rnd.Intn(n)
				}
				r, ret := bwCall(x, v, off, false, k%2 == 0)
				ws = append(ws, J{"v": bwVal(v).j(), "off": off, "r": r, "ret": clip(ret)})
			}
			b := x.Bytes()
			e["len"] = x.Len()
			for i, c := range b {
				if c != 0 && len(nz) < 5000 {
					nz = append(nz, []int{i, int(c)})
				}
			}
			if mapped {
				d, err := os.ReadFile(loc)
				e["fsize"], e["file"] = len(d), err == nil && bytes.Equal(d, b)
				e["unmap"] = guarded(func() error { return mm.Unmap(true) })
			}
		}
		e["ws"], e["nz"] = ws, nz
		tr.emit(e)
	}
	// random sessions
	for s := 0; s < *fN; s++ {
		kind := rnd.Intn(7)
		if kind >= 5 && rnd.Intn(3) > 0 {
			kind = 2 + rnd.Intn(3)
		}
		size := 1 + rnd.Intn(60)
		if rnd.Intn(6) == 0 {
			size = []int{4096, 4097, 4095, 300}[rnd.Intn(4)]
		}
		b := newB(kind, size)
		if b == nil {
			continue
		}
		k := 14
		if size > 300 {
			k = 3
		}
		for i := 0; i < k; i++ {
			v := bwRandVal(rnd)
			off := rnd.Intn(size+12) - 5
			if rnd.Intn(4) == 0 {
				off = size - 8 + rnd.Intn(10)
			}
			if rnd.Intn(20) == 0 {
				v = []interface{}{7, uint(7), nil, struct{ X string }{"a"}, map[string]int{}, []string{"a"}}[rnd.Intn(6)]
			}
			write(b, v, off, rnd.Intn(3) == 0, rnd.Intn(2) == 0)
		}
		// at the same time, to separate places
		if size >= 16 && size <= 300 {
			e := J{"op": "conc", "sid": b.sid}
			type W struct {
				vs   []interface{} // written one after another
				off  int
				r    string
				seen []J // what was found at its place after a write, first to last
			}
			ws := []*W{}
			kind := rnd.Intn(5) // sometimes all of one kind, where something shared would be used at once
			pickV := func() interface{} {
				u := rnd.Uint64()
				switch kind {
				case 0:
					return math.Float64frombits(u &^ (1 << 62))
				case 1:
					return int64(u)
				case 2:
					return uint32(u)
				}
				return bwRandVal(rnd)
			}
			for p := rnd.Intn(4); p < size; {
				v := pickV()
				x := bwVal(v)
				l := len(x.b)
				if x.k != "string" && x.k != "bytes" {
					l = map[string]int{"int8": 1, "uint8": 1, "bool": 1, "int16": 2, "uint16": 2, "int32": 4, "uint32": 4, "float32": 4}[x.k]
					if l == 0 {
						l = 8
					}
				}
				q := &W{vs: []interface{}{v}, off: p}
				for t := 0; t < 30; t++ {
					if u := pickV(); fmt.Sprintf("%T", u) == fmt.Sprintf("%T", v) && x.k != "string" && x.k != "bytes" {
						q.vs = append(q.vs, u)
					}
				}
				ws = append(ws, q)
				p += l + rnd.Intn(2)
			}
			var wg sync.WaitGroup
			gate := make(chan bool)
			rounds := 1 + rnd.Intn(60)
			for _, x := range ws {
				wg.Add(1)
				go func(x *W) {
					<-gate
					defer func() {
						if recover() != nil {
							x.r = "panic"
						}
						wg.Done()
					}()
					x.r = "ok"
					first := map[int]string{}
					for k := 0; k < rounds*len(x.vs); k++ {
						i := k % len(x.vs)
						ret, err := b.w.WriteVal(x.vs[i], x.off)
						if err != nil {
							x.r = "err"
							return
						}
						// what others do must not show here
						got := string(b.w.Bytes()[x.off:ret])
						if old, ok := first[i]; !ok || old != got {
							first[i] = got
							if len(x.seen) < 40 {
								x.seen = append(x.seen, J{"v": bwVal(x.vs[i]).j(), "b": ints([]byte(got))})
							}
						}
					}
				}(x)
			}
			close(gate)
			wg.Wait()
			js := []J{}
			for _, x := range ws {
				if x.seen == nil {
					x.seen = []J{}
				}
				js = append(js, J{"v": bwVal(x.vs[len(x.vs)-1]).j(), "off": x.off, "r": x.r, "seen": x.seen})
			}
			e["ws"] = js
			look(b, e)
			tr.emit(e)
		}
		if b.mapped {
			unmap(b, rnd.Intn(2) == 0)
		}
		n++
	}
	tr.write(*fOut)
	fmt.Printf("sessions %d events %d\n", sid, len(tr.ev))
}

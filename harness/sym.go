package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sync"
)

// J is a JSON object of a trace
type J map[string]interface{}

// Syms gives every string of a trace a number; 0 is the empty string
type Syms struct {
	mu  sync.Mutex
	idx map[string]int
	tab []string
}

// fixed symbols, the specification knows them by number
var fixedSyms = []string{"histogram", "min", "max", "mean", "variance", "standard_deviation", ".indom"}

func newSyms() *Syms {
	s := &Syms{idx: map[string]int{"": 0}}
	for _, f := range fixedSyms {
		s.of(f)
	}
	return s
}

func (s *Syms) of(x string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	if n, ok := s.idx[x]; ok {
		return n
	}
	s.tab = append(s.tab, x)
	s.idx[x] = len(s.tab)
	return len(s.tab)
}

func (s *Syms) all(xs []string) []int {
	r := make([]int, len(xs))
	for i, x := range xs {
		r[i] = s.of(x)
	}
	return r
}

func (s *Syms) table() [][]int {
	t := make([][]int, len(s.tab))
	for i, x := range s.tab {
		b := make([]int, len(x))
		for k := range b {
			b[k] = int(x[k])
		}
		t[i] = b
	}
	return t
}

// Trace collects events and writes them after the header
type Trace struct {
	mu   sync.Mutex
	syms *Syms
	ev   []J
	head J
}

func newTrace() *Trace { return &Trace{syms: newSyms(), head: J{}} }

func (t *Trace) emit(e J) {
	t.mu.Lock()
	t.ev = append(t.ev, e)
	t.mu.Unlock()
}

func (t *Trace) write(path string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	f, err := os.Create(path)
	die(err)
	w := bufio.NewWriterSize(f, 1<<20)
	t.head["strs"] = t.syms.table()
	enc := json.NewEncoder(w)
	die(enc.Encode(t.head))
	for _, e := range t.ev {
		die(enc.Encode(e))
	}
	die(w.Flush())
	die(f.Close())
}

// die is for failures of the harness itself
func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
}

func limbs(u uint64) []int {
	return []int{int(u >> 48), int(u >> 32 & 0xffff), int(u >> 16 & 0xffff), int(u & 0xffff)}
}

func limbs2(u uint32) []int { return []int{int(u >> 16), int(u & 0xffff)} }

// valJ is a Go value as the specification sees it
func (s *Syms) valJ(v interface{}) J {
	z := limbs(0)
	switch x := v.(type) {
	case int:
		return J{"k": "int", "w": limbs(uint64(int64(x))), "f": z, "s": 0}
	case int32:
		return J{"k": "int32", "w": limbs(uint64(int64(x))), "f": z, "s": 0}
	case int64:
		return J{"k": "int64", "w": limbs(uint64(x)), "f": z, "s": 0}
	case uint:
		return J{"k": "uint", "w": limbs(uint64(x)), "f": z, "s": 0}
	case uint32:
		return J{"k": "uint32", "w": limbs(uint64(x)), "f": z, "s": 0}
	case uint64:
		return J{"k": "uint64", "w": limbs(x), "f": z, "s": 0}
	case float32:
		return J{"k": "float32", "w": limbs(uint64(math.Float32bits(x))), "f": z, "s": 0}
	case float64:
		return J{"k": "float64", "w": limbs(math.Float64bits(x)), "f": limbs(uint64(math.Float32bits(float32(x)))), "s": 0}
	case string:
		return J{"k": "string", "w": z, "f": z, "s": s.of(x)}
	}
	return J{"k": "other", "w": z, "f": z, "s": 0}
}

// storedJ is a value read from a metric: Go kind, slot word, symbol
func (s *Syms) storedJ(v interface{}) (k string, w []int, sym int) {
	switch x := v.(type) {
	case int32:
		return "int32", limbs(uint64(uint32(x))), 0
	case int64:
		return "int64", limbs(uint64(x)), 0
	case uint32:
		return "uint32", limbs(uint64(x)), 0
	case uint64:
		return "uint64", limbs(x), 0
	case float32:
		return "float32", limbs(uint64(math.Float32bits(x))), 0
	case float64:
		return "float64", limbs(math.Float64bits(x)), 0
	case string:
		return "string", limbs(0), s.of(x)
	case int:
		return "int", limbs(uint64(int64(x))), 0
	case uint:
		return "uint", limbs(uint64(x)), 0
	}
	return fmt.Sprintf("%T", v), limbs(0), -1
}

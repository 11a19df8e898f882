package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
)

// paths through a bounded model, walked on the library

type sVal struct {
	K string `json:"k"`
	W []int  `json:"w"`
	S int    `json:"s"`
}

type sIV struct {
	I int  `json:"i"`
	V sVal `json:"v"`
}

type sOp struct {
	Op, Kind, F, How           string
	C, D, M, Reg, Name, I, Str int
	T, Sem, Flag               int
	Low, High, Sig, Q, Val, N  int64
	Must, IsI, On              bool
	Insts, Desc, U             []int
	V                          sVal
	Vals                       []sIV
}

type script struct {
	Names  [][]int
	Prefix []sOp
	Calls  []sOp
	Walks  [][]int
}

func (s *script) text(n int) string {
	if n == 0 {
		return ""
	}
	b := []byte{}
	for _, x := range s.Names[n-1] {
		b = append(b, byte(x))
	}
	return string(b)
}

func (s *script) texts(ns []int) []string {
	r := []string{}
	for _, n := range ns {
		r = append(r, s.text(n))
	}
	return r
}

func (s *script) val(v sVal) interface{} {
	var u uint64
	for _, x := range v.W {
		u = u<<16 | uint64(x)
	}
	switch v.K {
	case "int":
		return int(int64(u))
	case "int32":
		return int32(int64(u))
	case "int64":
		return int64(u)
	case "uint":
		return uint(u)
	case "uint32":
		return uint32(u)
	case "uint64":
		return u
	case "float64":
		return math.Float64frombits(u)
	case "float32":
		return math.Float32frombits(uint32(u))
	case "string":
		return s.text(v.S)
	}
	die(fmt.Errorf("no value of kind %q", v.K))
	return nil
}

func (s *script) op(x sOp) Op {
	o := Op{Op: x.Op, Kind: x.Kind, F: x.F, C: x.C, D: x.D, M: x.M, Reg: x.Reg, Name: s.text(x.Name), I: s.text(x.I), Str: s.text(x.Str),
		Desc: s.texts(x.Desc), T: x.T, Sem: x.Sem, Flag: x.Flag, Must: x.Must, IsI: x.IsI, On: x.On, Insts: s.texts(x.Insts), Fault: x.How,
		Low: x.Low, High: x.High, Sig: x.Sig, Q: x.Q, Val: x.Val, N: x.N}
	if x.Op == "hist" {
		o.On = x.F == "Record"
	}
	if x.V.K != "" && !(x.Op == "regstring" && x.IsI) {
		o.V = s.val(x.V)
	}
	for _, v := range x.Vals {
		o.Vals = append(o.Vals, IV{s.text(v.I), s.val(v.V)})
	}
	if len(x.U) == 2 && x.U[0] == 16 {
		o.U, o.Simple = []uStep{{'c', 0, 1}}, true
	}
	return o
}

func scriptRun(tmp string) {
	b, err := os.ReadFile(*fIn)
	die(err)
	var s script
	die(json.Unmarshal(b, &s))
	tr := newTrace()
	w := newWorld(tr, tmp)
	calls := 0
	for _, walk := range s.Walks {
		w.begin()
		ok := true
		for _, o := range s.Prefix {
			if ok = w.do(s.op(o)); !ok {
				break
			}
		}
		for i, k := range walk {
			if !ok {
				break
			}
			o := s.op(s.Calls[k-1])
			o.Img = i == len(walk)-1
			// what a mismatch on the way left out
			if !w.there(o) {
				break
			}
			ok = w.do(o)
			calls++
		}
		if w.broken {
			break
		}
		w.end()
	}
	tr.write(*fOut)
	fmt.Printf("sessions %d events %d calls %d\n", len(s.Walks), len(tr.ev), calls)
}

// there says if the objects of an operation exist
func (w *World) there(o Op) bool {
	switch o.Op {
	case "register", "upd", "hist", "timer":
		return w.met[o.M] != nil && (o.Op != "register" || w.cli[o.C] != nil)
	case "regindom":
		return w.ind[o.D] != nil && w.cli[o.C] != nil
	case "erase", "metric", "indom", "client":
		return true
	}
	return w.cli[o.C] != nil
}

package main

import (
	"bufio"
	"fmt"
	"hash/fnv"
	"os"
	"strings"
)

// names whose identifiers are known to be equal, and pools of names whose
// identifiers have to be different

type knownPair struct{ kind, a, b string }

func readKnown(path string) []knownPair {
	r := []knownPair{}
	f, err := os.Open(path)
	die(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		p := strings.Split(sc.Text(), "\t")
		if len(p) == 3 {
			r = append(r, knownPair{p[0], p[1], p[2]})
		}
	}
	die(sc.Err())
	return r
}

func fnv1a(s string, bits uint) uint32 {
	h := fnv.New32a()
	_, _ = h.Write([]byte(s))
	return h.Sum32() & (1<<bits - 1)
}

// idPool makes names of all lengths that are pairwise different in the bits
// of a metric, and in those of a domain with every ending in use
func (g *Gen) idPool(n int) {
	g.names = nil
	seen := map[uint32]bool{}
	dom := map[uint32]bool{fnv1a("histogram", 22): true}
	for i := 0; len(g.names) < n && i < 50*n; i++ {
		var s string
		switch g.rnd.Intn(6) {
		case 0:
			s = g.pick(shortNames)
		case 1:
			s = g.longName()
			if len(s) > 256 {
				continue
			}
		case 2:
			l := 1 + g.rnd.Intn(256)
			b := make([]byte, l)
			for k := range b {
				b[k] = byte(1 + g.rnd.Intn(255))
			}
			s = string(b)
		default:
			l := 1 + g.rnd.Intn(30)
			for k := 0; k < l; k++ {
				s += string("abcdefghijklmnopqrstuvwxyz.0123456789_-ABCéß"[g.rnd.Intn(40)])
			}
		}
		a, b, c := fnv1a(s, 10), fnv1a(s, 22), fnv1a(s+".indom", 22)
		if seen[a] || dom[b] || dom[c] {
			continue
		}
		seen[a], dom[b], dom[c] = true, true, true
		g.names = append(g.names, s)
	}
}

// knownSession shows a listed pair
func (g *Gen) knownSession(k knownPair) bool {
	g.begin()
	defer g.w.end()
	ops := []Op{{Op: "client", C: 1, Reg: 1, Name: "ids"}}
	switch k.kind {
	case "metric":
		ops = append(ops, Op{Op: "metric", Kind: "counter", M: 1, Name: k.a, V: int64(1)}, Op{Op: "register", C: 1, M: 1},
			Op{Op: "metric", Kind: "counter", M: 2, Name: k.b, V: int64(2)}, Op{Op: "register", C: 1, M: 2})
	case "inst":
		ops = append(ops, Op{Op: "indom", D: 1, Name: "d", Insts: []string{k.a, k.b}}, Op{Op: "regindom", C: 1, D: 1})
	case "indom":
		ops = append(ops, Op{Op: "indom", D: 1, Name: k.a, Insts: []string{"i"}}, Op{Op: "regindom", C: 1, D: 1},
			Op{Op: "indom", D: 2, Name: k.b, Insts: []string{"j"}}, Op{Op: "regindom", C: 1, D: 2})
	default:
		die(fmt.Errorf("kind %q", k.kind))
	}
	ops = append(ops, Op{Op: "start", C: 1, Img: true}, Op{Op: "stop", C: 1})
	for _, o := range ops {
		if !g.w.do(o) {
			return false
		}
	}
	return true
}

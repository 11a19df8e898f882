package main

import (
	"bytes"
	"encoding/binary"
	"os"
	"strings"
)

// an own reading of the MMV format, without judgement: what lies where the
// table of contents says; it shares no code with the library

var le = binary.LittleEndian

func off(u uint64) int {
	if u > 1<<30 {
		return -1
	}
	return int(u)
}

// decodePid is the process that has to have made the file
var decodePid = os.Getpid()

func i32(b []byte) int { return int(int32(le.Uint32(b))) }

// Image is a decoded file
type Image struct {
	ok        bool
	ver       int
	g1, g2    uint64
	magic     bool
	tocs      [][3]int
	strOff    int
	strCount  int
	json      J
	valueOffs []int
}

// text cuts at the zero bytes at the end, a text with zero bytes inside is not
// what was written and becomes a symbol of its own
func text(b []byte) string { return string(bytes.TrimRight(b, "\x00")) }

func decode(data []byte, rep int, s *Syms) *Image {
	im := &Image{}
	j := J{"size": len(data), "rep": rep, "slack": true}
	im.json = j
	for _, k := range []string{"tocs", "indoms", "insts", "metrics", "vals", "strs"} {
		j[k] = []J{}
	}
	j["cluster"] = limbs2(0)
	j["magic"], j["geq"], j["gz"], j["pid"] = false, false, true, false
	j["ver"], j["ntoc"], j["flag"] = 0, 0, 0
	if len(data) < 40 {
		return im
	}
	im.magic = string(data[:4]) == "MMV\x00"
	im.ver = i32(data[4:])
	im.g1, im.g2 = le.Uint64(data[8:]), le.Uint64(data[16:])
	ntoc := i32(data[24:])
	j["magic"], j["ver"] = im.magic, im.ver
	j["geq"], j["gz"] = im.g1 == im.g2, im.g1 == 0
	j["ntoc"], j["flag"] = ntoc, i32(data[28:])
	j["pid"] = i32(data[32:]) == decodePid
	j["cluster"] = limbs2(le.Uint32(data[36:]))
	if ntoc < 0 || ntoc > 64 || 40+16*ntoc > len(data) || (im.ver != 1 && im.ver != 2) {
		return im
	}
	tocs, indoms, insts, metrics, vals, strs := []J{}, []J{}, []J{}, []J{}, []J{}, []J{}
	slack := true
	ilen, mlen := 80, 104
	if im.ver == 2 {
		ilen, mlen = 24, 48
	}
	lens := map[int]int{1: 32, 2: ilen, 3: mlen, 4: 32, 5: 256}
	im.ok = true
	name64 := func(b []byte) int {
		t := text(b[:64])
		if len(t) == 64 || strings.IndexByte(t, 0) >= 0 {
			slack = false
		}
		return s.of(t)
	}
	for i := 0; i < ntoc; i++ {
		p := 40 + 16*i
		t, c, o := i32(data[p:]), i32(data[p+4:]), off(le.Uint64(data[p+8:]))
		tocs = append(tocs, J{"t": t, "c": c, "o": o})
		im.tocs = append(im.tocs, [3]int{t, c, o})
		l := lens[t]
		if l == 0 || c < 0 || o < 0 || c > 1<<20 || o+c*l > len(data) {
			im.ok = false
			continue
		}
		for k := 0; k < c; k++ {
			q := o + k*l
			b := data[q : q+l]
			switch t {
			case 1:
				indoms = append(indoms, J{"o": q, "id": limbs2(le.Uint32(b)), "c": i32(b[4:]), "io": off(le.Uint64(b[8:])),
					"so": off(le.Uint64(b[16:])), "lo": off(le.Uint64(b[24:]))})
			case 2:
				e := J{"o": q, "d": off(le.Uint64(b)), "pad": i32(b[8:]), "id": limbs2(le.Uint32(b[12:])), "n": 0, "no": 0}
				if im.ver == 1 {
					e["n"] = name64(b[16:])
				} else {
					e["no"] = off(le.Uint64(b[16:]))
				}
				insts = append(insts, e)
			case 3:
				e := J{"o": q, "n": 0, "no": 0}
				r := b[8:]
				if im.ver == 1 {
					e["n"] = name64(b)
					r = b[64:]
				} else {
					e["no"] = off(le.Uint64(b))
				}
				e["id"], e["t"], e["sem"] = limbs2(le.Uint32(r)), i32(r[4:]), i32(r[8:])
				e["u"], e["ind"], e["pad"] = limbs2(le.Uint32(r[12:])), limbs2(le.Uint32(r[16:])), i32(r[20:])
				e["so"], e["lo"] = off(le.Uint64(r[24:])), off(le.Uint64(r[32:]))
				metrics = append(metrics, e)
			case 4:
				vals = append(vals, J{"o": q, "w": limbs(le.Uint64(b)), "x": off(le.Uint64(b[8:])),
					"m": off(le.Uint64(b[16:])), "i": off(le.Uint64(b[24:]))})
				im.valueOffs = append(im.valueOffs, q)
			case 5:
				t := text(b)
				if strings.IndexByte(t, 0) >= 0 {
					slack = false
				}
				strs = append(strs, J{"o": q, "s": s.of(t)})
			}
		}
		if t == 5 && im.strCount == 0 {
			im.strOff, im.strCount = o, c
		}
	}
	j["tocs"], j["indoms"], j["insts"], j["metrics"], j["vals"], j["strs"], j["slack"] = tocs, indoms, insts, metrics, vals, strs, slack
	return im
}

// diff gives the words and texts that differ between two images of a file
func diff(a, b []byte, im *Image, s *Syms) (chg, sch []J) {
	chg, sch = []J{}, []J{}
	if bytes.Equal(a, b) {
		return
	}
	if len(a) != len(b) {
		return []J{{"o": -1, "w": limbs(0)}}, sch
	}
	inStr := func(p int) bool {
		return im != nil && im.strCount > 0 && p >= im.strOff && p < im.strOff+256*im.strCount && p+256 <= len(a)
	}
	for p := 0; p < len(a); {
		if inStr(p) {
			if !bytes.Equal(a[p:p+256], b[p:p+256]) {
				sch = append(sch, J{"o": p, "s": s.of(text(b[p : p+256]))})
			}
			p += 256
			continue
		}
		e := p + 8
		if e > len(a) {
			e = len(a)
		}
		if !bytes.Equal(a[p:e], b[p:e]) {
			w := make([]byte, 8)
			copy(w, b[p:e])
			chg = append(chg, J{"o": p, "w": limbs(le.Uint64(w))})
		}
		p = e
	}
	return
}

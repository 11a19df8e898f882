package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/performancecopilot/speed/v4"
	"github.com/performancecopilot/speed/v4/mmvdump"
)

// compositions of units

var spaceUnits = []speed.SpaceUnit{speed.ByteUnit, speed.KilobyteUnit, speed.MegabyteUnit, speed.GigabyteUnit, speed.TerabyteUnit, speed.PetabyteUnit, speed.ExabyteUnit}
var timeUnits = []speed.TimeUnit{speed.NanosecondUnit, speed.MicrosecondUnit, speed.MillisecondUnit, speed.SecondUnit, speed.MinuteUnit, speed.HourUnit}

var ownNames = map[string][2]int{"ByteUnit": {0, 0}, "KilobyteUnit": {0, 1}, "MegabyteUnit": {0, 2}, "GigabyteUnit": {0, 3}, "TerabyteUnit": {0, 4},
	"PetabyteUnit": {0, 5}, "ExabyteUnit": {0, 6}, "NanosecondUnit": {1, 0}, "MicrosecondUnit": {1, 1}, "MillisecondUnit": {1, 2}, "SecondUnit": {1, 3},
	"MinuteUnit": {1, 4}, "HourUnit": {1, 5}, "OneUnit": {2, 0}}
var dumpNames = map[string][2]int{"B": {0, 0}, "KiB": {0, 1}, "MiB": {0, 2}, "GiB": {0, 3}, "TiB": {0, 4}, "PiB": {0, 5}, "EiB": {0, 6},
	"nsec": {1, 0}, "usec": {1, 1}, "msec": {1, 2}, "sec": {1, 3}, "min": {1, 4}, "hr": {1, 5}, "count": {2, 0}}

var ownTok = regexp.MustCompile(`^([A-Z][a-z]+Unit)(?:\^(-?\d+))?`)
var dumpTok = regexp.MustCompile(`^(KiB|MiB|GiB|TiB|PiB|EiB|B|nsec|usec|msec|sec|min|hr|count)(?:\^(-?\d+))?`)

// unitText reads a printed unit back
func unitText(s string, tok *regexp.Regexp, names map[string][2]int) J {
	dim, scale := [3]int{}, [3]int{}
	one := 1
	for s != "" {
		if strings.HasPrefix(s, " / ") {
			s, one = s[3:], -1
			continue
		}
		m := tok.FindStringSubmatch(s)
		if m == nil || dim[names[m[1]][0]] != 0 {
			return J{"sd": 99, "td": 99, "cd": 99, "ss": 0, "ts": 0, "cs": 0}
		}
		d := one
		if m[2] != "" {
			d, _ = strconv.Atoi(m[2])
			if tok == dumpTok && d*one < 0 {
				d = 99
			}
		}
		n := names[m[1]]
		dim[n[0]], scale[n[0]] = d, n[1]
		s = s[len(m[0]):]
	}
	return J{"sd": dim[0], "td": dim[1], "cd": dim[2], "ss": scale[0], "ts": scale[1], "cs": scale[2]}
}

type ustep struct {
	k  byte
	sc int
	d  int
}

func index[T comparable](l []T, x T) int {
	for i := range l {
		if l[i] == x {
			return i
		}
	}
	return 99
}

func unitsRun() {
	tr := newTrace()
	rnd := rand.New(rand.NewSource(*fSeed))
	bases := []ustep{{'n', 0, 0}}
	for i := range spaceUnits {
		bases = append(bases, ustep{'s', i, 1})
	}
	for i := range timeUnits {
		bases = append(bases, ustep{'t', i, 1})
	}
	bases = append(bases, ustep{'c', 0, 1})
	run := func(base ustep, steps []ustep) {
		var u speed.MetricUnit
		switch base.k {
		case 'n':
			u = speed.NewMetricUnit()
		case 's':
			u = spaceUnits[base.sc]
		case 't':
			u = timeUnits[base.sc]
		case 'c':
			u = speed.OneUnit
		}
		e := J{"base": string(base.k), "bscale": base.sc, "pm0": limbs2(u.PMAPI())}
		js := []J{}
		for _, s := range steps {
			j := J{"k": string(s.k), "sc": s.sc, "d": s.d, "r": "ok"}
			func() {
				defer func() {
					if recover() != nil {
						j["r"] = "panic"
					}
				}()
				switch s.k {
				case 's':
					u = u.Space(spaceUnits[s.sc], int8(s.d))
				case 't':
					u = u.Time(timeUnits[s.sc], int8(s.d))
				case 'c':
					u = u.Count(speed.OneUnit, int8(s.d))
				}
			}()
			j["pm"] = limbs2(u.PMAPI())
			js = append(js, j)
		}
		e["steps"] = js
		d := mmvdump.Unit(u.PMAPI())
		e["dump"] = J{"sd": int(d.SpaceDim()), "td": int(d.TimeDim()), "cd": int(d.CountDim()), "ss": int(d.SpaceScale()), "ts": int(d.TimeScale()), "cs": int(d.CountScale())}
		own := e["dump"].(J)
		if x, ok := u.(interface {
			SpaceDim() int8
			TimeDim() int8
			CountDim() int8
		}); ok {
			own = J{"sd": int(x.SpaceDim()), "td": int(x.TimeDim()), "cd": int(x.CountDim())}
		} else {
			own = J{"sd": own["sd"], "td": own["td"], "cd": own["cd"]}
		}
		e["own"] = own
		// the scales, of those that have a dimension
		sc := []int{-1, -1, -1}
		if x, ok := u.(interface {
			SpaceScale() speed.SpaceUnit
			TimeScale() speed.TimeUnit
			CountScale() speed.CountUnit
		}); ok {
			for i, f := range []func(){
				func() { sc[0] = index(spaceUnits, x.SpaceScale()) },
				func() { sc[1] = index(timeUnits, x.TimeScale()) },
				func() { sc[2] = index([]speed.CountUnit{speed.OneUnit}, x.CountScale()) },
			} {
				if own[[]string{"sd", "td", "cd"}[i]] != 0 {
					f()
				}
			}
		}
		e["scales"] = sc
		e["text"] = unitText(u.String(), ownTok, ownNames)
		e["dtext"] = unitText(d.String(), dumpTok, dumpNames)
		tr.emit(e)
	}
	kinds := func(f func(k byte, sc int)) {
		for i := range spaceUnits {
			f('s', i)
		}
		for i := range timeUnits {
			f('t', i)
		}
		f('c', 0)
	}
	// every single request on every start
	for _, b := range bases {
		run(b, nil)
		kinds(func(k byte, sc int) {
			for _, d := range []int{-128, -100, -16, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 127} {
				run(b, []ustep{{k, sc, d}})
			}
		})
	}
	for i := 0; i < *fN; i++ {
		n := 2 + rnd.Intn(5)
		st := []ustep{}
		for k := 0; k < n; k++ {
			s := ustep{"stc"[rnd.Intn(3)], 0, rnd.Intn(16) - 8}
			if rnd.Intn(8) == 0 {
				s.d = rnd.Intn(256) - 128
			}
			switch s.k {
			case 's':
				s.sc = rnd.Intn(7)
			case 't':
				s.sc = rnd.Intn(6)
			}
			st = append(st, s)
		}
		run(bases[rnd.Intn(len(bases))], st)
	}
	// any 32 bits, also those that no unit of the library has
	for i := 0; i < *fN; i++ {
		x := rnd.Uint32()
		if i%3 == 0 {
			x &= 0xf << (4 * rnd.Intn(8))
		}
		d := mmvdump.Unit(x)
		text := guarded(func() error { _ = d.String(); return nil })
		tr.emit(J{"w": limbs2(x), "text": text, "dump": J{"sd": int(d.SpaceDim()), "td": int(d.TimeDim()), "cd": int(d.CountDim()), "ss": int(d.SpaceScale()), "ts": int(d.TimeScale()), "cs": int(d.CountScale())}})
	}
	tr.write(*fOut)
	fmt.Printf("sessions %d events %d\n", len(tr.ev), len(tr.ev))
}

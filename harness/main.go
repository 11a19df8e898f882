package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"
)

var (
	fOut  = flag.String("out", "", "trace to write")
	fSeed = flag.Int64("seed", 1, "seed")
	fProf = flag.String("prof", "mixed", "comma separated profiles")
	fN    = flag.Int("n", 10, "number of sessions")
	fSecs = flag.Float64("secs", 0, "stop after this many seconds")
	fIds  = flag.String("ids", "", "equal identifiers are mismatches, but for the pairs in this file")
	fFrom = flag.Int("from", 0, "first of the enumerated sessions")
	fStep = flag.Int("step", 1, "take every so many of them")
	fIn   = flag.String("in", "", "scripts")
)

func main() {
	cmd := ""
	if len(os.Args) > 1 {
		cmd = os.Args[1]
	}
	os.Args = append(os.Args[:1], os.Args[2:]...)
	flag.Parse()
	if cmd == "loc-child" {
		locChild()
		return
	}
	tmp := os.Getenv("TMPDIR")
	if tmp == "" || !strings.Contains(tmp, "verif") {
		die(fmt.Errorf("TMPDIR has to be a scratch directory"))
	}
	switch cmd {
	case "publish":
		publishRun(tmp)
	case "pub-child":
		pubChild(tmp)
	case "sessions":
		sessions(tmp)
	case "units":
		unitsRun()
	case "conf":
		confRun(tmp)
	case "reader":
		readerRun(tmp)
	case "conc":
		concRun(tmp)
	case "torn":
		tornRun(tmp)
	case "script":
		scriptRun(tmp)
	case "bw":
		bwRun(tmp)
	default:
		die(fmt.Errorf("unknown command %q", cmd))
	}
}

func sessions(tmp string) {
	tr := newTrace()
	w := newWorld(tr, tmp)
	rnd := rand.New(rand.NewSource(*fSeed))
	profs := strings.Split(*fProf, ",")
	t0 := time.Now()
	k := 0
	if *fIds != "" {
		known := readKnown(*fIds)
		ps := [][]int{}
		for _, p := range known {
			ps = append(ps, []int{tr.syms.of(p.a), tr.syms.of(p.b)})
			g := &Gen{w: w, rnd: rnd, p: profiles["mixed"]}
			if !g.knownSession(p) {
				break
			}
		}
		tr.head["known"] = ps
	}
	if *fProf == "values" || *fProf == "strings" || *fProf == "strings-deep" {
		strs := grammarStrings(*fProf == "strings-deep")
		total := valueSessions
		if *fProf != "values" {
			total = (len(strs) + perStrings - 1) / perStrings
		}
		for i := *fFrom; i < total; i += *fStep {
			k++
			g := &Gen{w: w, rnd: rand.New(rand.NewSource(rnd.Int63())), p: profiles["mixed"]}
			if *fProf == "values" && !g.valueSession(i) || *fProf != "values" && !g.stringSession(strs, i) {
				break
			}
		}
		*fN = 0
	}
	if *fProf == "shapes" || *fProf == "shapes-far" {
		far := *fProf == "shapes-far"
		for i := *fFrom; i < largeShapes+growShapes; i += *fStep {
			k++
			g := &Gen{w: w, rnd: rand.New(rand.NewSource(rnd.Int63() + int64(i))), p: profiles["large"]}
			if i < largeShapes && !g.large(profiles[map[bool]string{false: "large", true: "huge"}[far]].Size, i) || i >= largeShapes && !g.grow(i-largeShapes, growSizes(far)) {
				break
			}
		}
		*fN = 0
	}
	for ; k < *fN; k++ {
		if *fSecs > 0 && time.Since(t0).Seconds() > *fSecs {
			break
		}
		p, ok := profiles[profs[k%len(profs)]]
		if !ok {
			die(fmt.Errorf("no profile %v", profs[k%len(profs)]))
		}
		g := &Gen{w: w, rnd: rand.New(rand.NewSource(rnd.Int63())), p: p}
		if p.Size > 0 && !g.large(p.Size, -1) || p.Size == 0 && !g.session() {
			break
		}
	}
	tr.write(*fOut)
	fmt.Printf("sessions %d events %d syms %d\n", k, len(tr.ev), len(tr.syms.tab))
}

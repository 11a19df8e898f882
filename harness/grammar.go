package main

import (
	"strings"
	"unicode"
)

// grammarOf gives the code points of a registration string, those above 127
// that are letters or numbers, and makes symbols of the parts it can consist of
func grammarOf(s *Syms, str string) (runes, uid, cand []int) {
	of := func(x string) {
		if x != "" {
			cand = append(cand, s.of(x))
		}
	}
	runes, uid, cand = []int{}, []int{}, []int{}
	for _, r := range str {
		runes = append(runes, int(r))
		if r > 127 && (unicode.IsLetter(r) || unicode.IsNumber(r)) {
			uid = append(uid, int(r))
		}
	}
	of(str)
	a, b := strings.IndexByte(str, '['), strings.IndexByte(str, ']')
	if a >= 0 && b > a {
		of(str[:a])
		of(str[:a] + str[b+1:])
		for _, p := range strings.Split(str[a+1:b], ",") {
			of(p)
			if len(p) > 0 {
				of(p[1:])
			}
			of(strings.TrimSpace(p))
		}
	}
	return
}

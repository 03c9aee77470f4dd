package main

import (
	"fmt"

	"github.com/avast/apkverifier/signingblock"
)

// muted ends a case that runs inside another one.
type muted struct{}

var observe func(apk []byte, min, max int32)

type seenAPK struct {
	apk      []byte
	min, max int32
}

// collect runs another check's case for the APKs it verifies; whether its own property holds is not looked at.
func (t *T) collect(f func(*T)) (seen []seenAPK, notes []string) {
	c := &T{T: t.T, r: t.r, arts: map[string][]byte{}, class: map[string]struct{}{}, mute: true}
	observe = func(apk []byte, min, max int32) {
		seen = append(seen, seenAPK{append([]byte(nil), apk...), min, max})
	}
	defer func() {
		observe = nil
		notes = c.notes
		if x := recover(); x != nil {
			if _, ok := x.(muted); !ok {
				panic(x)
			}
		}
	}()
	f(c)
	return
}

// sources are cases of other checks that verify interesting APKs.
var sources = []struct {
	name string
	f    func(*T)
}{
	{"block", func(t *T) { c01Case(t, zipOpts{maxComment: 30}, false) }},
	{"jar", c04Case},
	{"infos", c04Infos},
	{"attribute v1", c06V1},
	{"attribute block", c06Block},
	{"policy", c07Case},
	{"ranges", c09Ranges},
	{"multi", c09Multi},
	{"dex", c15Policy},
	{"dex v1", c15V1},
	{"signers v3", c23V3},
	{"signers v1", c23V1},
	{"cover", c23Cover},
	{"both", c23Both},
	{"unknown parts", c24Case},
	{"digests", c29Case},
	{"digest", c29Single},
}

func hasV3Extra(r *signingblock.VerificationResult) bool {
	if r == nil {
		return false
	}
	for id := range r.ExtraBlocks {
		if uint32(id) == idV3 {
			return true
		}
	}
	return false
}

// c31Ranges: what verifies for a range verifies for each platform in it.
func c31Case(t *T) {
	src := sources[t.Uni("source", len(sources))]
	seen, notes := t.collect(src.f)
	if len(seen) == 0 {
		return
	}
	s := seen[t.Uni("which", len(seen))]
	for _, n := range notes {
		t.Note("%s", n)
	}
	if s.min < 18 && t.Pct("from9", 80) || t.Pct("own", 30) {
		s.min = int32(pick(t, "min", []int{9, 14, 17, 18, 18, 19, 20, 21, 23, 24, 26, 27, 28, 29, 32, 33, 35}))
	}
	if s.max < s.min || t.Pct("wide", 50) {
		s.max = int32(pick(t, "max", []int{17, 23, 24, 27, 28, 30, 32, 33, 34, 36, anyMax}))
	}
	if s.min < 1 || s.min > s.max {
		return
	}
	t.Attach("apk", s.apk)
	v := verify(s.apk, s.min, s.max)
	d := fmt.Sprintf("%s: verified for <%d;%d> with scheme %d", src.name, s.min, s.max, v.Scheme)
	if v.Err != nil {
		t.Class("%s: rejected for the range", src.name)
		return
	}
	t.Class("%s: accepted with scheme %d", src.name, v.Scheme)
	t.NonTrivial(s.apk, s.min, s.max)
	last := s.max
	if last > 40 {
		last = 40
	}
	fallback := v.Scheme == 2 && hasV3Extra(v.Res.SigningBlockResult)
	rotated := false
	for l := s.min; l <= last; l++ {
		switch {
		case s.min < 9 && l >= 9:
			continue // ranges from before 9 do not look at SHA-384 and SHA-512 digests
		case s.max >= 18 && l < 18:
			continue // digests that only count from 18 suffice for the range
		case v.Scheme >= 3 && l >= 24 && l < 28:
			continue // v3 has decided; these platforms do not know it
		case fallback && l >= 28:
			continue // v2 has decided; these platforms use v3
		}
		w := verify(s.apk, l, l)
		t.Evals(1)
		if w.Err != nil && v.Scheme == 31 && l >= 33 && !rotated && l != s.max {
			continue // the rotation may start later
		}
		if l >= 33 {
			rotated = true
		}
		if w.Err != nil {
			t.Violate("%s, but not for %d: %v", d, l, w.Err)
		}
		if v.Scheme == w.Scheme && v.Scheme < 3 && !chainsEqual(v.Certs, w.Certs) {
			t.Violate("%s and certificates %s, but for %d with %s", d, chainStr(v.Certs), l, chainStr(w.Certs))
		}
	}
	t.Sample("%s: %d levels", d, last-s.min+1)
}

func init() {
	register("C31", "a case is an APK from the generators of other checks (all schemes, valid and damaged parts, digest sets, manifests) and a range it verifies for; each platform of the range is then verified alone; non-trivial: the range's verdict was acceptance; distinct by APK and range",
		Sub{"levels", 8000, 200000, c31Case},
	)
}

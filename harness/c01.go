package main

import "fmt"

// genBlockAPK draws a validly signed APK with any schemes.
func (t *T) genBlockAPK(o zipOpts) *BlockAPK {
	b := &BlockAPK{}
	verity := t.Pct("verity", 30)
	combo := pick(t, "combo", []string{"2", "3", "23", "2", "3", "23", "3+31", "23+31"})
	has := func(s string) bool {
		switch s {
		case "2":
			return combo[0] == '2'
		case "3":
			return combo != "2"
		default:
			return len(combo) >= 4
		}
	}
	b.Zip = t.genZip(o)
	if has("2") {
		for i := t.nSigners(); i > 0; i-- {
			b.V2 = append(b.V2, t.genSigner(false, verity))
		}
	}
	if has("31") {
		b.RotMin = int32(t.Range("rotmin", 33, 36))
	}
	if has("3") {
		b.V3 = t.genV3Signers(28, anyMax, verity)
	}
	if has("31") {
		b.V31 = t.genV3Signers(b.RotMin, anyMax, verity)
		if t.Pct("rotattr", 60) {
			for _, s := range b.V3 {
				s.Attrs = append(s.Attrs, Attr{attrMinSdk, u32(uint32(b.RotMin))})
			}
		}
		if t.Pct("rotdev", 15) {
			b.V31[0].Attrs = append(b.V31[0].Attrs, Attr{attrRotDev, nil})
		}
		// the v3 signer may stop where v3.1 starts
		if t.Pct("v3stop", 30) {
			for _, s := range b.V3 {
				if s.Max == anyMax && s.Min < b.RotMin {
					s.Max = b.RotMin - 1
				}
			}
		}
	}
	if has("2") && has("3") && t.Pct("strip", 50) {
		id := uint32(3)
		if has("31") && t.Pct("strip31", 40) {
			id = 31
		}
		// the stripping protection attribute only matters when v2 is what is verified; present schemes never make it fail
		for _, s := range b.V2 {
			s.Attrs = append(s.Attrs, Attr{attrStrip, u32(id)})
		}
	}
	b.Pad = t.Pct("pad", 30)
	b.Order = t.perm(b.nPairs())
	b.Make()
	t.Class("schemes %s", combo)
	return b
}

func (b *BlockAPK) nPairs() int {
	n := len(b.Extra)
	for _, l := range [][]*SignerSpec{b.V2, b.V3, b.V31} {
		if len(l) > 0 {
			n++
		}
	}
	return n
}

func (t *T) nSigners() int {
	if t.Pct("multi", 25) {
		return t.Range("signers", 2, 4)
	}
	return 1
}

// genV3Signers draws signers whose ranges partition [lo,hi], with growing lineages, in any record order.
func (t *T) genV3Signers(lo, hi int32, verity bool) []*SignerSpec {
	n := 1
	if t.Pct("v3multi", 30) {
		n = t.Range("v3n", 2, 3)
	}
	var out []*SignerSpec
	cur := lo
	for i := 0; i < n; i++ {
		s := t.genSigner(true, verity)
		s.Min = cur
		if i == n-1 {
			s.Max = hi
		} else {
			s.Max = cur + int32(t.Range("v3len", 0, 3))
			cur = s.Max + 1
		}
		out = append(out, s)
	}
	if t.Pct("lineage", 45) {
		ln := t.Range("lineage.n", n, n+2)
		last := out[n-1]
		l := t.genLineage(ln, last.Key, last.Chain[0])
		// earlier signers use the certificates of earlier nodes
		for i := 0; i < n; i++ {
			k := ln - n + i
			s := out[i]
			if i < n-1 {
				s.Key = l.Nodes[k].Key
				s.Algs = t.genAlgs(s.Key, verity)
				s.Chain = [][]byte{l.Nodes[k].Cert}
			}
			s.Attrs = append(s.Attrs, Attr{attrPoR, l.Prefix(k + 1).Encode()})
		}
		t.Class("lineage %d", ln)
	}
	if n > 1 && t.Pct("v3shuffle", 40) {
		p := t.perm(n)
		q := make([]*SignerSpec, n)
		for i, j := range p {
			q[i] = out[j]
		}
		out = q
	}
	return out
}

// genRange draws an SDK range with min >= 24 that the signatures cover.
func (t *T) genRange(b *BlockAPK) (int32, int32) {
	type rg struct{ lo, hi int32 }
	var mins []int32
	for m := int32(24); m <= 37; m++ {
		mins = append(mins, m)
	}
	// a range is covered iff some scheme that max understands exists
	lowest := int32(24)
	if len(b.V2) == 0 {
		lowest = 28
	}
	max := int32(t.Range("max", int(lowest), 38))
	if t.Pct("anymax", 40) {
		max = anyMax
	}
	min := int32(t.Range("min", int(lowest), 38))
	if min > max {
		min = max
	}
	if len(b.V31) > 0 && max >= 33 {
		// v3.1 signers have to cover the requested maximum
		if max < b.RotMin {
			max = b.RotMin
		}
	}
	return min, max
}

func c01Case(t *T, o zipOpts, stripAll bool) {
	b := t.genBlockAPK(o)
	min, max := t.genRange(b)
	scheme, chains := b.expect(min, max)
	if scheme == 2 && len(b.V3) == 0 && len(b.V2[0].Attrs) > 0 && max >= 28 {
		t.Fatalf("harness: stripping attribute without v3")
	}
	apk := b.Bytes()
	desc := fmt.Sprintf("v2{%s} v3{%s} v31{%s} <%d;%d> %d bytes", specsStr(b.V2), specsStr(b.V3), specsStr(b.V31), min, max, len(apk))
	t.Note("%s", desc)
	v := t.mustAccept("valid block-signed APK", apk, min, max, scheme, chains)
	if r := v.Res.SigningBlockResult; r == nil || r.SchemeId != scheme || len(r.Errors) != 0 {
		t.Violate("signing block result does not match: %+v", r)
	}
	t.Class("scheme %d", scheme)
	for _, s := range append(append(append([]*SignerSpec{}, b.V2...), b.V3...), b.V31...) {
		t.Class("best alg %#x", s.Algs[s.best()])
		t.Class("key %s", s.Key.Name)
	}
	if len(chains) > 1 {
		t.Class("several signers")
	}
	t.NonTrivial(apk, min, max)
	t.Sample("%s", desc)
}

func init() {
	register("C01", "a case is a generated ZIP signed by our own signer with drawn schemes, keys, algorithm lists, chains, SDK ranges and requested range; every case is non-trivial (a complete signed APK that must be accepted with exactly its chains), distinct by APK bytes and range",
		Sub{"accept", 2600, 60000, func(t *T) { c01Case(t, zipOpts{maxComment: 300}, false) }},
		Sub{"accept-large", 80, 1500, func(t *T) { c01Case(t, zipOpts{maxEntries: 3, big: 100}, false) }},
		Sub{"bulky", 500, 8000, func(t *T) { bulkyCase(t, false) }},
	)
}

package main

import (
	"bytes"
	"fmt"
)

// Sub-checks that alter one byte at every position (or at evenly spread ones, where there are many) of what has to be
// protected.

// positions gives at most n of the offsets in [0,size) that ok accepts, spread over all of them.
func (t *T) positions(size, n int, ok func(int) bool) []int {
	var all []int
	for i := 0; i < size; i++ {
		if ok == nil || ok(i) {
			all = append(all, i)
		}
	}
	if len(all) <= n {
		return all
	}
	var r []int
	off := t.Uni("spread", len(all))
	for i := 0; i < n; i++ {
		r = append(r, all[(off+i*len(all)/n)%len(all)])
	}
	return r
}

// flips hands out a different single-bit change of b for each position; b is restored afterwards.
func (t *T) flips(b []byte, pos []int, f func(at int)) {
	seed := t.Seed("bits")
	bits := bulk(seed, len(pos))
	for i, p := range pos {
		x := byte(1) << (bits[i] & 7)
		b[p] ^= x
		f(p)
		b[p] ^= x
	}
}

func c02Every(t *T) {
	b := t.genBlockAPK(zipOpts{maxEntries: 2, maxSize: 60, maxComment: 20})
	min, max := t.genRange(b)
	apk := b.Bytes()
	if v := verify(apk, min, max); v.Err != nil {
		return // C01's business
	}
	head, tail := len(b.Sec.Contents), len(b.Sec.CD)+len(b.Sec.EOCD(0))
	pos := t.positions(len(apk), 700, func(i int) bool { return i < head || i >= len(apk)-tail })
	d := fmt.Sprintf("v2{%s} v3{%s} v31{%s} <%d;%d>", specsStr(b.V2), specsStr(b.V3), specsStr(b.V31), min, max)
	t.Note("%s", d)
	t.Sample("%s: %d positions of %d", d, len(pos), head+tail)
	t.Class("every position")
	t.flips(apk, pos, func(at int) {
		t.Evals(1)
		t.NonTrivial(apk, min, max)
		t.mustReject(fmt.Sprintf("%s: bit flipped at %d of %d (block at %d..%d)", d, at, len(apk), head, len(apk)-tail), apk, min, max)
	})
}

func c03Every(t *T) {
	c3 := t.c03Base()
	if c3 == nil {
		return
	}
	b := c3.b
	for _, l := range [][]*SignerSpec{b.V2, b.V3, b.V31} {
		for _, s := range l {
			i := s.best()
			s.Algs = []uint32{s.Algs[i]}
		}
	}
	b.Pad = false
	b.Make()
	apk := b.Bytes()
	if v := verify(apk, c3.min, c3.max); v.Err != nil {
		t.Violate("valid APK rejected: %v", v.Err)
	}
	// The block without the length of each list of records (what follows the records is not looked at). Of a block with
	// v3.1 records only these: without them, the v3 records may decide.
	head, tail := len(b.Sec.Contents), len(b.Sec.CD)+len(b.Sec.EOCD(0))
	free := map[int]bool{}
	at := head + 8
	for _, p := range b.Pairs() {
		from, to := at+12, at+16
		if c3.scheme == 31 && p.ID == idV31 {
			from = at
		} else if c3.scheme == 31 {
			from, to = at, at+12+len(p.Val)
		}
		for i := from; i < to; i++ {
			free[i] = true
		}
		at += 12 + len(p.Val)
	}
	pos := t.positions(len(apk), 400, func(i int) bool {
		return i >= head && i < len(apk)-tail && !free[i] && (c3.scheme != 31 || i >= head+8 && i < at)
	})
	d := fmt.Sprintf("scheme %d, v2{%s} v3{%s} v31{%s} <%d;%d>", c3.scheme, specsStr(b.V2), specsStr(b.V3), specsStr(b.V31), c3.min, c3.max)
	t.Note("%s", d)
	t.Sample("%s: %d positions of %d", d, len(pos), len(apk)-head-tail)
	t.Class("every position, scheme %d", c3.scheme)
	t.flips(apk, pos, func(at int) {
		t.Evals(1)
		t.NonTrivial(apk, c3.min, c3.max)
		t.mustReject(fmt.Sprintf("%s: bit flipped at %d of the block (%d bytes)", d, at-head, len(apk)-head-tail), apk, c3.min, c3.max)
	})
}

func c05Every(t *T) {
	j := t.genJar(zipOpts{maxEntries: 3, maxSize: 150, maxComment: 10}, 1)
	min, max := t.genV1Range()
	t.usableFor(j, min, max)
	j.Make()
	apk := j.Bytes()
	t.mustAccept("the untouched APK", apk, min, max, 1, nil)
	ok := map[int]string{}
	add := func(what string, from, to int) {
		for i := from; i < to; i++ {
			ok[i] = what
		}
	}
	spec := j.Spec()
	spec.Build()
	for _, e := range spec.Entries {
		if e.Deflate || e.NoCD {
			continue
		}
		switch {
		case e.Name == "META-INF/MANIFEST.MF":
			add("manifest", e.DataOff+len(j.Secs[0]), e.DataOff+len(e.Data))
		case e.Name == j.Signers[0].sfName():
			add("signature file", e.DataOff, e.DataOff+len(e.Data))
		case len(e.Name) >= 9 && e.Name[:9] == "META-INF/" || e.Name[len(e.Name)-1] == '/':
		default:
			add("entry", e.DataOff, e.DataOff+len(e.Data))
		}
	}
	pos := t.positions(len(apk), 500, func(i int) bool { return ok[i] != "" })
	d := fmt.Sprintf("%s <%d;%d>", jarStr(j), min, max)
	t.Note("%s", d)
	t.Sample("%s: %d positions", d, len(pos))
	t.Class("every position")
	t.flips(apk, pos, func(at int) {
		t.Evals(1)
		t.NonTrivial(apk, min, max)
		t.mustReject(fmt.Sprintf("%s: bit flipped at %d of %d (%s)", d, at, len(apk), ok[at]), apk, min, max)
	})
}

func c09Every(t *T) {
	b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 1, maxSize: 60})}
	k := t.genKey("k")
	chain := t.genChain(k)
	l := t.genLineage(t.Range("n", 2, 4), k, chain[0])
	s := &SignerSpec{Key: k, Algs: t.genAlgs(k, false)[:1], Chain: chain, V3: true, Min: 28, Max: anyMax}
	enc := l.Encode()
	s.Attrs = []Attr{{attrPoR, enc}}
	b.V3 = []*SignerSpec{s}
	b.Make()
	t.mustAccept("valid lineage", b.Bytes(), 28, anyMax, 3, nil)
	// flags and the last node's algorithm are free, nobody signed the first certificate
	free := map[int]bool{}
	add := func(from, n int) {
		for i := from; i < from+n; i++ {
			free[i] = true
		}
	}
	at := 4
	for i, n := range l.Nodes {
		size := 4 + 4 + len(n.Signed) + 4 + 4 + 4 + len(n.Sig)
		if i == 0 {
			add(at+8, len(n.Signed))
			add(at+8+len(n.Signed)+8, 4+len(n.Sig))
		}
		add(at+8+len(n.Signed), 4)
		if i == len(l.Nodes)-1 {
			add(at+8+len(n.Signed)+4, 4)
		}
		at += size
	}
	pos := t.positions(len(enc), 300, func(i int) bool { return !free[i] })
	d := fmt.Sprintf("lineage of %d nodes, signer %s", len(l.Nodes), k.Name)
	t.Note("%s", d)
	t.Sample("%s: %d positions of %d", d, len(pos), len(enc))
	t.Class("every position of a lineage")
	t.flips(enc, pos, func(at int) {
		b.RecV3 = makeAll(b.V3, b.D)
		apk := b.Bytes()
		t.Evals(1)
		t.NonTrivial(apk)
		t.mustReject(fmt.Sprintf("%s: bit flipped at %d of %d", d, at, len(enc)), apk, 28, anyMax)
	})
}

func c10Every(t *T) {
	s := t.genStampAPK(sha256Entry)
	if s == nil {
		return
	}
	for _, a := range s.algs { // one that every platform of the range knows
		if jcaLevel(a) <= s.min {
			s.algs = []uint32{a}
			break
		}
	}
	if len(s.algs) != 1 {
		return
	}
	p := t.genStamp(s)
	p.st.Order = []int32{s.needed()}
	p.st.Schemes = map[int32][]AlgData{s.needed(): signAll(s.key, s.algs, s.schemeDigests(s.needed()))}
	if !p.st.NoAttrs {
		p.sign(s, s.algs)
	}
	enc := p.st.Encode()
	if r := t.stampResult(s.desc, s.bytes(enc), s); r == nil || len(r.Errors) > 0 {
		t.Violate("%s: valid stamp: %s", s.desc, stampState(r))
	}
	pos := t.positions(len(enc), 300, func(i int) bool { return i >= 4 })
	t.Note("%s", s.desc)
	t.Sample("%s: %d positions of %d", s.desc, len(pos), len(enc))
	t.Class("every position of the stamp")
	t.flips(enc, pos, func(at int) {
		apk := s.bytes(enc)
		t.Evals(1)
		t.NonTrivial(apk, s.min, s.max)
		d := fmt.Sprintf("%s: bit flipped at %d of the stamp's %d bytes", s.desc, at, len(enc))
		if r := t.stampResult(d, apk, s); r == nil || len(r.Errors) == 0 {
			t.Violate("%s: %s", d, stampState(r))
		}
	})
}

func c11Every(t *T) {
	b, v2 := t.genFrostAPK()
	f, keys, _ := t.genFrosting(frostingHash(b.Sec, v2))
	f.entries, f.sigs = f.entries[:f.used+1], f.sigs[:f.used+1]
	f.pad = 0 // the unused bits of longer numbers do not matter
	for _, e := range f.entries {
		e.pad = 0
	}
	// nothing of disabled entries' signatures is looked at
	for i := range f.sigs[:f.used] {
		f.sigs[i] = nil
	}
	f.sign(func() *Key { return keys[f.entries[f.used].key] }())
	setFrostKeys(keys)
	defer setFrostKeys(nil)
	enc := f.encode()
	min, max := t.frostRange(b)
	d := fmt.Sprintf("frosting of %d entries, %d bytes of info, v2 %v, <%d;%d>", len(f.entries), len(f.proto), v2 != nil, min, max)
	at := t.Uni("at", 4)
	if r, _ := frostResult(b.withPair(Pair{idFrosting, enc}, at), min, max); r == nil || r.Error != nil {
		t.Violate("%s: %s", d, frostState(r))
	}
	t.Note("%s", d)
	pos := t.positions(len(enc), 300, nil)
	t.Sample("%s: %d positions of %d", d, len(pos), len(enc))
	t.Class("every position of the frosting")
	t.flips(enc, pos, func(i int) {
		apk := b.withPair(Pair{idFrosting, enc}, at)
		t.Evals(1)
		t.NonTrivial(apk, min, max)
		if r, _ := frostResult(apk, min, max); r == nil || r.Error == nil {
			t.Attach("apk", apk)
			t.Violate("%s: bit flipped at %d of %d: %s", d, i, len(enc), frostState(r))
		}
	})
	// and of the APK
	apk := b.withPair(Pair{idFrosting, enc}, at)
	head, tail := len(b.Sec.Contents), len(b.Sec.CD)+len(b.Sec.EOCD(0))
	pos = t.positions(len(apk), 200, func(i int) bool { return i < head || i >= len(apk)-tail })
	orig := append([]byte(nil), apk...)
	t.flips(apk, pos, func(i int) {
		t.Evals(1)
		t.NonTrivial(apk, min, max)
		if r, _ := frostResult(apk, min, max); r != nil && r.Error == nil && !bytes.Equal(apk, orig) {
			t.Attach("apk", apk)
			t.Violate("%s: bit flipped at %d of the APK's %d bytes: %s", d, i, len(apk), frostState(r))
		}
	})
}

package main

import "fmt"

// c23Count draws a number of signers around the limit.
func (t *T) c23Count() int {
	return pick(t, "n", []int{10, 11, 2, 9, 3, 1, 12, 5, 7, 13, 10, 11, 4, 6, 8, 20})
}

// c23V2: any number of v2 signers, at most one of them invalid.
func c23V2(t *T) {
	n := t.c23Count()
	b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 2, maxSize: 100})}
	for i := 0; i < n; i++ {
		var s *SignerSpec
		if i > 0 && t.Pct("same", 6) { // the same signer again
			o := b.V2[t.Uni("sameas", i)]
			s = &SignerSpec{Key: o.Key, Algs: o.Algs, Chain: o.Chain, Min: o.Min, Max: o.Max}
		} else {
			s = t.genSigner(false, false)
			s.Chain = append([][]byte{selfCert(s.Key, 60+i)}, s.Chain[1:]...)
		}
		b.V2 = append(b.V2, s)
	}
	b.Pad = t.Pct("pad", 20)
	b.Make()
	min, max := t.v2Range()
	var chains [][][]byte
	for _, s := range b.V2 {
		chains = append(chains, s.Chain)
	}
	apk := b.Bytes()
	t.Note("%d v2 signers <%d;%d> {%s}", n, min, max, specsStr(b.V2))
	t.NonTrivial(apk, min, max)
	t.Class("v2, %d signers", n)
	if n > 10 {
		t.Sample("%d v2 signers, all valid", n)
		t.mustReject(fmt.Sprintf("APK with %d v2 signers", n), apk, min, max)
		return
	}
	t.mustAccept(fmt.Sprintf("APK with %d valid v2 signers", n), apk, min, max, 2, chains)
	for k := 0; k < 3; k++ {
		i := t.Uni("bad", n)
		keep := b.RecV2[i]
		c := keep.clone()
		what := t.spoilOrBreak(c, b.V2[i], max)
		if what == "" {
			continue
		}
		b.RecV2[i] = c
		bad := b.Bytes()
		b.RecV2[i] = keep
		if string(bad) == string(apk) {
			continue
		}
		t.Evals(1)
		t.Class("v2, one of %d invalid", n)
		t.NonTrivial(bad, min, max)
		t.Sample("v2 signer %d of %d: %s", i+1, n, what)
		t.mustReject(fmt.Sprintf("signer %d of %d v2 signers invalid (%s)", i+1, n, what), bad, min, max)
	}
	t.c23List(b, idV2, b.RecV2, min, max)
}

// c23List: the list of the signers itself is damaged, all of the complete records in it are valid.
func (t *T) c23List(b *BlockAPK, id uint32, recs []*Signer, min, max int32) {
	val, what := t.breakSignerList(recs)
	bad := b.Sec.Assemble(encodeBlock(override(b.Pairs(), id, val)))
	t.Evals(1)
	t.Class("list of several signers damaged")
	t.NonTrivial(bad, min, max)
	t.Sample("%d signers in block %#x: %s", len(recs), id, what)
	t.mustReject(fmt.Sprintf("list of %d signers in block %#x damaged (%s)", len(recs), id, what), bad, min, max)
}

func (t *T) spoilOrBreak(s *Signer, sp *SignerSpec, max int32) string {
	if t.Pct("break", 45) {
		return t.breakSigner(s, sp, max)
	}
	return t.spoil(s, sp)
}

// v2Range draws a range with min >= 24 in which a v2-only APK is fine.
func (t *T) v2Range() (int32, int32) {
	min := int32(t.Range("min", 24, 36))
	max := int32(anyMax)
	if t.Pct("maxlow", 40) {
		max = int32(t.Range("max", int(min), 40))
	}
	return min, max
}

// c23V3: v3 signers partition the levels; all of them count, also those outside the requested range.
func c23V3(t *T) {
	n := t.Range("n", 2, 10)
	v31 := t.Pct("v31", 35)
	b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 1, maxSize: 100})}
	lo := int32(28)
	if v31 {
		b.RotMin = int32(t.Range("rot", 33, 36))
		b.V3 = t.genV3Signers(28, anyMax, false)
		lo = b.RotMin
	}
	var list []*SignerSpec
	cur := lo
	for i := 0; i < n; i++ {
		s := t.genSigner(true, false)
		s.Min, s.Max = cur, cur+int32(t.Uni("len", 3))
		if i == n-1 {
			s.Max = anyMax
		}
		cur = s.Max + 1
		list = append(list, s)
	}
	perm := make([]*SignerSpec, n)
	for i, k := range t.perm(n) {
		perm[i] = list[k]
	}
	recs := &b.RecV3
	if v31 {
		b.V31, recs = perm, &b.RecV31
	} else {
		b.V3 = perm
	}
	b.Make()
	min := int32(t.Range("min", int(lo), 45))
	max := int32(anyMax)
	if t.Pct("maxlow", 50) {
		max = int32(t.Range("max", int(min), 50))
	}
	var chains [][][]byte
	for _, s := range perm {
		chains = append(chains, s.Chain)
	}
	apk := b.Bytes()
	scheme := 3
	if v31 {
		scheme = 31
	}
	t.Note("%d scheme %d signers <%d;%d> {%s}", n, scheme, min, max, specsStr(perm))
	t.NonTrivial(apk, min, max)
	t.mustAccept(fmt.Sprintf("APK with %d valid scheme %d signers", n, scheme), apk, min, max, scheme, chains)
	for k := 0; k < 3; k++ {
		i := t.Uni("bad", n)
		keep := (*recs)[i]
		c := keep.clone()
		what := t.spoilOrBreak(c, perm[i], max)
		if what == "" {
			continue
		}
		(*recs)[i] = c
		bad := b.Bytes()
		(*recs)[i] = keep
		if string(bad) == string(apk) {
			continue
		}
		t.Evals(1)
		t.NonTrivial(bad, min, max)
		out := perm[i].Max < min || perm[i].Min > max
		t.Class("scheme %d, one of several invalid, outside the range: %v", scheme, out)
		t.Sample("scheme %d signer %d of %d <%d;%d> for <%d;%d>: %s", scheme, i+1, n, perm[i].Min, perm[i].Max, min, max, what)
		t.mustReject(fmt.Sprintf("signer %d of %d scheme %d signers invalid (%s)", i+1, n, scheme, what), bad, min, max)
	}
	id := uint32(idV3)
	if v31 {
		id = idV31
	}
	t.c23List(b, id, *recs, min, max)
}

func (t *T) c23Jar(n int) (*JarAPK, int32, int32) {
	j := t.genJar(zipOpts{maxEntries: 5, maxSize: 100}, 1)
	j.Signers = nil
	for i := 0; i < n; i++ {
		s := t.genJarSigner(fmt.Sprintf("%s%d", pick(t, "base", []string{"CERT", "k", "A-B_", "x.y"}), i))
		if i > 0 && t.Pct("same", 6) { // the same signer again
			o := j.Signers[t.Uni("sameas", i)]
			s.Key, s.Alg, s.Chain, s.Ext, s.Attrs = o.Key, o.Alg, o.Chain, o.Ext, false
		} else {
			s.Chain = [][]byte{selfCert(s.Key, 60+i)}
		}
		s.Order = nil
		j.Signers = append(j.Signers, s)
	}
	min, max := t.genV1Range()
	t.usableFor(j, min, max)
	return j, min, max
}

// c23V1: any number of v1 signers, at most one of them invalid.
func c23V1(t *T) {
	n := t.c23Count()
	j, min, max := t.c23Jar(n)
	j.Make()
	apk := j.Bytes()
	t.Note("%d v1 signers <%d;%d> %s", n, min, max, jarStr(j))
	t.NonTrivial(apk, min, max)
	t.Class("v1, %d signers", n)
	if n > 10 {
		t.Sample("%d v1 signers, all valid", n)
		t.mustReject(fmt.Sprintf("APK with %d v1 signers", n), apk, min, max)
		return
	}
	v := t.mustAccept(fmt.Sprintf("APK with %d valid v1 signers", n), apk, min, max, 1, nil)
	if !sameChains(v.Certs, j.chains()) {
		t.Violate("certificates %s reported, want %s", chainStr(v.Certs), chainStr(j.chains()))
	}
	i := t.Uni("bad", n)
	s := j.Signers[i]
	what := ""
	switch t.Uni("how", 6) {
	case 0:
		bit := t.Uni("bit", 1<<15)
		base := s.P7
		s.P7 = func(p *P7) {
			if base != nil {
				base(p)
			}
			for _, x := range p.Signers {
				x.FlipBit = 1 + bit
			}
		}
		s.MakeBlock()
		what = "signature bit flipped"
	case 1:
		s.SF, what = t.alter(s.SF)
		what = ".SF " + what
	case 2:
		k := t.otherKey(s.Key)
		old := s.Key
		s.Key = k
		if !k.v1Fits(s.Alg) {
			s.Alg, s.Attrs = defaultV1Alg(k), false
		}
		s.MakeBlock()
		s.Key = old
		what = "signed by another key"
	case 3: // validly signed, but for another MANIFEST.MF
		keep := j.MF
		secs := j.Secs
		j.MF = append(append([]byte(nil), keep...), []byte("Name: q\r\n\r\n")...)
		j.Secs = nil
		for k, x := range secs {
			if k == 0 && (s.Signtool || !s.MainAttr) || k > 0 {
				x = append(append([]byte(nil), x...), 'x')
			}
			j.Secs = append(j.Secs, x)
		}
		if s.NoEntryDg {
			s.NoEntryDg = false
		}
		j.MakeSF(s)
		s.MakeBlock()
		j.MF, j.Secs = keep, secs
		what = ".SF for another MANIFEST.MF"
	case 4:
		s.Block = s.Block[:t.Uni("cut", len(s.Block))]
		what = "block cut short"
	default:
		s.Extra, s.Order = nil, nil
		own := s.Chain
		s.Chain = [][]byte{selfCert(s.Key, 90)}
		base := s.P7
		s.P7 = func(p *P7) {
			if base != nil {
				base(p)
			}
			p.Certs = own // not the certificate that the SignerInfo names
		}
		s.MakeBlock()
		what = "certificate missing"
	}
	bad := j.Bytes()
	t.Class("v1, one of several invalid: %s", what)
	t.NonTrivial(bad, min, max)
	t.Sample("v1 signer %d of %d: %s", i+1, n, what)
	t.mustReject(fmt.Sprintf("signer %d of %d v1 signers invalid (%s)", i+1, n, what), bad, min, max)
}

// c23Cover: which signers cover which files.
func c23Cover(t *T) {
	n := t.Range("n", 1, 5)
	j, min, max := t.c23Jar(n)
	share := t.Pct("share", 40)            // some signers have the same certificate
	issued := share && t.Pct("issued", 50) // and maybe other ones above it
	pk := keyByName[pick(t, "parent", []string{"rsa1024-d", "ec256-d"})]
	tails := [][][]byte{nil, {selfCert(pk, 1)}, {interCert(pk, 1, keyByName["rsa1024-e"], 1)}, {interCert(pk, 1, keyByName["rsa1024-e"], 2)}}
	who, leaf, tail := make([]int, n), make([]int, n), make([]int, n)
	for i, s := range j.Signers {
		leaf[i] = i
		s.Key = t.genKey("ck")
		if share && i > 0 && t.Pct("like", 50) {
			leaf[i] = leaf[t.Uni("like who", i)]
			s.Key = j.Signers[leaf[i]].Key
		}
		s.Chain = [][]byte{selfCert(s.Key, 60+leaf[i])}
		if issued {
			tail[i] = t.Uni("tail", len(tails))
			s.Chain = append([][]byte{issuedCert(s.Key, 60+leaf[i], pk, 1)}, tails[tail[i]]...)
		}
		for who[i] = 0; leaf[who[i]] != leaf[i] || tail[who[i]] != tail[i]; {
			who[i]++
		}
		s.Extra, s.Order = nil, nil
		s.Alg, s.Attrs, s.Ext = defaultV1Alg(s.Key), false, extFor(s.Key)
		s.NoEntryDg = false
	}
	files := protected(j.Zip)
	sets := make([]int, len(files)) // bit per signer
	full := 1<<n - 1
	base := full
	if t.Pct("subset", 25) {
		base = 1 + t.Uni("base", full)
	}
	for i := range sets {
		sets[i] = base
	}
	for k := t.Uni("changes", 3); k > 0; k-- {
		i := t.Uni("file", len(files))
		if t.Pct("toggle", 60) {
			sets[i] ^= 1 << t.Uni("signer", n)
		} else {
			sets[i] = t.Uni("set", full+1)
		}
	}
	certs := func(x int) (m, c int) { // the certificates of a set of signers, and their number
		for i := range who {
			if x>>i&1 == 1 {
				m |= 1 << who[i]
				c++
			}
		}
		return
	}
	ok, open := true, true
	m0, c0 := certs(sets[0])
	for _, x := range sets {
		ok = ok && x == sets[0] && x != 0
		m, c := certs(x)
		open = open && m == m0 && c == c0 && x != 0
	}
	var want [][][]byte
	for i, s := range j.Signers {
		s.OmitSF = map[string]bool{}
		for k, f := range files {
			if sets[k]>>i&1 == 0 {
				s.OmitSF[j.Zip.Entries[f].Name] = true
			}
		}
		if len(s.OmitSF) == len(files) {
			s.Whole = true // an .SF without any digest is no good
		}
		if sets[0]>>i&1 == 1 {
			want = append(want, s.Chain)
		}
	}
	j.Make()
	apk := j.Bytes()
	t.Note("files covered by signers (bits) %b of %d <%d;%d> %s", sets, n, min, max, jarStr(j))
	t.Sample("files covered by signers (bits) %b of %d", sets, n)
	t.NonTrivial(apk, min, max)
	if ok {
		t.Class("all files covered by the same signers")
		v := t.mustAccept("every file covered by the same signers", apk, min, max, 1, nil)
		if !sameChains(v.Certs, want) {
			t.Violate("certificates %s reported, want %s", chainStr(v.Certs), chainStr(want))
		}
		return
	}
	if open { // other signers, but the same certificates
		t.Class("files covered by different signers with the same certificates")
		return
	}
	t.Class("files covered by different signers, some with the same certificate: %v", share)
	t.mustReject("files covered by different signers", apk, min, max)
}

// c23Both: the limit holds for v1 next to a valid v2 block where v1 is needed, and does not matter where it is not.
func c23Both(t *T) {
	n := pick(t, "n", []int{11, 10, 12, 2})
	j, _, _ := t.c23Jar(n)
	for _, s := range j.Signers {
		s.Digests = dedup(append(s.Digests, "SHA1"))
	}
	j.MFDigests = dedup(append(j.MFDigests, "SHA1"))
	j.Make()
	b := &BlockAPK{Zip: j.Spec()}
	b.V2 = append(b.V2, t.genSigner(false, false))
	b.Make()
	min := int32(pick(t, "min", []int{23, 24, 9, 18, 28}))
	max := int32(anyMax)
	apk := b.Bytes()
	t.Note("%d v1 signers, one v2 signer <%d;%d>", n, min, max)
	t.Sample("%d v1 signers, one v2 signer, minimum %d", n, min)
	t.NonTrivial(apk, min, max)
	t.Class("v1 and v2, %d v1 signers, v1 needed: %v", n, min < 24)
	if n > 10 && min < 24 {
		t.mustReject("v2 APK that needs v1, with too many v1 signers", apk, min, max)
		return
	}
	t.mustAccept("v2 APK with v1 signatures", apk, min, max, 2, [][][]byte{b.V2[0].Chain})
}

func init() {
	register("C23", "an APK with 1..20 v2 or v1 signers or 2..10 v3/v3.1 signers, all valid or exactly one invalid at any position, or v1 signers covering drawn subsets of the files; distinct by bytes and range",
		Sub{"v2", 2400, 40000, c23V2},
		Sub{"v3", 1200, 20000, c23V3},
		Sub{"v1", 2400, 40000, c23V1},
		Sub{"cover", 3000, 50000, c23Cover},
		Sub{"both", 400, 6000, c23Both})
}

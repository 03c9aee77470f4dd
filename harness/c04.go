package main

import "fmt"

// genV1Range draws an SDK range in which v1 decides (no signing block present).
func (t *T) genV1Range() (int32, int32) {
	minv := int32(pick(t, "v1.min", []int{-1, 1, 4, 8, 9, 14, 17, 18, 19, 21, 23, 24, 26, 28, 33}))
	maxv := int32(anyMax)
	if t.Pct("v1.maxlow", 50) {
		maxv = int32(pick(t, "v1.max", []int{4, 8, 9, 17, 18, 19, 23, 24, 25, 26, 28, 30, 33, 35}))
	}
	if minv > maxv {
		minv = maxv
	}
	return minv, maxv
}

// v1Usable tells whether the digest sets give some usable digest in the range.
func v1Usable(digests []string, min, max int32) bool {
	if max >= 18 {
		return true
	}
	for _, d := range digests {
		if d == "SHA1" {
			return true
		}
	}
	return false
}

// genSignedJar draws a correctly signed APK and a range that relies on v1.
func (t *T) genSignedJar(o zipOpts, maxSigners int) (*JarAPK, int32, int32) {
	j := t.genJar(o, maxSigners)
	min, max := t.genV1Range()
	t.usableFor(j, min, max)
	j.Make()
	return j, min, max
}

// usableFor adds SHA1 digests where platforms before 18 would find none, and keeps the declared minimum below max.
func (t *T) usableFor(j *JarAPK, min, max int32) {
	ok := v1Usable(j.MFDigests, min, max)
	for _, s := range j.Signers {
		ok = ok && v1Usable(s.Digests, min, max)
	}
	if !ok {
		j.MFDigests = append(j.MFDigests, "SHA1")
		j.MFDigests = dedup(j.MFDigests)
		for _, s := range j.Signers {
			s.Digests = dedup(append(s.Digests, "SHA1"))
		}
	}
	if min == anyMin && max < 24 {
		for i, e := range j.Zip.Entries {
			if e.Name == "AndroidManifest.xml" {
				j.Zip.Entries[i].Data = ManifestSpec{Min: i32p(int32(t.Range("low", 1, int(max))))}.Encode()
			}
		}
	}
}

func c04Case(t *T) {
	most := 4
	if t.Pct("crowd", 5) { // up to the ten signers Android allows
		most = -pick(t, "crowd.n", []int{10, 10, 9, 5, 6, 7, 8})
	}
	j, min, max := t.genSignedJar(zipOpts{maxEntries: 6, maxComment: 100, heavy: 4}, most)
	apk := j.Bytes()
	d := fmt.Sprintf("%s <%d;%d>", jarStr(j), min, max)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	v := t.mustAccept("valid v1 APK", apk, min, max, 1, nil)
	if !sameChains(v.Certs, j.chains()) {
		t.Violate("certificates %s reported, want %s", chainStr(v.Certs), chainStr(j.chains()))
	}
	for _, s := range j.Signers {
		t.Class("alg %s+%s", s.Alg.Digest, s.Alg.ID)
		t.Class("key %s", s.Key.Name)
		if s.Attrs {
			t.Class("signed attributes")
		}
		if s.BER != nil {
			t.Class("BER")
		}
		if s.Signtool {
			t.Class("signtool")
		}
		if !s.Whole {
			t.Class("per-entry digests only")
		}
	}
	t.Class("signers %d", len(j.Signers))
}

// c04Infos: several SignerInfos in one block file. From API level 24 on the first one that verifies counts, earlier
// platforms only look at the first one.
func c04Infos(t *T) {
	j := t.genJar(zipOpts{maxEntries: 3, plainNames: true}, 1)
	j.MFDigests, j.Signers[0].Digests = []string{"SHA1", "SHA-256"}, []string{"SHA1", "SHA-256"}
	s := j.Signers[0]
	n := t.Range("infos", 2, 4)
	type info struct {
		key *Key
		alg v1Alg
		bad int
	}
	var infos []info
	var certs [][]byte
	first := -1
	for i := 0; i < n; i++ {
		k := t.genKey("i.key")
		in := info{k, pick(t, "i.alg", v1AlgsFor(k)), 0}
		if t.Pct("i.bad", 55) {
			in.bad = t.Range("i.how", 1, 3)
		} else if first < 0 {
			first = i
		}
		infos = append(infos, in)
		certs = append(certs, selfCert(k, 30+i))
	}
	attrs := t.Pct("i.attrs", 50)
	s.Chain, s.Extra, s.Order = certs, nil, nil
	s.P7 = func(p *P7) {
		p.Signers = nil
		for i, in := range infos {
			si := &P7Signer{Key: in.key, Alg: in.alg, Cert: certs[i], SignedAtt: (attrs || in.bad > 1) && in.alg.plainDigest(), Params: true}
			switch {
			case in.bad == 2 && si.SignedAtt:
				si.BadDigest = true
			case in.bad == 3 && si.SignedAtt:
				si.BadType = true
			case in.bad != 0:
				si.BadSig = true
			}
			p.Signers = append(p.Signers, si)
		}
	}
	min, max := t.genV1Range()
	if min == anyMin && max < 24 {
		min = 4
	}
	if j.Zip.Entries[0].Name == "AndroidManifest.xml" && min == anyMin {
		m := int32(pick(t, "mmin", []int{9, 18, 23, 24, 26}))
		if m > max {
			m = max
		}
		j.Zip.Entries[0].Data = ManifestSpec{Min: i32p(m)}.Encode()
		min = anyMin
	}
	eff := min
	if min == anyMin {
		eff = 0
		if i := j.Zip.Entries[0]; i.Name == "AndroidManifest.xml" {
			eff = manifestMinOf(i.Data)
		}
	}
	// a content type mismatch is only noticed from API level 24 on
	bad := func(in info) bool { return in.bad != 0 && !(in.bad == 3 && max < 24 && in.alg.plainDigest()) }
	first = -1
	for i, in := range infos {
		if !bad(in) {
			first = i
			break
		}
	}
	j.Make()
	apk := j.Bytes()
	how := ""
	for _, in := range infos {
		how += fmt.Sprintf(" %s/%d", in.key.Name, in.bad)
	}
	t.Note("signer infos%s, <%d;%d> (effective minimum %d)", how, min, max, eff)
	t.Sample("signer infos%s, <%d;%d>", how, min, max)
	t.NonTrivial(apk, min, max)
	if first == 0 || first > 0 && eff >= 24 {
		t.Class("infos: number %d counts", first)
		v := t.mustAccept("v1 APK with several SignerInfos", apk, min, max, 1, nil)
		if want := [][][]byte{{certs[first]}}; !chainsEqual(v.Certs, want) {
			t.Violate("certificates %s reported, want %s (SignerInfo %d)", chainStr(v.Certs), chainStr(want), first)
		}
	} else {
		t.Class("infos: none counts")
		t.mustReject("v1 APK whose SignerInfos do not verify", apk, min, max)
	}
}

// c04Trim: RSA signatures whose leading zero octets were dropped (some signers do that).
func c04Trim(t *T) {
	k := keyByName[pick(t, "k", []string{"rsa1024-a", "rsa1031-a", "rsa1024-c"})]
	j := &JarAPK{Zip: t.genZip(zipOpts{maxEntries: 2}), MFDigests: []string{"SHA1"}}
	s := &JarSigner{Base: "CERT", Ext: ".RSA", Key: k, Alg: pick(t, "alg", v1AlgsFor(k)), Chain: [][]byte{selfCert(k, 0)}, Digests: []string{"SHA1"}, Whole: true}
	s.P7 = func(p *P7) { p.Signers[0].TrimZeros = true }
	j.Signers = []*JarSigner{s}
	j.MakeMF()
	seed := t.Seed("nonce")
	for i := 0; ; i++ {
		s.Main = []mfAttr{{"Nonce", fmt.Sprintf("%x-%d", seed, i)}}
		j.MakeSF(s)
		if k.SignHash(s.Alg.Hash, s.SF)[0] == 0 {
			break
		}
	}
	s.MakeBlock()
	apk := j.Bytes()
	t.NonTrivial(apk)
	t.Sample("%s %s nonce %s", k.Name, s.Alg.ID, s.Main[0].V)
	t.mustAccept("v1 APK with a shortened RSA signature", apk, 4, anyMax, 1, [][][]byte{s.Chain})
}

func dedup(s []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

func init() {
	register("C04", "a case is a generated ZIP signed by our own v1 signer (drawn keys, identifiers, chain, PKCS#7 form, manifest layout, digests) and an SDK range; every case is non-trivial (must be accepted with exactly its chains, or decided by which SignerInfos are good), distinct by bytes and range",
		Sub{"accept", 12000, 250000, c04Case},
		Sub{"infos", 3000, 60000, c04Infos},
		Sub{"trim", 160, 3200, c04Trim},
		Sub{"names", 3000, 60000, c04Names},
	)
}

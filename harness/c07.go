package main

import (
	"bytes"
	"fmt"
)

// state of one scheme in an APK
const (
	absent = iota
	valid
	invalid
)

var stateName = []string{"absent", "valid", "invalid"}

// policyAPK is an APK of which everything the platform rule looks at is known.
type policyAPK struct {
	man                 *ManifestSpec // nil: no AndroidManifest.xml
	v1, v2, v3, v31     int
	v1Chains, v2Chains  [][][]byte
	v3Chains, v31Chains [][][]byte
	strippedV2          bool
}

// rule is the platform rule of the verdict. scheme 0: rejected; undecided cases are not generated.
func (p *policyAPK) rule(min, max int32) (scheme int, chains [][][]byte, why string) {
	mmin, target, sandbox := int32(1), int32(0), int32(1)
	if p.man != nil {
		if p.man.Sandbox != nil {
			sandbox = *p.man.Sandbox
		}
		if !p.man.NoUsesSdk && (p.man.Min != nil || p.man.Target != nil) {
			if p.man.Min != nil {
				mmin = *p.man.Min
			}
			target = mmin
			if p.man.Target != nil {
				target = *p.man.Target
			}
		}
	}
	if min == anyMin {
		min = mmin
	}
	if min > max {
		return 0, nil, "minimum above maximum"
	}
	type cand struct {
		id, state int
		c         [][][]byte
	}
	var cands []cand
	if max >= 33 && p.v31 != absent {
		cands = append(cands, cand{31, p.v31, p.v31Chains})
	}
	if max >= 28 && p.v3 != absent {
		cands = append(cands, cand{3, p.v3, p.v3Chains})
	}
	if max >= 24 && p.v2 != absent {
		cands = append(cands, cand{2, p.v2, p.v2Chains})
	}
	scheme = 1
	if len(cands) > 0 {
		c := cands[0]
		if c.id == 31 && c.state == valid && p.v3 == invalid {
			return 0, nil, "the v3 block beneath v3.1 is invalid"
		}
		if c.id == 3 && c.state == invalid && min < 28 && len(cands) > 1 {
			c = cands[1]
		}
		if c.state == invalid {
			return 0, nil, fmt.Sprintf("the v%d block is invalid", c.id)
		}
		scheme, chains = c.id, c.c
		if min >= 24 {
			return scheme, chains, fmt.Sprintf("v%d decides", c.id)
		}
	}
	// v1 is needed
	if scheme == 1 {
		chains = p.v1Chains
		if max >= 26 && sandbox > 1 {
			return 0, nil, "sandbox version 2 with v1 only"
		}
		if target >= 30 && max >= target {
			return 0, nil, "target SDK of 30 or more with v1 only"
		}
	}
	switch p.v1 {
	case absent:
		return 0, nil, "v1 is needed and absent"
	case invalid:
		return 0, nil, "v1 is needed and invalid"
	}
	return scheme, chains, fmt.Sprintf("v1 needed, v%d reported", scheme)
}

func (t *T) genState(label string, pAbsent, pInvalid int) int {
	if t.Pct(label+".a", pAbsent) {
		return absent
	}
	if t.Pct(label+".i", pInvalid) {
		return invalid
	}
	return valid
}

var policyLevels = []int{1, 8, 17, 18, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36}

func (t *T) optLevel(label string, pct int) *int32 {
	if !t.Pct(label, pct) {
		return nil
	}
	return i32p(int32(pick(t, label+".v", policyLevels)))
}

// breakRecord makes a valid record one that must not be accepted at any level.
func (t *T) breakRecord(s *Signer) {
	switch t.Uni("break", 5) {
	case 0:
		for i := range s.Sigs {
			if d := s.Sigs[i].Data; len(d) > 0 {
				d = append([]byte(nil), d...)
				d[len(d)-1] ^= 1
				d[len(d)/2] ^= 4
				s.Sigs[i].Data = d
			}
		}
	case 1: // digests of other content, correctly signed
		var algs []uint32
		for i := range s.Digests {
			d := append([]byte(nil), s.Digests[i].Data...)
			if len(d) > 0 {
				d[0] ^= 0x80
			}
			s.Digests[i].Data = d
			algs = append(algs, s.Digests[i].Alg)
		}
		s.Sign(s.Key, algs)
	case 2:
		s.PubKey = keyByName["rsa2048-d"].SPKI
	case 3:
		s.SignedBytes = s.SignedBytes[:len(s.SignedBytes)-1]
	default:
		s.Raw = []byte{1, 2, 3, 4}
	}
}

func (t *T) genPolicyAPK() (*policyAPK, []byte, *BlockAPK) {
	p := &policyAPK{}
	noAPK := false
	j := &JarAPK{}
	if t.Pct("noman", 8) {
		j.Zip = t.genZip(zipOpts{maxEntries: 2, maxSize: 100, noManifest: true, plainNames: true})
	} else {
		m := &ManifestSpec{UTF8: t.Pct("m.utf8", 40), AsString: t.Pct("m.str", 20), NoUsesSdk: t.Pct("m.no", 8), Decoy: t.Uni("m.decoy", 8)}
		m.Min, m.Target = t.optLevel("m.min", 75), t.optLevel("m.target", 50)
		if t.Pct("m.sb", 35) {
			m.Sandbox = i32p(int32(t.Range("m.sbv", 1, 3)))
		}
		p.man = m
		j.Zip = t.genZip(zipOpts{maxEntries: 2, maxSize: 100, manifest: m, plainNames: true})
	}
	p.v1, p.v2 = t.genState("v1", 25, 25), t.genState("v2", 45, 25)
	if p.man == nil && p.v1 == valid {
		// v1 signatures of something that is neither an APK nor a bundle do not count
		if t.Pct("bundle", 60) {
			j.Zip.Entries = append(j.Zip.Entries, &ZEntry{Name: "BundleConfig.pb", Data: []byte("x")})
		} else {
			noAPK = true
		}
	}
	p.v3 = t.genState("v3", 50, 30)
	if p.v3 != absent {
		p.v31 = t.genState("v31", 65, 30)
	}
	z := j.Zip
	if p.v1 != absent {
		j.MFDigests = []string{"SHA1"}
		if t.Pct("sha2", 50) {
			j.MFDigests = []string{"SHA-256", "SHA1"}
		}
		for i := t.Range("v1n", 1, 2); i > 0; i-- {
			s := t.genJarSigner(fmt.Sprintf("S%d", i))
			s.Digests = []string{"SHA1"}
			j.Signers = append(j.Signers, s)
		}
		j.Make()
		p.v1Chains = j.chains()
		if p.v1 == invalid {
			switch t.Uni("v1bad", 4) {
			case 0:
				pr := protected(j.Zip)
				e := j.Zip.Entries[pr[len(pr)-1]]
				if e.Name == "AndroidManifest.xml" {
					j.Zip.Entries = append(j.Zip.Entries, &ZEntry{Name: "added", Data: []byte("x")})
				} else {
					e.Data = append(append([]byte(nil), e.Data...), '!')
				}
			case 1:
				s := j.Signers[0]
				s.SF = append(append([]byte(nil), s.SF...), []byte("\r\n")...)
			case 2:
				s := j.Signers[0]
				s.P7 = func(q *P7) {
					for _, x := range q.Signers {
						x.BadSig = true
					}
				}
				s.BER = nil
				s.MakeBlock()
			default:
				j.Zip.Entries = append(j.Zip.Entries, &ZEntry{Name: "unlisted.txt", Data: []byte("unlisted")})
			}
		}
		z = j.Spec()
	}
	if noAPK {
		p.v1 = invalid
	}
	b := &BlockAPK{Zip: z}
	if p.v2 != absent {
		for i := t.nSigners(); i > 0; i-- {
			b.V2 = append(b.V2, t.genSigner(false, false))
		}
	}
	if p.v3 != absent {
		b.V3 = t.genV3Signers(28, anyMax, false)
	}
	if p.v31 != absent {
		b.RotMin = 33
		b.V31 = t.genV3Signers(33, anyMax, false)
	}
	p.v2Chains, p.v3Chains, p.v31Chains = chainsOf(b.V2), chainsOf(b.V3), chainsOf(b.V31)
	b.Make()
	for _, x := range []struct {
		state int
		recs  []*Signer
	}{{p.v2, b.RecV2}, {p.v3, b.RecV3}, {p.v31, b.RecV31}} {
		if x.state == invalid {
			i := t.Uni("brk", len(x.recs))
			x.recs[i] = x.recs[i].clone()
			t.breakRecord(x.recs[i])
		}
	}
	b.Order = t.perm(b.nPairs())
	b.Pad = t.Pct("pad", 20)
	var apk []byte
	if b.nPairs() == 0 {
		apk = b.Sec.Assemble(nil)
		if t.Pct("emptyblock", 30) {
			apk = b.Sec.Assemble(encodeBlock([]Pair{{0x71777777, []byte("{}")}}))
		}
	} else {
		apk = b.Bytes()
		// an empty or garbage pair instead of an invalid block
		if t.Pct("garbage", 10) {
			ps := b.Pairs()
			for i := range ps {
				if ps[i].ID == idV2 && p.v2 == invalid || ps[i].ID == idV3 && p.v3 == invalid || ps[i].ID == idV31 && p.v31 == invalid {
					ps[i].Val = pick(t, "garb", [][]byte{{}, {0}, {0, 0, 0, 0}, {4, 0, 0, 0, 0, 0, 0, 0}, {0xff, 0xff, 0xff, 0x7f}, bytes.Repeat([]byte{0xff}, 40)})
				}
			}
			apk = b.Sec.Assemble(encodeBlock(ps))
		}
	}
	return p, apk, b
}

// undecided are the ranges for which neither the documentation nor the platform fixes one verdict.
func (p *policyAPK) undecided(min, max int32) bool {
	m := min
	if m == anyMin {
		m = 1
		if p.man != nil && !p.man.NoUsesSdk && p.man.Min != nil {
			m = *p.man.Min
		}
	}
	if m > max {
		return false
	}
	// v3 without v2 while platforms 24..27 are in the range: those platforms need v1
	if p.v3 != absent && p.v2 == absent && m >= 24 && m < 28 && max >= 28 {
		return true
	}
	// a broken v2 beneath a v3 that counts, while platforms 24..27 are in the range
	if p.v2 == invalid && p.v3 == valid && m < 28 && max >= 28 {
		return true
	}
	// v3.1 APKs whose v3/v3.1 fails and whose v2 could still serve the platforms below 28
	if max >= 33 && p.v31 != absent && (p.v31 == invalid || p.v3 == invalid) && p.v2 == valid && m < 28 {
		return true
	}
	return false
}

func c07Case(t *T) {
	p, apk, b := t.genPolicyAPK()
	man := "none"
	if p.man != nil {
		str := func(v *int32) string {
			if v == nil {
				return "-"
			}
			return itoa(*v)
		}
		man = fmt.Sprintf("min=%s target=%s sandbox=%s nosdk=%v", str(p.man.Min), str(p.man.Target), str(p.man.Sandbox), p.man.NoUsesSdk)
	}
	d := fmt.Sprintf("v1 %s, v2 %s, v3 %s, v3.1 %s, manifest {%s}", stateName[p.v1], stateName[p.v2], stateName[p.v3], stateName[p.v31], man)
	t.Note("%s; v2{%s} v3{%s} v31{%s}", d, specsStr(b.V2), specsStr(b.V3), specsStr(b.V31))
	for i := t.Range("ranges", 2, 5); i > 0; i-- {
		min, max := int32(pick(t, "min", policyLevels)), int32(anyMax)
		if t.Pct("anymin", 45) {
			min = anyMin
		}
		if t.Pct("maxlow", 70) {
			max = int32(pick(t, "max", policyLevels))
		}
		if max < min && t.Pct("swap", 85) {
			min, max = max, min
		}
		if p.undecided(min, max) {
			t.Class("range left undecided")
			continue
		}
		if max < 4 {
			max = 4
		}
		scheme, chains, why := p.rule(min, max)
		t.Evals(1)
		t.NonTrivial(apk, min, max)
		t.Class("%s", why)
		t.Sample("%s <%d;%d>: %s", d, min, max, why)
		t.Note("<%d;%d>: %s", min, max, why)
		if scheme == 0 {
			t.mustReject(d+": "+why, apk, min, max)
			continue
		}
		v := t.mustAccept(d+": "+why, apk, min, max, scheme, nil)
		if !sameChains(v.Certs, chains) {
			t.Violate("%s: certificates %s reported for <%d;%d>, want %s", d, chainStr(v.Certs), min, max, chainStr(chains))
		}
		// the default entry points use the unbounded range
	}
}

func init() {
	register("C07", "a case is an APK with a drawn mix of absent, valid and broken v1/v2/v3/v3.1 signatures and a drawn AndroidManifest.xml, judged for one SDK range by the table of the platform rule; every judged (APK, range) pair is non-trivial, distinct by bytes and range",
		Sub{"table", 12000, 300000, c07Case},
	)
}

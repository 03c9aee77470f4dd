package main

import (
	"bytes"
	"crypto"
	"crypto/x509"
	"fmt"
	"strings"
)

// markChains gives every signer a certificate of its own, so that identities can be told apart.
func markChains(specs []*SignerSpec, variant int) {
	for i, s := range specs {
		s.Chain = [][]byte{selfCert(s.Key, variant+i)}
	}
}

// onlyFrom checks that everything the result reports comes from the allowed chains.
func (t *T) onlyFrom(what string, v Verdict, allowed [][][]byte, lineages []*Lineage) {
	has := func(c [][]byte) bool {
		for _, a := range allowed {
			if chainsEqual([][][]byte{c}, [][][]byte{a}) {
				return true
			}
		}
		return false
	}
	check := func(where string, chains [][]*x509.Certificate) {
		for _, c := range rawChains(chains) {
			if !has(c) {
				t.Violate("%s: accepted with the chain %s in %s, which is none of the APK's own signers' %s", what, chainStr([][][]byte{c}), where, chainStr(allowed))
			}
		}
	}
	check("SignerCerts", v.Res.SignerCerts)
	if len(v.Res.SignerCerts) == 0 {
		t.Violate("%s: accepted without any certificate", what)
	}
	r := v.Res.SigningBlockResult
	if r == nil {
		return
	}
	check("SigningBlockResult", r.Certs)
	for _, x := range r.ExtraResults {
		check("ExtraResults", x.Certs)
	}
	if l := r.SigningLineage; l != nil {
		ok := false
		for _, a := range lineages {
			if len(a.Nodes) >= len(l.Nodes) {
				same := true
				for i, n := range l.Nodes {
					same = same && bytes.Equal(n.SigningCert.Raw, a.Nodes[i].Cert)
				}
				ok = ok || same
			}
		}
		if !ok {
			t.Violate("%s: accepted with a signing lineage that is not the APK's", what)
		}
	}
}

func lineageOf(specs []*SignerSpec) []*Lineage {
	var r []*Lineage
	for _, s := range specs {
		if s.Lin != nil {
			r = append(r, s.Lin)
		}
	}
	return r
}

// schemes draws block signers; the certificates are marked where no lineage fixes them.
func (t *T) genSchemes(b *BlockAPK, variant int, combo string) {
	verity := t.Pct("verity", 30)
	if strings.Contains(combo, "2") {
		for i := pick(t, "n2", []int{1, 2, 1, 2, 3}); i > 0; i-- {
			b.V2 = append(b.V2, t.genSigner(false, verity))
		}
		markChains(b.V2, variant)
	}
	mk3 := func(lo int32, v int) *SignerSpec {
		s := t.genSigner(true, verity)
		s.Min, s.Max = lo, anyMax
		markChains([]*SignerSpec{s}, v)
		if t.Pct("lin", 35) {
			s.Lin = t.genLineage(t.Range("ln", 1, 3), s.Key, s.Chain[0])
			s.Attrs = append(s.Attrs, Attr{attrPoR, s.Lin.Encode()})
		}
		return s
	}
	if strings.Contains(combo, "3") {
		b.V3 = append(b.V3, mk3(28, variant+4))
	}
	if strings.Contains(combo, "r") {
		b.RotMin = 33
		b.V31 = append(b.V31, mk3(33, variant+6))
	}
}

func c08Block(t *T) {
	var z *ZipSpec
	var v1 [][][]byte
	if t.Pct("v1", 50) {
		j := t.genJar(zipOpts{maxEntries: 2, maxSize: 200, manifest: &ManifestSpec{Min: i32p(int32(pick(t, "mmin", []int{9, 21, 24, 28})))}}, 1)
		j.MFDigests, j.Signers[0].Digests = dedup(append(j.MFDigests, "SHA1")), dedup(append(j.Signers[0].Digests, "SHA1"))
		j.Make()
		z, v1 = j.Spec(), j.chains()
	} else {
		z = t.genZip(zipOpts{maxEntries: 2, maxSize: 200})
	}
	a := &BlockAPK{Zip: z}
	if v1 == nil || !t.Pct("noblock", 20) {
		t.genSchemes(a, 60, pick(t, "a", []string{"2", "3", "23", "23", "3r", "23r"}))
	}
	a.Make()
	// the other APK has the same files, but for one byte somewhere
	bz := z.clone()
	e := bz.Entries[t.Uni("be", len(bz.Entries))]
	e.Data = append(append([]byte(nil), e.Data...), 0)
	b := &BlockAPK{Zip: bz}
	t.genSchemes(b, 80, "23r")
	b.Make()

	insert := func(list []*Signer, s *Signer) []*Signer {
		i := t.Uni("pos", len(list)+1)
		return append(list[:i:i], append([]*Signer{s}, list[i:]...)...)
	}
	foreign2, foreign3, foreign31 := b.RecV2[0], b.RecV3[0], b.RecV31[0]
	var ops []string
	var extra []Pair
	c := *a
	for n := t.Range("ops", 1, 2); n > 0; n-- {
		op := ""
		switch t.Uni("op", 15) {
		case 0:
			c.RecV2 = insert(c.RecV2, foreign2)
			op = "foreign v2 record inserted"
		case 1:
			c.RecV3 = insert(c.RecV3, foreign3)
			op = "foreign v3 record inserted"
		case 2:
			c.RecV31 = insert(c.RecV31, foreign31)
			op = "foreign v3.1 record inserted"
		case 3:
			c.RecV3 = []*Signer{foreign3}
			op = "v3 block replaced by a foreign one"
		case 4:
			c.RecV31 = []*Signer{foreign31}
			op = "v3.1 block replaced by a foreign one"
		case 5:
			c.RecV2 = []*Signer{foreign2}
			op = "v2 block replaced by a foreign one"
		case 6: // certificate inserted without signing
			l := pick(t, "lst", [][]*Signer{c.RecV2, c.RecV3, c.RecV31})
			if len(l) == 0 {
				continue
			}
			i := t.Uni("i", len(l))
			s := l[i].clone()
			s.Certs = insertBytes(s.Certs, foreign2.Certs[0], t.Uni("cpos", len(s.Certs)+1))
			s.SignedBytes = s.EncodeSigned()
			l = append([]*Signer(nil), l...)
			l[i] = s
			switch {
			case s.V3 && len(c.RecV31) > 0 && t.Pct("in31", 50):
				c.RecV31 = l
			case s.V3:
				c.RecV3 = l
			default:
				c.RecV2 = l
			}
			op = "foreign certificate inserted into a record"
		case 7: // own signed data under the foreign key
			s := b.RecV2[0].clone()
			if len(c.RecV2) == 0 {
				continue
			}
			s.SignedBytes = append([]byte(nil), c.RecV2[0].SignedBytes...)
			c.RecV2 = insert(c.RecV2, s)
			op = "foreign record with this APK's signed data"
		case 8: // foreign certificate, public key and digests of this content; signature of the foreign record
			s := b.RecV3[0].clone()
			m := b.V3[0].Make(a.D)
			s.SignedBytes = m.SignedBytes
			c.RecV3 = insert(c.RecV3, s)
			op = "foreign record rebuilt for this content with its old signature"
		case 9: // the attacker's own key signs a record that shows the foreign certificate
			sp := *t.genSigner(true, false)
			if sp.Key == b.V3[0].Key {
				continue
			}
			sp.Min, sp.Max = 28, anyMax
			op = "record of another key with the foreign certificate"
			if t.Pct("behind", 50) { // its own certificate stands behind the foreign one
				sp.Chain = append([][]byte{foreign3.Certs[0]}, sp.Chain...)
				op += " before its own"
			} else {
				sp.Chain = [][]byte{foreign3.Certs[0]}
			}
			c.RecV3 = []*Signer{sp.Make(a.D)}
		case 10:
			sp := *t.genSigner(false, false)
			if sp.Key == b.V2[0].Key {
				continue
			}
			if t.Pct("behind", 50) {
				sp.Chain = append([][]byte{foreign2.Certs[0]}, sp.Chain...)
				s := sp.Make(a.D)
				if t.Pct("alone", 50) {
					c.RecV2 = []*Signer{s}
				} else {
					c.RecV2 = insert(c.RecV2, s)
				}
				op = "v2 record of another key with the foreign certificate before its own"
				break
			}
			sp.Chain = [][]byte{foreign2.Certs[0]}
			s := sp.Make(a.D)
			s.PubKey = foreign2.PubKey
			c.RecV2 = insert(c.RecV2, s)
			op = "record of another key with the foreign certificate and public key"
		case 11: // foreign block as a second pair
			switch t.Uni("dup", 3) {
			case 0:
				extra = append(extra, Pair{idV2, encodeSigners(b.RecV2)})
			case 1:
				extra = append(extra, Pair{idV3, encodeSigners(b.RecV3)})
			default:
				extra = append(extra, Pair{idV31, encodeSigners(b.RecV31)})
			}
			op = fmt.Sprintf("foreign pair %#x added", extra[len(extra)-1].ID)
		case 12: // foreign v3 record with an unsigned range that leaves it out
			s := foreign3.clone()
			s.Min, s.Max = int32(pick(t, "omin", []int{1, 34, 40})), int32(pick(t, "omax", []int{27, 33, 41, anyMax}))
			c.RecV3 = insert(c.RecV3, s)
			op = "foreign v3 record with another SDK range"
		case 13: // foreign lineage in an own record is not possible without signing; its own lineage on a foreign record
			if len(c.RecV3) == 0 {
				continue
			}
			s := c.RecV3[0].clone()
			s.Attrs = append([]Attr(nil), foreign3.Attrs...)
			l := t.genLineage(2, b.V3[0].Key, b.V3[0].Chain[0])
			s.Attrs = append(s.Attrs, Attr{attrPoR, l.Encode()})
			s.SignedBytes = s.EncodeSigned()
			c.RecV3 = append([]*Signer{s}, c.RecV3[1:]...)
			op = "foreign lineage in an own v3 record"
		default: // foreign record without signatures / digests
			s := foreign2.clone()
			switch t.Uni("strip", 3) {
			case 0:
				s.Sigs = nil
			case 1:
				s.Digests, s.Sigs = nil, nil
				s.SignedBytes = s.EncodeSigned()
			default:
				s.Sigs = []AlgData{{0x9999, []byte{1}}}
				s.Digests = []AlgData{{0x9999, []byte{1}}}
				s.SignedBytes = s.EncodeSigned()
			}
			c.RecV2 = insert(c.RecV2, s)
			op = "foreign v2 record without usable signatures"
		}
		ops = append(ops, op)
		t.Class("%s", op)
	}
	ps := append(c.Pairs(), extra...)
	if len(ops) == 0 || len(ps) == 0 {
		return
	}
	q := make([]Pair, len(ps))
	for i, k := range t.perm(len(ps)) {
		q[i] = ps[k]
	}
	apk := a.Sec.Assemble(encodeBlock(q))
	allowed := append(append(append(append([][][]byte{}, v1...), chainsOf(a.V2)...), chainsOf(a.V3)...), chainsOf(a.V31)...)
	lins := append(lineageOf(a.V3), lineageOf(a.V31)...)
	t.Note("v1=%v v2{%s} v3{%s} v31{%s}; %s", v1 != nil, specsStr(a.V2), specsStr(a.V3), specsStr(a.V31), strings.Join(ops, ", "))
	t.Attach("apk", apk)
	for k := 0; k < 4; k++ {
		min := int32(pick(t, "min", []int{-1, 9, 21, 23, 24, 26, 27, 28, 31, 33, 34}))
		max := int32(pick(t, "max", []int{23, 24, 27, 28, 32, 33, 35, anyMax, anyMax}))
		if min > max {
			continue
		}
		t.Evals(1)
		t.NonTrivial(apk, min, max)
		d := fmt.Sprintf("%s, <%d;%d>", strings.Join(ops, ", "), min, max)
		t.Sample("%s", d)
		v := verify(apk, min, max)
		if v.Err != nil {
			t.Class("rejected")
			continue
		}
		t.Class("accepted with its own signers, scheme %d", v.Scheme)
		t.onlyFrom(d, v, allowed, lins)
	}
}

func insertBytes(l [][]byte, b []byte, at int) [][]byte {
	return append(l[:at:at], append([][]byte{b}, l[at:]...)...)
}

// twin is a certificate of k with the issuer, subject and serial number of other.
func twin(k *Key, other []byte) []byte {
	tbs := mustNode(other).kids[0]
	i := 0
	if tbs.kids[0].id[0] == 0xa0 {
		i = 1
	}
	iss, ser := issuerSerial(other)
	c := &CertSpec{Serial: mustNode(ser).content, Issuer: iss, Subject: tbs.kids[i+4].encode(nil), NotBefore: utcTime("150101000000Z"), NotAfter: utcTime("450101000000Z"),
		SPKI: k.SPKI, SignKey: k, Hash: crypto.SHA256}
	return c.DER()
}

func c08V1(t *T) {
	j := t.genJar(zipOpts{maxEntries: 3, maxSize: 200}, 2)
	min, max := t.genV1Range()
	t.usableFor(j, min, max)
	for i, s := range j.Signers {
		s.Chain, s.Extra, s.Order = [][]byte{selfCert(s.Key, 60+i)}, nil, nil
	}
	j.Make()
	allowed := j.chains()
	// the foreign signer and what it signed: an APK that differs in one file
	fj := &JarAPK{Zip: j.Zip.clone(), MFDigests: j.MFDigests, MFLayout: j.MFLayout}
	if p := protected(fj.Zip); len(p) > 0 {
		e := fj.Zip.Entries[pick(t, "fe", p)]
		e.Data = append(append([]byte(nil), e.Data...), 1)
	}
	f := t.genJarSigner("FOREIGN")
	f.Chain, f.Extra, f.Order = [][]byte{selfCert(f.Key, 80)}, nil, nil
	f.Digests = j.Signers[0].Digests
	if t.Pct("nover", 40) { // something the foreign signer signed that is no complete signature file
		f.NoVersion = true
	}
	fj.Signers = []*JarSigner{f}
	fj.Make()
	files := []*ZEntry{}
	add := func(name string, data []byte) { files = append(files, &ZEntry{Name: name, Data: data}) }
	s := j.Signers[t.Uni("s", len(j.Signers))]
	hook := func(h func(p *P7)) {
		base := s.P7
		s.P7 = func(p *P7) {
			if base != nil {
				base(p)
			}
			h(p)
		}
		s.MakeBlock()
	}
	if s.Key == f.Key {
		return
	}
	leafOnly := false
	op := ""
	switch t.Uni("op", 13) {
	case 0:
		add("META-INF/FOREIGN.SF", f.SF)
		add("META-INF/FOREIGN"+f.Ext, f.Block)
		op = "foreign .SF and block"
	case 1:
		add("META-INF/FOREIGN.SF", s.SF)
		add("META-INF/FOREIGN"+f.Ext, f.Block)
		op = "foreign block with a copy of the own .SF"
	case 2:
		ext := pick(t, "ext", []string{".RSA", ".DSA", ".EC"})
		if ext == s.Ext {
			return
		}
		add("META-INF/"+s.Base+ext, f.Block)
		op = "foreign block for the own .SF, next to the own one"
	case 3:
		add("META-INF/x/"+s.Base+".SF", f.SF)
		add("META-INF/x/"+s.Base+s.Ext, f.Block)
		op = "foreign signature of the same base name in a subdirectory"
	case 4:
		at := t.Uni("at", 2)
		hook(func(p *P7) { p.Certs = insertBytes(p.Certs, f.Chain[0], at*len(p.Certs)) })
		op = "foreign certificate in the own block"
	case 5: // a foreign SignerInfo
		at := t.Uni("at", 2)
		hook(func(p *P7) {
			p.Certs = append(p.Certs, f.Chain[0])
			p.Raw = append(p.Raw, RawInfo{at, (&P7Signer{Key: f.Key, Alg: f.Alg, Cert: f.Chain[0], SignedAtt: f.Attrs, Params: true}).DER(f.SF)})
		})
		op = "foreign SignerInfo in the own block"
	case 6: // a certificate with the names and serial number of the own one
		at := t.Uni("at", 2)
		tw := twin(f.Key, s.Chain[0])
		hook(func(p *P7) { p.Certs = insertBytes(p.Certs, tw, at*len(p.Certs)) })
		op = "twin of the own certificate by the foreign key"
	case 7: // the attacker's own valid signature shows the foreign certificate, by a twin
		at := t.Uni("at", 2)
		tw := twin(s.Key, f.Chain[0])
		s.Chain = [][]byte{tw}
		allowed = j.chains()
		hook(func(p *P7) { p.Certs = insertBytes(p.Certs, f.Chain[0], at*len(p.Certs)) })
		op = "signature by a twin of the foreign certificate, with that certificate"
	case 8: // the SignerInfo names the foreign certificate, signed by another key
		hook(func(p *P7) {
			p.Certs = append(p.Certs, f.Chain[0])
			for _, i := range p.Signers {
				i.Cert = f.Chain[0]
			}
		})
		op = "SignerInfo naming the foreign certificate"
	case 9: // issuer by name only
		c := defaultCert(s.Key, "issued by name", 4711)
		c.Issuer = mustNode(twin(s.Key, f.Chain[0])).kids[0].kids[5].encode(nil)
		s.Chain = [][]byte{c.DER()}
		allowed = j.chains()
		leafOnly = true
		hook(func(p *P7) { p.Certs = append(p.Certs, f.Chain[0]) })
		op = "own certificate that names the foreign one as issuer"
	case 10:
		add("META-INF/FOREIGN.SF", f.SF)
		add("META-INF/FOREIGN"+f.Ext, s.Block)
		add("META-INF/"+s.Base+".DSA2", f.Block)
		op = "own block for the foreign .SF"
	case 11:
		s.SF, s.Block = f.SF, f.Block
		allowed = nil
		for _, x := range j.Signers {
			if x != s {
				allowed = append(allowed, x.Chain)
			}
		}
		op = "foreign .SF and block instead of the own"
	default: // foreign signature over the attributes is handed over as a signature file
		f.NoVersion = true
		f.SF = []byte("Hello: world\r\n\r\n")
		if t.Pct("entries", 60) {
			for _, e := range j.Zip.Entries {
				f.SF = append(f.SF, []byte("Name: "+e.Name+"\r\nX: y\r\n\r\n")...)
			}
		}
		f.MakeBlock()
		add("META-INF/FOREIGN.SF", f.SF)
		add("META-INF/FOREIGN"+f.Ext, f.Block)
		op = "unrelated text signed by the foreign signer"
	}
	z := j.Spec()
	for _, e := range files {
		at := t.Uni("at", len(z.Entries)+1)
		z.Entries = append(z.Entries[:at:at], append([]*ZEntry{e}, z.Entries[at:]...)...)
	}
	apk := z.Build().Assemble(nil)
	t.Attach("apk", apk)
	d := fmt.Sprintf("%s; %s; foreign %s; <%d;%d>", op, jarStr(j), f, min, max)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	v := verify(apk, min, max)
	if v.Err != nil {
		t.Class("%s: rejected", op)
		return
	}
	t.Class("%s: accepted", op)
	if leafOnly {
		for _, c := range v.Certs {
			ok := false
			for _, a := range allowed {
				ok = ok || bytes.Equal(a[0], c[0])
			}
			if !ok {
				t.Violate("%s: accepted with the foreign leaf %s", d, certID(c[0]))
			}
		}
		return
	}
	t.onlyFrom(d, v, allowed, nil)
}

func init() {
	register("C08", "a case is a validly signed APK into which records, pairs, certificates, SignerInfos or signature files of a signer that signed other content were grafted, judged for several SDK ranges: an accepted result may only report the APK's own signers; every (APK, range) pair is non-trivial, distinct by bytes and range; classes count how many were accepted",
		Sub{"block", 5000, 100000, c08Block},
		Sub{"v1", 6000, 120000, c08V1},
	)
}

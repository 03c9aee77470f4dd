package main

import (
	"bytes"
	"fmt"
	"strings"
)

// foreign returns a key of the given kind other than k (any kind if kind is "").
func (t *T) foreign(k *Key, kind string) *Key {
	for {
		f := keyByName[pick(t, "foreign", commonKeys)]
		if f != k && (kind == "" || f.Kind == kind) {
			return f
		}
	}
}

// spoil alters one authenticated field of a valid record so that it must not be accepted.
func (t *T) spoil(s *Signer, sp *SignerSpec) string {
	best := sp.best()
	algs := append([]uint32(nil), sp.Algs...)
	flip := func(b []byte, label string) []byte {
		c := append([]byte(nil), b...)
		c[t.Uni(label, len(c))] ^= byte(1 << t.Uni("bit", 8))
		return c
	}
	reenc := func() { s.SignedBytes = s.EncodeSigned() }
	otherAlg := func(not uint32) uint32 {
		for {
			id := pick(t, "otheralg", []uint32{0x101, 0x102, 0x103, 0x104, 0x201, 0x202, 0x301, 0x421, 0x423, 0x425, 0x9999, 0})
			if id != not {
				return id
			}
		}
	}
	n := 24
	if sp.V3 {
		n = 30
	}
	switch t.Uni("field", n) {
	case 0, 1, 2:
		s.SignedBytes = flip(s.SignedBytes, "sdpos")
		return "signed data bit flipped"
	case 3, 4:
		s.Sigs[best].Data = flip(s.Sigs[best].Data, "sigpos")
		return "signature bit flipped"
	case 5:
		d := s.Sigs[best].Data
		switch t.Uni("sigedit", 14) {
		case 8, 9, 10, 11, 12, 13: // made with the right key, but not as the algorithm says
			a := algByID(s.Sigs[best].Alg)
			var what string
			s.Sigs[best].Data, what = t.oddSignature(s.Key, a.Hash, a.PSS, s.SignedBytes)
			t.Class("odd signature", a.Kind+": "+what)
			return "signature malformed: " + what
		case 6, 7: // not a pair of numbers
			v := dint(int64(t.Uni("rs", 3)))
			s.Sigs[best].Data = pick(t, "notpair", [][]byte{dseq(), dseq(v), v, dset(v, v), doct(d), dnull(), dseq(dnull(), dnull()), dseq(dseq(v, v)), dseq(v, dnull()), d[:len(d)/2]})
		case 0:
			s.Sigs[best].Data = d[:len(d)-1]
		case 1:
			s.Sigs[best].Data = nil
		case 2:
			s.Sigs[best].Data = bytes.Repeat([]byte{0}, len(d))
		case 3:
			s.Sigs[best].Data = d[1:]
		case 4:
			s.Sigs[best].Data = bulk(t.Seed("rndsig"), len(d))
		default: // r = s = 0 and similar
			v := dint(int64(t.Uni("rs", 2)))
			s.Sigs[best].Data = dseq(v, v)
		}
		return "signature replaced"
	case 6:
		s.Sigs[best].Alg = otherAlg(s.Sigs[best].Alg)
		return "algorithm id of the signature changed"
	case 7:
		i := t.Uni("di", len(s.Digests))
		s.Digests[i].Alg = otherAlg(s.Digests[i].Alg)
		s.Sign(s.Key, algs)
		return "algorithm id of a digest changed, re-signed"
	case 8:
		if len(s.Sigs) < 2 {
			return ""
		}
		i := t.Uni("si", len(s.Sigs)-1)
		s.Sigs[i], s.Sigs[i+1] = s.Sigs[i+1], s.Sigs[i]
		return "signatures reordered"
	case 9:
		if len(s.Sigs) < 2 {
			return ""
		}
		i := t.Uni("si", len(s.Digests)-1)
		s.Digests[i], s.Digests[i+1] = s.Digests[i+1], s.Digests[i]
		s.Sign(s.Key, algs)
		return "digests reordered, re-signed"
	case 10:
		i := t.Uni("si", len(s.Sigs))
		s.Sigs = append(s.Sigs[:i:i], s.Sigs[i+1:]...)
		return "signature removed"
	case 11:
		s.Sigs = append(s.Sigs, AlgData{otherAlg(0x1ffff), bulk(3, 64)})
		return "signature added"
	case 12:
		i := t.Uni("si", len(s.Digests))
		s.Digests = append(s.Digests[:i:i], s.Digests[i+1:]...)
		s.Sign(s.Key, algs)
		return "digest removed, re-signed"
	case 13:
		id := otherAlg(0x1ffff)
		s.Digests = append(s.Digests, AlgData{id, bulk(3, 32)})
		s.Sign(s.Key, algs)
		return "digest added, re-signed"
	case 14:
		// wrong digest of the strongest algorithm
		kind := digestKind(sp.Algs[best])
		for i := range s.Digests {
			if digestKind(s.Digests[i].Alg) == kind {
				switch t.Uni("dg", 3) {
				case 0:
					s.Digests[i].Data = flip(s.Digests[i].Data, "dgpos")
				case 1:
					s.Digests[i].Data = s.Digests[i].Data[:len(s.Digests[i].Data)-1]
				default:
					s.Digests[i].Data = nil
				}
			}
		}
		s.Sign(s.Key, algs)
		return "content digest changed, re-signed"
	case 15:
		if t.Pct("giant", 30) { // with a certificate for it, but nobody signs with such keys
			n := bulk(t.Seed("giant.n"), pick(t, "giant.size", []int{2049, 2100, 4096, 9000}))
			n[0], n[len(n)-1] = 0x7f, 0x81
			spki := dseq(algID("1.2.840.113549.1.1.1", dnull()), dbits(dseq(dintRaw(n), dint(65537))))
			s.PubKey, s.Certs = spki, [][]byte{hostileCert(spki, 4)}
			reenc()
			for i := range s.Sigs {
				s.Sigs[i].Data = bulk(t.Seed("giant.s"), len(n))
				s.Sigs[i].Data[0] = 1
			}
			if a := algByID(s.Sigs[best].Alg); a.Kind != "rsa" {
				s.Sigs[best].Alg = 0x103
				for i := range s.Digests {
					if s.Digests[i].Alg == a.ID {
						s.Digests[i].Alg = 0x103
					}
				}
				reenc()
			}
			return "signed by nobody, with a public key too large to use"
		}
		s.PubKey = t.foreign(s.Key, "").SPKI
		return "public key replaced"
	case 16:
		s.PubKey = flip(s.PubKey, "pkpos")
		return "public key bit flipped"
	case 17:
		f := t.foreign(s.Key, s.Key.Kind)
		for _, id := range algs {
			if !f.fits(algByID(id)) {
				return ""
			}
		}
		s.PubKey = f.SPKI
		s.Sign(f, algs)
		return "signed with another key, its public key put in, certificate kept"
	case 18:
		f := t.foreign(s.Key, s.Key.Kind)
		for _, id := range algs {
			if !f.fits(algByID(id)) {
				return ""
			}
		}
		s.Sign(f, algs)
		return "signed with another key, public key and certificate kept"
	case 19:
		f := t.foreign(s.Key, "")
		s.Certs = append([][]byte{selfCert(f, 0)}, s.Certs...)
		s.Sign(s.Key, algs)
		return "another certificate put first, re-signed"
	case 20:
		switch t.Uni("certedit", 4) {
		case 0:
			s.Certs = nil
		case 1:
			s.Certs = append([][]byte{s.Certs[0][:len(s.Certs[0])-1]}, s.Certs[1:]...)
		case 2:
			s.Certs = [][]byte{{}}
		default:
			s.Certs = append([][]byte{selfCert(t.foreign(s.Key, ""), 1)}, s.Certs[1:]...)
		}
		s.Sign(s.Key, algs)
		return "certificates removed, cut or replaced, re-signed"
	case 21:
		if len(s.Certs) == 0 {
			return ""
		}
		s.Certs = append([][]byte{}, s.Certs...)
		s.Certs[0] = selfCert(s.Key, 9)
		reenc()
		return "certificate replaced by another one of the same key, not re-signed"
	case 22:
		switch t.Uni("none", 3) {
		case 0:
			s.Sigs, s.Digests = nil, nil
			reenc()
		case 1:
			s.Digests = []AlgData{{0x7777, bulk(1, 32)}}
			s.Sign(s.Key, []uint32{0x7777})
		default:
			s.Attrs = append(s.Attrs, Attr{0x12345678, []byte{1}})
			reenc()
			return "attribute added, not re-signed"
		}
		return "no supported signature"
	case 23:
		if len(sp.Algs) != 1 {
			return ""
		}
		e := s.Encode()
		p := t.Uni("recpos", len(e))
		bit := t.Uni("bit", 8)
		s.Raw = append([]byte(nil), e...)
		s.Raw[p] ^= 1 << bit
		return fmt.Sprintf("bit %d of record byte %d flipped", bit, p)
	case 24:
		s.Min += int32(1 - 2*t.Uni("sign", 2))
		if s.Min < 1 {
			return ""
		}
		return "unsigned minimum SDK changed"
	case 25:
		s.Max--
		return "unsigned maximum SDK lowered"
	case 26:
		if s.Max == anyMax {
			s.SMax = s.Max - int32(t.Range("dmax", 1, 5))
			s.Sign(s.Key, algs)
			return "signed maximum SDK below the unsigned one"
		}
		s.Max += int32(t.Range("dmax", 1, 5))
		return "unsigned maximum SDK raised"
	case 27:
		s.SMin++
		s.Sign(s.Key, algs)
		return "signed minimum SDK differs from the unsigned one"
	case 28:
		if s.Min == 0x7fffffff {
			return ""
		}
		s.Min, s.SMin = pick(t, "badmin", []int32{0, -1, -0x80000000}), s.Min
		s.SMin = s.Min
		s.Sign(s.Key, algs)
		return "non-positive minimum SDK, re-signed"
	default:
		s.Max = s.Min - int32(t.Range("dmin", 1, 3))
		s.SMax = s.Max
		s.Sign(s.Key, algs)
		return "maximum SDK below the minimum, re-signed"
	}
}

// c03base is an APK that verifies with one of the block schemes, and the records that are to be damaged.
type c03base struct {
	b        *BlockAPK
	scheme   int
	id       uint32
	target   *[]*Signer
	specs    []*SignerSpec
	min, max int32
	orig     []byte
}

func (t *T) c03Base() *c03base {
	b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 2, maxSize: 200})}
	verity := t.Pct("verity", 20)
	scheme := pick(t, "scheme", []int{2, 3, 31})
	multi := t.Pct("multi", 25)
	var target *[]*Signer
	var specs []*SignerSpec
	var id uint32
	max := int32(anyMax)
	lo := int32(28)
	switch scheme {
	case 2:
		n := 1
		if multi {
			n = t.Range("n", 2, 4)
		}
		for ; n > 0; n-- {
			b.V2 = append(b.V2, t.genSigner(false, verity))
		}
		specs, target, lo, id = b.V2, &b.RecV2, 24, idV2
	case 3:
		b.V3 = t.genV3Signers(28, anyMax, verity)
		specs, target, id = b.V3, &b.RecV3, idV3
		if t.Pct("maxlow", 50) {
			max = int32(t.Range("max", 28, 40))
		}
	default:
		b.RotMin = int32(t.Range("rotmin", 33, 36))
		b.V3 = t.genV3Signers(28, anyMax, verity)
		b.V31 = t.genV3Signers(b.RotMin, anyMax, verity)
		lo = 33
		// a record of either block may be the bad one
		if t.Pct("inv3", 40) {
			specs, target, id = b.V3, &b.RecV3, idV3
		} else {
			specs, target, id = b.V31, &b.RecV31, idV31
		}
		if t.Pct("maxlow", 50) {
			max = int32(t.Range("max", int(b.RotMin), 42))
		}
	}
	b.Pad = t.Pct("pad", 20)
	b.Make()
	min := int32(t.Range("min", int(lo), 40))
	if min > max {
		min = max
	}
	orig := b.Bytes()
	if v := verify(orig, min, max); v.Err != nil {
		t.Class("base rejected")
		return nil
	}
	return &c03base{b, scheme, id, target, specs, min, max, orig}
}

func c03Case(t *T) {
	c3 := t.c03Base()
	if c3 == nil {
		return
	}
	b, scheme, specs, target, min, max, orig := c3.b, c3.scheme, c3.specs, c3.target, c3.min, c3.max, c3.orig
	for i := 0; i < 6; i++ {
		j := t.Uni("which", len(specs))
		keep := (*target)[j]
		c := keep.clone()
		what := t.spoil(c, specs[j])
		if what == "" {
			continue
		}
		(*target)[j] = c
		apk := b.Bytes()
		(*target)[j] = keep
		if bytes.Equal(apk, orig) {
			continue
		}
		t.Evals(1)
		t.NonTrivial(apk, min, max)
		t.Class("scheme %d", scheme)
		t.Class("%s", trimNum(what))
		d := fmt.Sprintf("scheme %d record %d of %d {%s} <%d;%d>: %s", scheme, j, len(specs), specs[j], min, max, what)
		t.Note("%s", d)
		t.Sample("%s", d)
		t.mustReject(what, apk, min, max)
	}
}

// c03Structure damages the length-prefixed structure of the records and re-signs what is signed.
func c03Structure(t *T) {
	c3 := t.c03Base()
	if c3 == nil {
		return
	}
	b := c3.b
	for i := 0; i < 6; i++ {
		var apk []byte
		j, what := -1, ""
		if t.Pct("list", 15) {
			var v []byte
			v, what = t.breakSignerList(*c3.target)
			apk = b.Sec.Assemble(encodeBlock(override(b.Pairs(), c3.id, v)))
		} else {
			j = t.Uni("which", len(c3.specs))
			keep := (*c3.target)[j]
			c := keep.clone()
			if what = t.breakSigner(c, c3.specs[j], c3.max); what == "" {
				continue
			}
			(*c3.target)[j] = c
			apk = b.Bytes()
			(*c3.target)[j] = keep
		}
		if bytes.Equal(apk, c3.orig) {
			continue
		}
		t.Evals(1)
		t.NonTrivial(apk, c3.min, c3.max)
		t.Class("%d of several %v: %s", c3.scheme, len(c3.specs) > 1, noDigits(what))
		d := fmt.Sprintf("scheme %d record %d of %d <%d;%d>: %s", c3.scheme, j, len(c3.specs), c3.min, c3.max, what)
		t.Note("%s", d)
		t.Sample("%s", d)
		t.mustReject(d, apk, c3.min, c3.max)
	}
}

func noDigits(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return -1
		}
		return r
	}, s)
}

func trimNum(s string) string {
	if len(s) > 4 && s[:4] == "bit " {
		return "any record bit flipped"
	}
	return s
}

func init() {
	register("C03", "a case is one corrupted field, or structure that does not fit, of one signer record (v2, v3, v3.1 or the v3 beneath v3.1) of an APK that verifies for the drawn range; non-trivial: the uncorrupted APK verifies and the bytes differ; distinct by bytes and range",
		Sub{"field", 4800, 100000, c03Case},
		Sub{"every", 32, 1600, c03Every},
		Sub{"structure", 3200, 80000, c03Structure},
	)
}

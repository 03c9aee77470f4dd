package main

import (
	"fmt"
)

// bulkySize draws a part size: around the powers of two at which readers switch to chunks or stop, and up to some MiB.
func (t *T) bulkySize(lo int) int {
	for {
		n := 0
		switch t.Uni("bsz", 4) {
		case 0:
			n = pick(t, "bszk", []int{1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 21, 1 << 22, 1 << 23}) + t.Range("bszd", -9, 9)
		case 1:
			n = 1<<20 - t.Uni("bszn", 700)
		case 2:
			n = t.Range("bszu", 1<<16, 6<<20)
		default:
			n = t.Range("bszm", 1<<20, 3<<20)
		}
		if n >= lo {
			return n
		}
	}
}

// bulkyCert is a certificate of k with a large extension.
func (t *T) bulkyCert(k *Key, n int) []byte {
	s := defaultCert(k, fmt.Sprintf("bulky %d", n), int64(n))
	s.Exts = append(s.Exts, dseq(doid("1.3.6.1.4.1.54321.7"), doct(bulk(t.Seed("bcs"), n))))
	return s.DER()
}

// bulkyPairs are unknown pairs and padding of large sizes.
func (t *T) bulkyPairs(b *BlockAPK) string {
	used := map[uint32]bool{}
	d := ""
	switch t.Uni("bpk", 3) {
	case 0:
		n := t.bulkySize(0)
		b.Extra = append(b.Extra, Pair{t.unknownID(used), bulk(t.Seed("bps"), n)})
		d = fmt.Sprintf("pair of %d bytes", n)
		t.Class("one large pair")
	case 1:
		n, each := t.Range("bpn", 200, 3000), t.Range("bpe", 0, 2000)
		v := bulk(t.Seed("bps"), each)
		for id := uint32(0x10000); n > 0; n-- {
			b.Extra = append(b.Extra, Pair{id, v})
			id++
		}
		d = fmt.Sprintf("%d pairs of %d bytes", len(b.Extra), each)
		t.Class("many pairs")
	default:
		n := t.bulkySize(0)
		b.Extra = append(b.Extra, Pair{idVerPad, make([]byte, n)})
		d = fmt.Sprintf("padding of %d bytes", n)
		t.Class("large padding")
	}
	return d
}

// bulky makes some part of the signatures large.
func (t *T) bulky(b *BlockAPK) string {
	var lists [][]*SignerSpec
	for _, l := range [][]*SignerSpec{b.V2, b.V3, b.V31} {
		if len(l) > 0 {
			lists = append(lists, l)
		}
	}
	d := ""
	for k := t.Range("bulks", 1, 2); k > 0; k-- {
		l := lists[t.Uni("blist", len(lists))]
		s := l[t.Uni("bsigner", len(l))]
		switch t.Uni("bkind", 5) {
		case 0:
			a := Attr{0x12345678, bulk(t.Seed("bas"), t.bulkySize(0))}
			at := t.Uni("baat", len(s.Attrs)+1)
			s.Attrs = append(s.Attrs[:at:at], append([]Attr{a}, s.Attrs[at:]...)...)
			d += fmt.Sprintf(" attribute of %d bytes at %d", len(a.Val), at)
			t.Class("large attribute")
		case 1:
			n, each := t.Range("ban", 100, 20000), t.Range("bae", 0, 100)
			v := bulk(t.Seed("bas"), each)
			var as []Attr
			for i := 0; i < n; i++ {
				as = append(as, Attr{0x20000000 + uint32(i), v})
			}
			s.Attrs = append(as, s.Attrs...)
			d += fmt.Sprintf(" %d attributes of %d bytes", n, each)
			t.Class("many attributes")
		case 2:
			n := t.bulkySize(0)
			s.Chain = append(s.Chain[:len(s.Chain):len(s.Chain)], t.bulkyCert(keyByName["ec256-f"], n))
			d += fmt.Sprintf(" certificate with %d bytes more", n)
			t.Class("large certificate")
		case 3:
			hasLineage := false
			for _, a := range s.Attrs {
				hasLineage = hasLineage || a.ID == attrPoR
			}
			if hasLineage { // its certificate is fixed by the lineage
				n := t.Range("bcn", 20, 600)
				s.Chain = s.Chain[:len(s.Chain):len(s.Chain)]
				for i := 0; i < n; i++ {
					s.Chain = append(s.Chain, s.Chain[0])
				}
				d += fmt.Sprintf(" %d more certificates", n)
				t.Class("many certificates")
				continue
			}
			n := t.bulkySize(0)
			s.Chain = append([][]byte{t.bulkyCert(s.Key, n)}, s.Chain[1:]...)
			d += fmt.Sprintf(" own certificate with %d bytes more", n)
			t.Class("large own certificate")
		default:
			d += " " + t.bulkyPairs(b)
		}
	}
	return d
}

// bulkyCase: correctly signed APKs with large parts in the signing block are accepted with their chains.
func bulkyCase(t *T, pairsOnly bool) {
	b := t.genBlockAPK(zipOpts{maxEntries: 2, maxSize: 300})
	var d string
	if pairsOnly {
		for k := t.Range("bulks", 1, 2); k > 0; k-- {
			d += " " + t.bulkyPairs(b)
		}
		b.Zip.Comment, _ = t.genComment()
	} else {
		d = t.bulky(b)
	}
	b.Order = t.perm(b.nPairs())
	b.Make()
	min, max := t.genRange(b)
	scheme, chains := b.expect(min, max)
	apk := b.Bytes()
	d = fmt.Sprintf("%s; v2{%s} v3{%s} v31{%s} <%d;%d> %d bytes", d, specsStr(b.V2), specsStr(b.V3), specsStr(b.V31), min, max, len(apk))
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	t.mustAccept("validly signed APK with large parts in its signing block", apk, min, max, scheme, chains)
}

package main

import (
	"fmt"
	"strings"
)

// idList draws an X-Android-APK-Signed value that contains exactly the wanted ids of {2, 3}.
func (t *T) idList(two, three bool) string {
	var tok []string
	if two {
		tok = append(tok, "2")
	}
	if three {
		tok = append(tok, "3")
	}
	for i := t.Uni("junk", 3); i > 0; i-- {
		tok = append(tok, pick(t, "junkid", []string{"1", "4", "22", "23", "0", "-2", "x", "", "2x", "99999999999999", "31", "two", "0x2"}))
	}
	p := t.perm(len(tok))
	var out []string
	for _, i := range p {
		s := tok[i]
		if t.Pct("sp", 40) {
			s = " " + s
		}
		if t.Pct("sp", 25) {
			s += " "
		}
		if (s == "2" || s == "3") && t.Pct("zero", 5) {
			s = "0" + s
		}
		out = append(out, s)
	}
	return strings.Join(out, ",")
}

// c06V1: the .SF file names block schemes; there is no signing block (or one that still has all of them).
func c06V1(t *T) {
	j := t.genJar(zipOpts{maxEntries: 3, plainNames: true}, 2)
	two, three := t.Pct("two", 50), t.Pct("three", 50)
	for i, s := range j.Signers {
		if i == 0 || t.Pct("both", 50) {
			s.ApkSigned = t.idList(two, three)
			if s.ApkSigned == "" {
				s.ApkSigned = "1"
			}
		}
	}
	min, max := t.genV1Range()
	if t.Pct("edge", 50) {
		max = int32(pick(t, "max", []int{22, 23, 24, 25, 27, 28, 29, 33, anyMax}))
		if min > max {
			min = max
		}
	}
	t.usableFor(j, min, max)
	j.Make()
	list := j.Signers[0].ApkSigned
	var apk []byte
	block := ""
	if t.Pct("withblock", 35) {
		b := &BlockAPK{Zip: j.Spec()}
		if two || t.Pct("v2", 50) {
			b.V2 = []*SignerSpec{t.genSigner(false, false)}
			block += "v2"
		}
		if three || block == "" {
			b.V3 = []*SignerSpec{t.genSigner(true, false)}
			block += "v3"
		}
		if block == "v3" && min < 28 {
			min = 28 // v3 alone covers nothing below
			if max < 28 {
				max = 28
			}
		}
		b.Make()
		apk = b.Bytes()
	} else {
		apk = j.Bytes()
	}
	d := fmt.Sprintf("X-Android-APK-Signed %q, block %q, <%d;%d>", list, block, min, max)
	t.Note("%s %s", d, jarStr(j))
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	if block == "" && max >= 24 && (two || three && max >= 28) {
		t.Class("v1: stripped, rejected")
		t.mustReject("stripped APK: "+d, apk, min, max)
		return
	}
	t.Class("v1: accepted, block %q", block)
	t.mustAccept(d, apk, min, max, 0, nil)
}

// c06Block: v2 signers with the stripping protection attribute, v3 signers with the rotation minimum attribute.
func c06Block(t *T) {
	b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 2, maxSize: 200})}
	max := int32(pick(t, "max", []int{24, 26, 27, 28, 29, 30, 32, 33, 34, 35, 36, anyMax}))
	attr := func(id uint32, v []byte) Attr { return Attr{id, v} }
	placed := func(list []*SignerSpec, a Attr) { // one signer of the list carries it, among other attributes
		s := list[t.Uni("carrier", len(list))]
		if t.Pct("before", 30) {
			s.Attrs = append(s.Attrs, Attr{0x11223344, t.Bytes("ua", 0, 9)})
		}
		s.Attrs = append(s.Attrs, a)
		if t.Pct("after", 30) {
			s.Attrs = append(s.Attrs, Attr{0x55667788, t.Bytes("ub", 0, 9)})
		}
	}
	v2s := func() {
		for n := t.nSigners(); n > 0; n-- {
			b.V2 = append(b.V2, t.genSigner(false, false))
		}
	}
	bad := false
	kind := pick(t, "kind", []string{"v2-strip3", "v2-strip3", "v2-strip31", "v2-keep3", "v2-unknown", "v3-strip31", "v3-strip31", "v3-keep31", "v3-other31", "v2-strip2"})
	rot := int32(t.Range("rot", 33, 36))
	min := int32(24)
	switch kind {
	case "v2-strip3", "v2-strip31":
		v2s()
		id := uint32(3)
		if kind == "v2-strip31" {
			id = 31
		}
		placed(b.V2, attr(attrStrip, u32(id)))
		bad = max >= 28
	case "v2-unknown": // a scheme that cannot be there
		v2s()
		placed(b.V2, attr(attrStrip, u32(pick(t, "unk", []uint32{0, 1, 4, 30, 32, 0xffffffff}))))
		bad = max >= 28
	case "v2-strip2": // v2 itself: the block is there, but not as an extra one; not judged
		return
	case "v2-keep3":
		v2s()
		b.V3 = t.genV3Signers(28, anyMax, false)
		placed(b.V2, attr(attrStrip, u32(3)))
	case "v3-strip31":
		b.V3 = t.genV3Signers(28, anyMax, false)
		if t.Pct("v2", 50) {
			v2s()
		}
		placed(b.V3, attr(attrMinSdk, u32(uint32(rot))))
		bad = max >= 33
		min = 28
		if max < 28 {
			max = 28
		}
	case "v3-keep31", "v3-other31":
		b.V3 = t.genV3Signers(28, anyMax, false)
		b.RotMin = rot
		b.V31 = t.genV3Signers(rot, anyMax, false)
		at := rot
		if kind == "v3-other31" {
			for at == rot {
				at = int32(t.Range("at", 32, 37))
			}
			bad = max >= 33
		}
		placed(b.V3, attr(attrMinSdk, u32(uint32(at))))
		if max >= 33 && max < rot {
			max = rot
		}
		min = 28
		if max < 28 {
			max = 28
		}
	}
	// the attributes have their say for every minimum from 24 / 28 on
	min = int32(t.Range("min", int(min), int(min)+10))
	if min > max {
		min = max
	}
	if len(b.V3) > 0 && len(b.V2) == 0 && min < 28 {
		min = 28
	}
	b.Order = t.perm(b.nPairs())
	b.Pad = t.Pct("pad", 20)
	b.Make()
	apk := b.Bytes()
	d := fmt.Sprintf("%s v2{%s} v3{%s} v31{%s} rotation %d <%d;%d>", kind, specsStr(b.V2), specsStr(b.V3), specsStr(b.V31), rot, min, max)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	t.Class("%s rejected=%v", kind, bad)
	if bad {
		t.mustReject("stripped APK: "+d, apk, min, max)
		return
	}
	scheme, chains := b.expect(min, max)
	t.mustAccept(d, apk, min, max, scheme, chains)
}

// c06Fallback: nothing but the v2 signature verifies (the v3 block that is left is damaged), and it remembers a newer scheme.
func c06Fallback(t *T) {
	b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 2, maxSize: 200})}
	for n := t.nSigners(); n > 0; n-- {
		b.V2 = append(b.V2, t.genSigner(false, false))
	}
	id := pick(t, "id", []uint32{3, 31, 31, 31, 4, 30})
	s := b.V2[t.Uni("carrier", len(b.V2))]
	s.Attrs = append(s.Attrs, Attr{attrStrip, u32(id)})
	b.V3 = t.genV3Signers(28, anyMax, false)
	b.RotMin = int32(t.Range("rot", 33, 35))
	with31 := t.Pct("v31", 25)
	if with31 {
		b.V31 = t.genV3Signers(b.RotMin, anyMax, false)
	}
	b.Order = t.perm(b.nPairs())
	b.Make()
	for _, r := range b.RecV3 {
		for i := range r.Sigs {
			d := append([]byte(nil), r.Sigs[i].Data...)
			d[t.Uni("at", len(d))] ^= byte(1 << t.Uni("bit", 8))
			r.Sigs[i].Data = d
		}
	}
	min := int32(t.Range("min", 24, 27))
	max := int32(pick(t, "max", []int{28, 29, 30, 32, 33, 34, 35, anyMax}))
	apk := b.Bytes()
	d := fmt.Sprintf("v2{%s} remembers %d, damaged v3{%s}, v3.1 %v, <%d;%d>", specsStr(b.V2), id, specsStr(b.V3), with31, min, max)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	if id == 3 || with31 && id == 31 {
		t.Class("%d still there, not judged", id)
		t.exercise(apk)
		return
	}
	t.Class("%d stripped, rejected", id)
	t.mustReject("stripped APK: "+d, apk, min, max)
}

// c06Real strips a block from a completely signed APK whose signers recorded everything.
func c06Real(t *T) {
	j := t.genJar(zipOpts{maxEntries: 2, plainNames: true, manifest: &ManifestSpec{Min: i32p(21)}}, 1)
	j.Signers[0].ApkSigned = "2, 3"
	j.MFDigests, j.Signers[0].Digests = []string{"SHA-256"}, []string{"SHA-256"}
	j.Make()
	b := &BlockAPK{Zip: j.Spec()}
	b.V2 = []*SignerSpec{t.genSigner(false, false)}
	b.V2[0].Attrs = []Attr{{attrStrip, u32(3)}}
	b.V3 = t.genV3Signers(28, anyMax, false)
	b.RotMin = int32(t.Range("rot", 33, 35))
	b.V31 = t.genV3Signers(b.RotMin, anyMax, false)
	for _, s := range b.V3 {
		s.Attrs = append(s.Attrs, Attr{attrMinSdk, u32(uint32(b.RotMin))})
	}
	b.Make()
	max := int32(pick(t, "max", []int{24, 27, 28, 32, 36, anyMax}))
	min := int32(pick(t, "min", []int{21, 24, 28, 33}))
	if min > max {
		min = max
	}
	apk := b.Bytes()
	t.mustAccept("the complete APK", apk, min, max, 0, nil)
	strip := pick(t, "strip", []string{"v31", "v3+v31", "v2+v3+v31", "v3"})
	c := *b
	bad := false
	switch strip {
	case "v31":
		c.RecV31 = nil
		bad = max >= 33
	case "v3":
		c.RecV3 = nil
		bad = max >= 28 // v3.1 without v3 / v2 signer remembers v3
	case "v3+v31":
		c.RecV31, c.RecV3 = nil, nil
		bad = max >= 28
	default:
		c.RecV31, c.RecV3, c.RecV2 = nil, nil, nil
		bad = max >= 24
	}
	if strip == "v31" && bad && min < 28 {
		return // the invalid v3 falls back to v2
	}
	s := c.Bytes()
	if strip == "v2+v3+v31" && t.Pct("noblock", 50) {
		s = c.Sec.Assemble(nil)
	}
	d := fmt.Sprintf("%s stripped from v1+v2+v3+v3.1, <%d;%d>", strip, min, max)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(s, min, max)
	t.Class("%s rejected=%v", strip, bad)
	if bad {
		t.mustReject(d, s, min, max)
	} else {
		t.mustAccept(d, s, min, max, 0, nil)
	}
}

func init() {
	register("C06", "a case is a signed APK whose signers record newer schemes (X-Android-APK-Signed, v2 stripping attribute, v3 rotation minimum), with those blocks present, absent or contradicting, and an SDK range; every case is non-trivial (the verdict is fixed by the rule), distinct by bytes and range",
		Sub{"v1", 6000, 120000, c06V1},
		Sub{"block", 5000, 100000, c06Block},
		Sub{"strip", 1500, 30000, c06Real},
		Sub{"fallback", 800, 20000, c06Fallback},
	)
}

package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/avast/apkverifier/signingblock"
)

// unknownID draws a pair id the verifier does not consume.
func (t *T) unknownID(used map[uint32]bool) uint32 {
	for {
		var id uint32
		switch t.Uni("idkind", 4) {
		case 0:
			id = pick(t, "idknown", []uint32{0x504b4453, 0x71777777, 0x2b09189e, 0, 0xffffffff, 1, 0x80000000, 0x7fffffff, 0x6b63734d})
		case 1: // next to a known one
			id = pick(t, "idnear", []uint32{idV2, idV3, idV31, idVerPad, idFrosting, idStamp})
			switch t.Uni("neark", 3) {
			case 0:
				id ^= 1 << t.Uni("nearbit", 32)
			case 1: // its bytes in the other order
				id = id<<24 | id>>24 | id&0xff00<<8 | id>>8&0xff00
			default:
				id = id&0xffff0000 | uint32(t.bits(16, "nearlow"))
			}
		default:
			id = uint32(t.bits(32, "id"))
		}
		switch id {
		case idV2, idV3, idV31, idVerPad, idFrosting, idStamp:
			continue
		}
		if !used[id] {
			used[id] = true
			return id
		}
	}
}

// extraValue draws the content of an unknown pair.
func (t *T) extraValue(b *BlockAPK) []byte {
	switch t.Uni("xv", 8) {
	case 0:
		return nil
	case 1:
		return t.Bytes("xshort", 1, 12)
	case 2: // looks like signers
		if len(b.RecV2) > 0 {
			return encodeSigners(b.RecV2)
		}
		return encodeSigners(b.RecV3)
	case 3: // looks like the end of a signing block
		return cat(u64(uint64(t.Range("xf", 0, 100))), []byte(blockMagicS))
	case 4:
		return bulk(t.Seed("xs"), pick(t, "xn", []int{4096, 65536, 65535, 1 << 20, 1<<20 + 1, 3 << 20, 4092, 4084, 100000}))
	case 5: // looks like a pair or an end record
		return cat(encodePair(Pair{idV3, t.Bytes("xp", 0, 20)}), le32b(0x06054b50), make([]byte, 18))
	}
	return t.Bytes("xb", 1, 300)
}

func le32b(v uint32) []byte { return u32(v) }

// addUnknown spoils nothing: unknown attributes and algorithms in the signers.
func (t *T) addUnknown(recs []*Signer, specs []*SignerSpec) string {
	var d []string
	for i, s := range recs {
		changed := false
		if t.Pct("attrs", 40) {
			for k := t.Range("an", 1, 4); k > 0; k-- {
				id := uint32(t.bits(32, "aid"))
				switch id {
				case attrStrip, attrPoR, attrMinSdk, attrRotDev:
					id ^= 0x10
				}
				if t.Pct("anear", 30) { // attributes of other schemes mean nothing here
					if s.V3 {
						id = attrStrip
					} else {
						id = pick(t, "a3", []uint32{attrPoR, attrMinSdk, attrRotDev})
					}
				}
				a := Attr{id, t.Bytes("av", 0, 60)}
				at := t.Uni("aat", len(s.Attrs)+1)
				s.Attrs = append(s.Attrs[:at:at], append([]Attr{a}, s.Attrs[at:]...)...)
				d = append(d, fmt.Sprintf("attribute %#x (%d)", id, len(a.Val)))
			}
			changed = true
		}
		var algs []uint32
		for _, x := range s.Sigs {
			algs = append(algs, x.Alg)
		}
		if t.Pct("algs", 40) {
			for k := t.Range("gn", 1, 4); k > 0; k-- {
				id := pick(t, "gid", []uint32{0, 0xffffffff, 0x100, 0x105, 0x203, 0x302, 0x422, 0x424, 0x426, 0x1000103, 0x80000103, 0x1010000, 0x7fffffff, 0x401})
				at := t.Uni("gat", len(algs)+1)
				algs = append(algs[:at:at], append([]uint32{id}, algs[at:]...)...)
				s.Digests = append(s.Digests[:at:at], append([]AlgData{{id, t.Bytes("gd", 0, 70)}}, s.Digests[at:]...)...)
				d = append(d, fmt.Sprintf("algorithm %#x at %d", id, at))
			}
			changed = true
		}
		if changed {
			s.Sign(s.Key, algs)
		}
		_ = i
	}
	return strings.Join(d, ", ")
}

func c24Case(t *T) {
	b := t.genBlockAPK(zipOpts{maxEntries: 2, maxSize: 300})
	min, max := t.genRange(b)
	scheme, chains := b.expect(min, max)
	t.c24Run(b, min, max, scheme, chains)
}

// c24V1: on platforms before 24 the blocks of all schemes are unknown content.
func c24V1(t *T) {
	j := t.genJar(zipOpts{maxEntries: 3, maxSize: 100}, 1)
	for _, s := range j.Signers {
		s.Digests = dedup(append(s.Digests, "SHA1"))
	}
	j.MFDigests = dedup(append(j.MFDigests, "SHA1"))
	j.Make()
	b := &BlockAPK{Zip: j.Spec()}
	combo := pick(t, "combo", []string{"2", "3", "23", "2r3", "none"})
	if combo != "none" {
		t.genSchemes(b, 40, combo)
	}
	b.Make()
	b.Pad = t.Pct("pad", 30)
	max := int32(pick(t, "max", []int{23, 22, 18, 19, 9}))
	min := int32(pick(t, "min", []int{1, 9, 18}))
	if min > max {
		min = max
	}
	t.Class("v1 only, schemes %s", combo)
	t.c24Run(b, min, max, 1, j.chains())
}

func (t *T) c24Run(b *BlockAPK, min, max int32, scheme int, chains [][][]byte) {
	what := t.addUnknown(b.RecV2, b.V2) + t.addUnknown(b.RecV3, b.V3) + t.addUnknown(b.RecV31, b.V31)
	if what != "" {
		t.Class("unknown attributes or algorithms")
	}
	used := map[uint32]bool{}
	want := map[uint32][]byte{}
	b.Extra = nil
	for k := t.Uni("extras", 6); k > 0; k-- {
		p := Pair{t.unknownID(used), t.extraValue(b)}
		want[p.ID] = p.Val
		b.Extra = append(b.Extra, p)
		what += fmt.Sprintf(" pair %#x (%d)", p.ID, len(p.Val))
		if len(p.Val) == 0 {
			t.Class("empty pair")
		}
		if len(p.Val) > 1<<20 {
			t.Class("pair over 1 MiB")
		}
	}
	t.Class("%d unknown pairs", len(want))
	for k := t.Uni("padding", 3); k > 0; k-- {
		b.Extra = append(b.Extra, Pair{idVerPad, make([]byte, t.Uni("padn", 5000))})
		what += " padding"
	}
	if t.Pct("junkfrost", 10) {
		b.Extra = append(b.Extra, Pair{idFrosting, t.Bytes("jf", 0, 60)})
		what += " frosting"
	}
	if t.Pct("junkstamp", 10) {
		b.Extra = append(b.Extra, Pair{idStamp, t.Bytes("js", 0, 60)})
		what += " stamp"
	}
	b.Order = t.perm(b.nPairs())
	for _, p := range b.Pairs() {
		switch {
		case p.ID == idV2 && max < 24, p.ID == idV3 && (max < 28 || max >= 33), p.ID == idV31 && max < 33:
			want[p.ID] = p.Val
			t.Class("signature of another scheme handed back")
		}
	}
	apk := b.Bytes()
	d := fmt.Sprintf("v2{%s} v3{%s} v31{%s} <%d;%d>:%s", specsStr(b.V2), specsStr(b.V3), specsStr(b.V31), min, max, what)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	if q := verify(apk, min, max); q.Res.SigningBlockResult != nil {
		t.Note("warnings %q", q.Res.SigningBlockResult.Warnings)
	}
	v := t.mustAccept("APK with unknown content in the signing block", apk, min, max, scheme, chains)
	t.Class("scheme %d", scheme)
	r := v.Res.SigningBlockResult
	if r == nil {
		t.Violate("no signing block result")
		return
	}
	for id, val := range want {
		got, ok := r.ExtraBlocks[signingblock.BlockId(id)]
		if !ok {
			t.Violate("pair %#x (%d bytes) is not in ExtraBlocks", id, len(val))
		}
		if !bytes.Equal(got, val) {
			t.Violate("pair %#x: ExtraBlocks has %d bytes (%.16x…), the file %d (%.16x…)", id, len(got), got, len(val), val)
		}
	}
	for id := range r.ExtraBlocks {
		if _, ok := want[uint32(id)]; !ok {
			t.Violate("ExtraBlocks has %#x, which is consumed or not in the file", uint32(id))
		}
	}
}

func init() {
	register("C24", "a validly signed APK whose signing block gets drawn unknown pairs, padding, unknown signer attributes and unknown algorithms; distinct by bytes and SDK range",
		Sub{"block", 4800, 80000, c24Case},
		Sub{"before24", 1200, 20000, c24V1})
}

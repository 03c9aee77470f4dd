package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

var eocdMagic = []byte("PK\x05\x06")

// genComment draws a ZIP comment in which no end record is consistent (none has a comment size that reaches exactly to
// the end of the file).
func (t *T) genComment() ([]byte, string) {
	n := 0
	switch t.Uni("clen", 4) {
	case 0:
		n = pick(t, "clenk", []int{0, 1, 3, 4, 20, 21, 22, 23, 24, 43, 44, 45, 255, 256, 65535, 65534, 65533, 65514, 65513, 65512, 32768, 32767, 65280})
	case 1:
		n = t.Range("clens", 0, 200)
	default:
		n = t.Uni("clenu", 65536)
	}
	c := make([]byte, n)
	base := t.Uni("cbase", 4)
	switch base {
	case 0:
		copy(c, bulk(t.Seed("cseed"), n))
	case 1:
		for i := range c {
			c[i] = ' '
		}
	case 2: // magic numbers all over
		for i := 0; i+4 <= n; i += 4 {
			copy(c[i:], eocdMagic)
		}
	}
	decoys := 0
	if n >= 4 {
		decoys = t.Uni("decoys", 5)
	}
	for k := 0; k < decoys; k++ {
		o := t.Uni("dpos", n-3)
		if t.Pct("dedge", 40) {
			o = pick(t, "dpose", []int{0, n - 4, n / 2, n - 22, n - 23, n - 26})
			if o < 0 {
				o = 0
			}
		}
		d := make([]byte, 22)
		if t.Pct("drnd", 50) {
			copy(d, bulk(t.Seed("dseed"), 22))
		}
		copy(d, eocdMagic)
		if size := n - o - 22; size >= 0 {
			size += pick(t, "dsize", []int{1, -1, 256, -256, 22, -size, 65535 - size, -4})
			binary.LittleEndian.PutUint16(d[20:], uint16(size))
		}
		copy(c[o:], d)
	}
	// no record may be consistent
	for again := true; again; {
		again = false
		for o := 0; o+22 <= n; o++ {
			if bytes.Equal(c[o:o+4], eocdMagic) && int(binary.LittleEndian.Uint16(c[o+20:])) == n-o-22 {
				c[o] ^= 1
				again = true
			}
		}
	}
	return c, fmt.Sprintf("comment of %d bytes (kind %d), %d decoys", n, base, decoys)
}

// magicEntry puts the magic numbers of ZIP and signing block into contents and central directory.
func (t *T) magicEntry() *ZEntry {
	fake := cat(eocdMagic, make([]byte, 8), u32(uint32(t.Uni("fe1", 500))), u32(uint32(t.Uni("fe2", 500))), u16(uint16(t.Uni("fe3", 200))))
	foot := cat(u64(uint64(t.Uni("ff", 200))), []byte(blockMagicS))
	loc := cat([]byte("PK\x06\x07"), make([]byte, 16))
	pool := [][]byte{fake, foot, loc, eocdMagic, cat(foot, fake), cat(loc, fake)}
	e := &ZEntry{Name: "zz-magic", Data: pick(t, "mdata", pool)}
	if t.Pct("mextra", 50) {
		x := pick(t, "mx", pool)
		e.CDExtra = cat(u16(0xcafe), u16(uint16(len(x))), x)
	}
	if t.Pct("mcomment", 60) {
		// the locator magic must not stand 20 bytes before the end record
		x := pick(t, "mc", [][]byte{fake, foot, eocdMagic, cat(foot, fake), cat(loc, []byte{0}), loc[:19], cat(loc, fake)})
		e.Comment = x
	}
	return e
}

func c25Case(t *T) {
	b := t.genBlockAPK(zipOpts{maxEntries: 3, maxSize: 300})
	min, max := t.genRange(b)
	scheme, chains := b.expect(min, max)
	var d string
	b.Zip.Comment, d = t.genComment()
	if t.Pct("magic", 40) {
		e := t.magicEntry()
		d += fmt.Sprintf(", entry with magic numbers (comment %.12x)", e.Comment)
		b.Zip.Entries = append(b.Zip.Entries, e)
		b.Zip.CDOrder = nil
		t.Class("magic numbers in contents and central directory")
	}
	if t.Pct("magicpair", 30) {
		b.Extra = append(b.Extra, Pair{0x77777777, t.magicEntry().Data})
		b.Order = nil
	}
	b.Make()
	if loc := b.Sec.CD; len(loc) >= 20 && bytes.Equal(loc[len(loc)-20:len(loc)-16], []byte("PK\x06\x07")) {
		return
	}
	apk := b.Bytes()
	t.Note("%s; v2{%s} v3{%s} v31{%s} <%d;%d>", d, specsStr(b.V2), specsStr(b.V3), specsStr(b.V31), min, max)
	t.Sample("%s, scheme %d", d, scheme)
	t.NonTrivial(apk, min, max)
	n := len(b.Zip.Comment)
	t.Class("comment %s", map[bool]string{true: "empty", false: map[bool]string{true: "maximal", false: map[bool]string{true: "over 60000", false: "other"}[n > 60000]}[n == 65535]}[n == 0])
	if bytes.Contains(b.Zip.Comment, eocdMagic) {
		t.Class("end record magic in the comment")
	}
	t.mustAccept("validly signed APK with "+d, apk, min, max, scheme, chains)
}

// c25Bad: files that are signed as a more lenient reader would see them.
func c25Bad(t *T) {
	b := &BlockAPK{}
	o := zipOpts{maxEntries: 2, maxSize: 150, maxComment: 60}
	var v1 [][][]byte
	if t.Pct("v1", 20) {
		j := t.genJar(zipOpts{maxEntries: 2, maxSize: 100, maxComment: 40, manifest: &ManifestSpec{Min: i32p(21)}}, 1)
		j.Make()
		b.Zip, v1 = j.Spec(), j.chains()
	} else {
		b.Zip = t.genZip(o)
	}
	combo := pick(t, "combo", []string{"2", "3", "23"})
	t.genSchemes(b, 40, combo)
	min := int32(28)
	max := int32(pick(t, "max", []int{28, 29, 33, anyMax}))
	if combo != "3" && t.Pct("low", 40) {
		min = int32(t.Range("min", 24, 28))
		max = int32(t.Range("max2", int(min), 29))
	}
	b.Make()
	ctl := b.Bytes()
	wantScheme, wantChains := b.expect(min, max)
	t.mustAccept("the intact APK", ctl, min, max, wantScheme, wantChains)

	sign := func() { // over the sections as they are now
		b.D = newDigests(b.Sec)
		b.RecV2, b.RecV3 = makeAll(b.V2, b.D), makeAll(b.V3, b.D)
	}
	var apk []byte
	how, d := "", ""
	assemble := func(block []byte) { apk = b.Sec.Assemble(block) }
	block := encodeBlock(b.Pairs())
	n := len(block)
	odd := func(label string, v uint64) uint64 {
		for {
			w := pick(t, label, []uint64{v + 1, v - 1, v + 8, v - 8, 0, 1, 23, 24, 8, 1 << 31, 1<<31 - 8, 1<<31 - 1, 1 << 32, 1<<32 + v, 1<<63 + v, 1 << 63, ^uint64(0), ^uint64(7), uint64(len(ctl)), v - 24, v + 4096})
			if w != v {
				return w
			}
		}
	}
	switch how = pick(t, "how", []string{"header size", "footer size", "both sizes", "magic", "pair length", "rest after the pairs", "gap before the end record", "CD size field", "CD offset field", "gap after the block", "ZIP64 locator", "ZIP64 locator", "end record in the comment", "data between block and its size"}); how {
	case "header size":
		v := odd("size", uint64(n-8))
		binary.LittleEndian.PutUint64(block, v)
		d = fmt.Sprint(int64(v), " for ", n-8)
		assemble(block)
	case "footer size":
		v := odd("size", uint64(n-8))
		binary.LittleEndian.PutUint64(block[n-24:], v)
		d = fmt.Sprint(int64(v), " for ", n-8)
		assemble(block)
	case "both sizes":
		v := odd("size", uint64(n-8))
		binary.LittleEndian.PutUint64(block, v)
		binary.LittleEndian.PutUint64(block[n-24:], v)
		d = fmt.Sprint(int64(v), " for ", n-8)
		assemble(block)
	case "magic":
		switch t.Uni("mk", 3) {
		case 0:
			i := t.Uni("bit", 128)
			block[n-16+i/8] ^= 1 << (i % 8)
			d = fmt.Sprintf("bit %d", i)
		case 1:
			copy(block[n-16:], "APK Sig Block 41")
		default:
			copy(block[n-8:], block[n-16:n-8])
		}
		assemble(block)
	case "pair length":
		// a pair whose length is wrong, after (or before) the valid ones
		x := encodePair(Pair{0x12345678, t.Bytes("pv", 0, 40)})
		v := uint64(len(x) - 8)
		w := pick(t, "plen", []uint64{0, 1, 2, 3, v + 1, v + 8, 1 << 31, 1<<32 + v, 1<<63 + v, ^uint64(0), ^uint64(3), 1<<31 + v, 1 << 40})
		binary.LittleEndian.PutUint64(x, w)
		d = fmt.Sprint(int64(w), " for ", int64(v))
		body := block[8 : n-24]
		if w < 4 && t.Pct("trim", 50) {
			x = x[:8+w]
		}
		if w < 4 && t.Pct("front", 30) {
			body = cat(x, body)
		} else {
			body = cat(body, x)
		}
		sz := u64(uint64(len(body) + 24))
		assemble(cat(sz, body, sz, []byte(blockMagicS)))
	case "rest after the pairs":
		body := cat(block[8:n-24], bulk(t.Seed("rest"), t.Range("restn", 1, 7)))
		if t.Pct("zero", 50) {
			for i := n - 32; i < len(body); i++ {
				body[i] = 0
			}
		}
		d = fmt.Sprint(len(body) - (n - 32))
		sz := u64(uint64(len(body) + 24))
		assemble(cat(sz, body, sz, []byte(blockMagicS)))
	case "gap before the end record":
		b.Sec.Gap = bulk(t.Seed("gap"), pick(t, "gapn", []int{1, 2, 4, 16, 100, 4096}))
		if t.Pct("zero", 50) {
			b.Sec.Gap = make([]byte, len(b.Sec.Gap))
		}
		d = fmt.Sprint(len(b.Sec.Gap))
		sign()
		assemble(encodeBlock(b.Pairs()))
	case "CD size field":
		v := uint32(len(b.Sec.CD))
		w := pick(t, "cds", []uint32{v + 1, v - 1, 0, v + 22, v - 46, ^uint32(0), 1 << 31, v ^ 1<<31, v << 8, 0xffff})
		if w == v {
			w++
		}
		d = fmt.Sprint(w, " for ", v)
		b.Sec.FixEOCD = func(e []byte) []byte {
			e = append([]byte(nil), e...)
			binary.LittleEndian.PutUint32(e[12:], w)
			return e
		}
		sign()
		assemble(encodeBlock(b.Pairs()))
	case "CD offset field":
		v := uint32(len(b.Sec.Contents) + n)
		w := pick(t, "cdo", []uint32{v + 1, v - 1, 0, v - uint32(n), v - 24, ^uint32(0), 1 << 31, v ^ 1<<31, v + uint32(len(b.Sec.CD)), v + uint32(len(b.Sec.CD)) + 1})
		if w == v {
			w++
		}
		d = fmt.Sprint(w, " for ", v)
		assemble(block)
		at := len(b.Sec.Contents) + n + len(b.Sec.CD) + 16
		binary.LittleEndian.PutUint32(apk[at:], w)
		if t.Pct("size too", 50) { // size adapted, so that CD and end record stay adjacent
			binary.LittleEndian.PutUint32(apk[at-4:], uint32(at-16)-w)
			d += ", size adapted"
		}
	case "gap after the block":
		gap := bulk(t.Seed("gap"), t.Range("gapn", 1, 64))
		if t.Pct("zero", 50) {
			gap = make([]byte, len(gap))
		}
		d = fmt.Sprint(len(gap))
		apk = cat(b.Sec.Contents, block, gap, b.Sec.CD, b.Sec.EOCD(len(b.Sec.Contents)+n+len(gap)))
	case "ZIP64 locator":
		if len(b.Zip.Entries) == 0 {
			return
		}
		// the last 20 bytes of the central directory are a comment that looks like a locator
		loc := cat([]byte("PK\x06\x07"), bulk(t.Seed("loc"), 16))
		if t.Pct("zeros", 50) {
			loc = cat([]byte("PK\x06\x07"), make([]byte, 16))
		}
		off := 0
		if t.Pct("shifted", 35) {
			off = pick(t, "shift", []int{1, -1, 2, 4, 20, -16})
		}
		switch {
		case off > 0:
			loc = append(loc, make([]byte, off)...)
		case off < 0:
			loc = loc[:20+off]
		}
		b.Zip.CDOrder = nil
		last := b.Zip.Entries[len(b.Zip.Entries)-1]
		last.Comment = cat(t.Bytes("before", 0, 10), loc)
		b.Make()
		assemble(encodeBlock(b.Pairs()))
		d = fmt.Sprintf("shifted by %d", off)
		if off != 0 {
			t.Note("locator magic %s, combo %s <%d;%d>", d, combo, min, max)
			t.NonTrivial(apk, min, max)
			t.Class("bytes of a ZIP64 locator elsewhere")
			t.mustAccept("APK with the magic of a ZIP64 locator, but not where one would be ("+d+")", apk, min, max, wantScheme, wantChains)
			return
		}
	case "end record in the comment":
		// the comment's record reaches exactly to the end of the file and so is the end record
		n := t.Range("after", 0, 60)
		fake := cat(eocdMagic, make([]byte, 8), u32(uint32(t.Uni("f1", 3000))), u32(uint32(t.Uni("f2", 3000))), u16(uint16(n)), bytes.Repeat([]byte{'x'}, n))
		switch t.Uni("fk", 3) {
		case 0: // a copy of the real fields
			real := b.Sec.EOCD(len(b.Sec.Contents) + len(block))
			copy(fake[8:20], real[8:20])
		case 1: // a central directory that would reach up to this record
			off := uint32(len(b.Sec.Contents) + len(block))
			binary.LittleEndian.PutUint32(fake[16:], off+1)
			binary.LittleEndian.PutUint32(fake[12:], uint32(len(b.Sec.CD)+22-1))
		}
		b.Zip.Comment = cat(t.Bytes("pre", 0, 30), fake)
		b.Make()
		assemble(encodeBlock(b.Pairs()))
		d = fmt.Sprintf("%x", fake[:22])
	default: // the block is longer than it says, at its start
		x := bulk(t.Seed("x"), t.Range("xn", 1, 40))
		apk = cat(b.Sec.Contents, block[:8], x, block[8:], b.Sec.CD, b.Sec.EOCD(len(b.Sec.Contents)+n+len(x)))
		d = fmt.Sprint(len(x))
	}
	if bytes.Equal(apk, ctl) {
		return
	}
	t.Note("%s: %s, combo %s, v1 %v <%d;%d>", how, d, combo, v1 != nil, min, max)
	t.Sample("%s: %s", how, d)
	t.NonTrivial(apk, min, max)
	t.Class("%s", how)
	if v1 == nil {
		t.mustReject(how+" "+d, apk, min, max)
		return
	}
	if v := verify(apk, min, max); v.Err == nil {
		t.Class("fell back to v1")
		if v.Scheme != 1 || !sameChains(v.Certs, v1) {
			t.Violate("%s %s: accepted as scheme %d with %s", how, d, v.Scheme, chainStr(v.Certs))
		}
	}
}

func init() {
	register("C25", "a validly v2/v3/v3.1-signed APK with a drawn ZIP comment (0..65535 bytes, inconsistent end records in it) and magic numbers in every section, or one whose block sizes, magic, pairs, central directory fields or adjacency are wrong though signed as a lenient reader would see it; distinct by bytes and range",
		Sub{"layout", 4000, 60000, c25Case},
		Sub{"huge", 400, 6000, c25Huge},
		Sub{"bulky", 400, 6000, func(t *T) { bulkyCase(t, true) }},
		Sub{"malformed", 6000, 100000, c25Bad})
}

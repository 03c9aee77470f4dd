package main

import (
	"bytes"
	"fmt"
	"strings"
)

// secMut alters the protected sections of a signed APK; the signing block stays byte for byte.
// It returns a description and the altered file, or "" if it does not apply.
func (t *T) tamper(b *BlockAPK, block []byte) (string, []byte) {
	s := b.Sec
	cp := func() *Sections {
		c := *s
		c.Contents = append([]byte(nil), s.Contents...)
		c.CD = append([]byte(nil), s.CD...)
		c.Comment = append([]byte(nil), s.Comment...)
		return &c
	}
	orig := s.Assemble(block)
	blkLo, blkHi := len(s.Contents), len(s.Contents)+len(block)
	// a position in n, preferring borders of chunks and pages
	pos := func(n int) int {
		if n <= 1 {
			return 0
		}
		switch t.Uni("poskind", 5) {
		case 0:
			return t.Uni("pos.first", min(n, 64))
		case 1:
			return n - 1 - t.Uni("pos.last", min(n, 64))
		case 2:
			u := pick(t, "pos.unit", []int{mib, 4096, 65536})
			if n > u {
				p := t.Range("pos.k", 1, n/u)*u + t.Range("pos.d", -2, 2)
				if p >= 0 && p < n {
					return p
				}
			}
		}
		return t.Uni("pos", n)
	}
	secPick := func(c *Sections) (*[]byte, string) {
		switch t.Uni("sec", 3) {
		case 0:
			return &c.CD, "central directory"
		}
		return &c.Contents, "contents"
	}
	switch t.Uni("mut", 14) {
	case 0, 1, 2: // flip bits anywhere outside the block
		out := append([]byte(nil), orig...)
		n := 1
		if t.Pct("more", 20) {
			n = t.Range("flips", 2, 5)
		}
		d := ""
		for i := 0; i < n; i++ {
			var p int
			switch t.Uni("where", 4) {
			case 0:
				p = blkHi + t.Uni("cdpos", len(orig)-blkHi)
			case 1:
				p = len(orig) - 1 - t.Uni("eocdpos", min(22+len(s.Comment), len(orig)-blkHi))
			default:
				p = pos(blkLo)
			}
			out[p] ^= byte(1 << t.Uni("bit", 8))
			d += fmt.Sprintf(" %d", p)
		}
		return "bit flip at" + d, out
	case 3: // insert
		c := cp()
		sec, n := secPick(c)
		p := pos(len(*sec) + 1)
		ins := t.Bytes("ins", 1, 40)
		if t.Pct("inspage", 25) {
			ins = make([]byte, 4096)
		}
		if t.Pct("insmib", 4) {
			ins = make([]byte, mib)
		}
		*sec = cat((*sec)[:p], ins, (*sec)[p:])
		return fmt.Sprintf("%d bytes inserted at %d of the %s", len(ins), p, n), c.Assemble(block)
	case 4: // delete
		c := cp()
		sec, n := secPick(c)
		if len(*sec) == 0 {
			return "", nil
		}
		p := pos(len(*sec))
		k := 1 + t.Uni("del", min(len(*sec)-p, 50))
		if t.Pct("delpage", 25) && len(*sec)-p >= 4096 {
			k = 4096
		}
		*sec = cat((*sec)[:p], (*sec)[p+k:])
		return fmt.Sprintf("%d bytes deleted at %d of the %s", k, p, n), c.Assemble(block)
	case 5: // swap two equally long ranges
		c := cp()
		sec, n := secPick(c)
		u := pick(t, "unit", []int{1, 7, 64, 512, 4096, mib})
		if len(*sec) < 2*u {
			u = 1
		}
		if len(*sec) < 2 {
			return "", nil
		}
		k := len(*sec) / u
		i, j := t.Uni("i", k), t.Uni("j", k)
		if i == j {
			j = (i + 1) % k
		}
		x := append([]byte(nil), (*sec)[i*u:i*u+u]...)
		copy((*sec)[i*u:], (*sec)[j*u:j*u+u])
		copy((*sec)[j*u:], x)
		return fmt.Sprintf("%d byte units %d and %d of the %s swapped", u, i, j, n), c.Assemble(block)
	case 6: // move bytes between contents and central directory
		c := cp()
		if t.Pct("dir", 50) {
			k := 1 + t.Uni("k", min(60, len(c.CD)))
			c.Contents, c.CD = cat(c.Contents, c.CD[:k]), c.CD[k:]
			return fmt.Sprintf("%d bytes moved from central directory to contents", k), c.Assemble(block)
		}
		k := 1 + t.Uni("k", min(60, len(c.Contents)))
		n := len(c.Contents) - k
		c.Contents, c.CD = c.Contents[:n], cat(c.Contents[n:], c.CD)
		return fmt.Sprintf("%d bytes moved from contents to central directory", k), c.Assemble(block)
	case 7: // comment
		c := cp()
		switch t.Uni("cm", 3) {
		case 0:
			c.Comment = cat(c.Comment, t.Bytes("cma", 1, 30))
		case 1:
			c.Comment = t.Bytes("cmb", 0, 300)
		default:
			if len(c.Comment) > 0 {
				c.Comment = c.Comment[:len(c.Comment)-1]
			} else {
				c.Comment = []byte{0}
			}
		}
		return "comment changed", c.Assemble(block)
	case 8: // append or truncate without patching anything
		if t.Pct("app", 60) {
			return "bytes appended", cat(orig, t.Bytes("tail", 1, 64))
		}
		return "file truncated", orig[:len(orig)-1-t.Uni("cut", min(len(orig)-1, 200))]
	case 9: // entry count fields etc. of the EOCD
		e := s.EOCD(blkHi)
		p := 4 + t.Uni("eocdbyte", 18)
		e[p] ^= byte(1 + t.Uni("x", 255))
		return fmt.Sprintf("EOCD byte %d changed", p), cat(s.Contents, block, s.CD, e)
	case 10: // gap after the block or before the EOCD
		g := t.Bytes("gap", 1, 40)
		if t.Pct("g1", 50) {
			return "gap between block and central directory", cat(s.Contents, block, g, s.CD, s.EOCD(blkHi+len(g)))
		}
		return "gap between central directory and EOCD", cat(s.Contents, block, s.CD, g, s.EOCD(blkHi))
	case 11: // data change of one entry through the ZIP model
		z := b.Zip.clone()
		e := pick(t, "entry", z.Entries)
		what := ""
		switch t.Uni("edit", 7) {
		case 0:
			if len(e.Data) == 0 {
				e.Data = []byte{1}
			} else {
				e.Data = append([]byte(nil), e.Data...)
				e.Data[pos(len(e.Data))] ^= byte(1 + t.Uni("x", 255))
			}
			what = "entry data changed"
		case 1:
			e.Name += "x"
			what = "entry renamed"
		case 2:
			z.Entries = append(z.Entries, &ZEntry{Name: "assets/added.bin", Data: t.Bytes("added", 0, 100)})
			what = "entry added"
		case 3:
			e.NoCD = true
			what = "entry removed from the central directory"
		case 4:
			e.Deflate = !e.Deflate
			what = "entry recompressed"
		case 5:
			e.LocalExtra = cat(e.LocalExtra, []byte{0, 0})
			what = "local extra field changed"
		default:
			e.Comment = cat(e.Comment, []byte("c"))
			what = "entry comment changed"
		}
		return what, z.Build().Assemble(block)
	case 12: // central directory reordered
		z := b.Zip.clone()
		if len(z.Entries) < 2 {
			return "", nil
		}
		z.CDOrder = t.perm(len(z.Entries))
		return "central directory reordered", z.Build().Assemble(block)
	default: // several edits of different sections at once
		c := cp()
		c.Contents[pos(len(c.Contents))] ^= 0x10
		c.Comment = cat(c.Comment, []byte{1})
		c.CD[pos(len(c.CD))] ^= 4
		return "contents, central directory and comment changed", c.Assemble(block)
	}
}

func c02Case(t *T, o zipOpts, bigCD bool) {
	b := t.genBlockAPK(o)
	if bigCD {
		n := t.Range("cdentries", 17, 34)
		for i := 0; i < n; i++ {
			b.Zip.Entries = append(b.Zip.Entries, &ZEntry{Name: fmt.Sprintf("e%d", i), Comment: bulk(uint64(i), 62000)})
		}
		b.Make()
		t.Class("central directory>1MiB")
	}
	min, max := t.genRange(b)
	block := encodeBlock(b.Pairs())
	orig := b.Sec.Assemble(block)
	desc := fmt.Sprintf("v2{%s} v3{%s} v31{%s} <%d;%d> contents %d cd %d comment %d", specsStr(b.V2), specsStr(b.V3), specsStr(b.V31), min, max, len(b.Sec.Contents), len(b.Sec.CD), len(b.Sec.Comment))
	t.Note("%s", desc)
	if v := verify(orig, min, max); v.Err != nil {
		t.Class("base rejected")
		return // C01's business
	}
	n := 4
	if o.big > 0 || bigCD {
		n = 6
	}
	for i := 0; i < n; i++ {
		what, apk := t.tamper(b, block)
		if what == "" || bytes.Equal(apk, orig) {
			continue
		}
		t.Evals(1)
		t.NonTrivial(apk, min, max)
		t.mustReject(what, apk, min, max)
		scheme, _ := b.expect(min, max)
		t.Class("scheme %d", scheme)
		t.Sample("%s: %s", desc, what)
	}
}

// c02Mixed: an APK of which some records were made for its content, and others for a different one. The records that
// decide for the range do not match the content, whatever the others say.
func c02Mixed(t *T) {
	b := t.genBlockAPK(zipOpts{maxComment: 30})
	other := &BlockAPK{Zip: b.Zip.clone(), V2: b.V2, V3: b.V3, V31: b.V31}
	switch t.Uni("change", 4) {
	case 0:
		other.Zip.Comment = cat(other.Zip.Comment, []byte("x"))
	case 1:
		e := pick(t, "entry", other.Zip.Entries)
		e.Comment = cat(e.Comment, []byte("c"))
	case 2:
		other.Zip.Entries = append(other.Zip.Entries, &ZEntry{Name: "assets/added.bin", Data: t.Bytes("added", 0, 100)})
	default:
		e := pick(t, "entry", other.Zip.Entries)
		if len(e.Data) == 0 {
			e.Data = []byte{1}
		} else {
			e.Data = append([]byte(nil), e.Data...)
			e.Data[t.Uni("pos", len(e.Data))] ^= byte(1 + t.Uni("x", 255))
		}
	}
	other.Make()
	// other is the file; records of b do not match it
	var what string
	min, max := t.genRange(b)
	switch t.Uni("mix", 5) {
	case 0: // one of several v2 signers
		if len(b.V2) < 2 {
			what = ""
			break
		}
		i := t.Uni("which", len(b.RecV2))
		other.RecV2[i] = b.RecV2[i]
		other.RecV3, other.RecV31 = nil, nil
		min, max = t.v2Range()
		what = fmt.Sprintf("v2 signer %d of %d signed other content", i+1, len(b.V2))
	case 1: // v3 decides
		if len(b.V3) == 0 {
			break
		}
		other.RecV3, other.RecV31 = b.RecV3, nil
		if min < 28 {
			min = 28
		}
		if max < min {
			max = anyMax
		}
		what = "the v3 signers signed other content"
	case 2: // v3.1 decides
		if len(b.V31) == 0 {
			break
		}
		other.RecV31 = b.RecV31
		if min < 28 {
			min = 28
		}
		if max < 33 {
			max = anyMax
		}
		what = "the v3.1 signers signed other content"
	case 3: // v3 fails and matches, v2 does not match
		if len(b.V2) == 0 || len(b.V3) == 0 {
			break
		}
		other.RecV2, other.RecV31 = b.RecV2, nil
		if max < 28 {
			max = anyMax
		}
		i := t.Uni("which", len(b.V3))
		r := other.RecV3[i]
		switch t.Uni("fail", 4) {
		case 0: // a gap
			for i = range b.V3 {
				if b.V3[i].Max == anyMax {
					break
				}
			}
			r = other.RecV3[i]
			r.Max, r.SMax = r.Min+3, r.Min+3
			r.Sign(r.Key, b.V3[i].Algs)
			max = anyMax
			what = "range gap"
		case 1:
			r.Max = r.Max - 1
			what = "unsigned range differs"
		case 2: // every record is moved up
			for j, r := range other.RecV3 {
				r.Min += 80
				r.SMin += 80
				r.Sign(r.Key, b.V3[j].Algs)
			}
			min = min0(min, 27)
			what = "ranges begin late"
		default:
			what = t.spoil(r, b.V3[i])
		}
		if what == "" {
			break
		}
		what = "v2 signed other content, v3 this one, but fails: " + what
	default: // v2 decides because the range ends below 28
		if len(b.V2) == 0 {
			break
		}
		other.RecV2 = b.RecV2
		min, max = int32(24), int32(t.Range("max", 24, 27))
		what = "the v2 signers signed other content"
	}
	if what == "" {
		t.Class("not applicable")
		return
	}
	other.Order = nil
	apk := other.Bytes()
	d := fmt.Sprintf("v2{%s} v3{%s} v31{%s} <%d;%d>: %s", specsStr(b.V2), specsStr(b.V3), specsStr(b.V31), min, max, what)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	t.Class("%s", strings.SplitN(what, ":", 2)[0])
	t.mustReject(d, apk, min, max)
}

func min0(a, b int32) int32 {
	if a < b {
		return a
	}
	return b
}

func init() {
	register("C02", "a case is a validly signed APK (C01's generator) and one edit outside the signing block (bit flips, insertions/deletions/moves with offsets patched, entry level edits, EOCD/comment edits, gaps); non-trivial: the original verifies for the range and the bytes differ; distinct by altered bytes and range",
		Sub{"edit", 3600, 80000, func(t *T) { c02Case(t, zipOpts{maxComment: 300}, false) }},
		Sub{"every", 40, 2000, c02Every},
		Sub{"mixed", 1200, 30000, c02Mixed},
		Sub{"edit-large", 240, 4000, func(t *T) { c02Case(t, zipOpts{maxEntries: 3, big: 100, maxComment: 2000}, false) }},
		Sub{"edit-large-cd", 48, 800, func(t *T) { c02Case(t, zipOpts{maxEntries: 2}, true) }},
	)
}

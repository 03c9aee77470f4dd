package main

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/signingblock"
)

// hugeFile is a file of zeros with some other parts in it.
type hugeFile struct {
	parts []hugePart
	size  int64
	pos   int64
}

type hugePart struct {
	off  int64
	data []byte
}

func (f *hugeFile) ReadAt(b []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= f.size {
		return 0, io.EOF
	}
	n, err := len(b), error(nil)
	if int64(n) > f.size-off {
		n, err = int(f.size-off), io.EOF
	}
	b = b[:n]
	for i := range b {
		b[i] = 0
	}
	for _, p := range f.parts {
		lo, hi := p.off, p.off+int64(len(p.data))
		if lo < off {
			lo = off
		}
		if hi > off+int64(n) {
			hi = off + int64(n)
		}
		if lo < hi {
			copy(b[lo-off:hi-off], p.data[lo-p.off:hi-p.off])
		}
	}
	return n, err
}

func (f *hugeFile) Read(b []byte) (int, error) {
	n, err := f.ReadAt(b, f.pos)
	f.pos += int64(n)
	if n > 0 {
		err = nil
	}
	return n, err
}

func (f *hugeFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

// hugeAPK puts zeros after the files' contents, so that they are length bytes long.
func hugeAPK(s *Sections, length int64, block []byte) *hugeFile {
	f := &hugeFile{}
	at := func(off int64, b []byte) int64 {
		f.parts = append(f.parts, hugePart{off, b})
		return off + int64(len(b))
	}
	at(0, s.Contents)
	cd := at(length, block)
	f.size = at(at(cd, s.CD), s.EOCD(int(cd)))
	return f
}

// hugeDigest is what the definitions give for these sections.
func hugeDigest(kind int, s *Sections, length int64) []byte {
	tail := cat(s.CD, s.EOCD(int(length)))
	if kind == 3 {
		salted := func(page []byte) []byte { return sum(crypto.SHA256, make([]byte, 8), page) }
		zero := salted(make([]byte, 4096))
		var level []byte
		for off := int64(0); off < length; off += 4096 {
			if off >= int64(len(s.Contents)) {
				level = append(level, zero...)
				continue
			}
			page := make([]byte, 4096)
			copy(page, s.Contents[off:])
			level = append(level, salted(page)...)
		}
		for len(tail)%4096 != 0 {
			tail = append(tail, 0)
		}
		for off := 0; off < len(tail); off += 4096 {
			level = append(level, salted(tail[off:off+4096])...)
		}
		for len(level)%4096 != 0 {
			level = append(level, 0)
		}
		size := length + int64(len(s.CD)+len(s.EOCD(0)))
		return cat(verityRoot(level, make([]byte, 8), false), u64(uint64(size)))
	}
	h := crypto.SHA256
	if kind == 2 {
		h = crypto.SHA512
	}
	chunk := func(b []byte) []byte { return sum(h, []byte{0xa5}, u32(uint32(len(b))), b) }
	zero := chunk(make([]byte, mib))
	var sums []byte
	n := uint32(0)
	for off := int64(0); off < length; off += mib {
		n++
		if off >= int64(len(s.Contents)) && length-off >= mib {
			sums = append(sums, zero...)
			continue
		}
		b := make([]byte, min64(mib, length-off))
		if off < int64(len(s.Contents)) {
			copy(b, s.Contents[off:])
		}
		sums = append(sums, chunk(b)...)
	}
	for _, x := range [][]byte{s.CD, s.EOCD(int(length))} {
		for len(x) > 0 {
			k := int(min64(mib, int64(len(x))))
			sums = append(sums, chunk(x[:k])...)
			x = x[k:]
			n++
		}
	}
	return sum(h, []byte{0x5a}, u32(n), sums)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// hugeLength draws where the signing block begins: beyond what 31 (or 32) bits hold, or just not.
func (t *T) hugeLength(up int64) int64 {
	base := pick(t, "huge.base", []int64{1 << 31, 1 << 31, 1 << 31, 3 << 30, 1<<32 - 1<<20})
	if base > up {
		base = 1 << 31
	}
	return base + 4096*int64(t.Range("huge.off", -2, 200))
}

// c21Huge: sizes and offsets that do not fit into 31 bits.
func c21Huge(t *T) {
	b := &BlockAPK{Zip: t.sizedZip(0, 0, pick(t, "comment", []int{0, 1, 100}))}
	v3 := t.Pct("v3", 40)
	kind := t.Range("kind", 1, 3)
	s := t.c21Signer(v3, kind)
	scheme, min := 2, int32(24)
	if v3 {
		b.V3, scheme, min = []*SignerSpec{s}, 3, 28
	} else {
		b.V2 = []*SignerSpec{s}
	}
	b.Zip.Align = 4096
	b.Sec = b.Zip.Build()
	length := t.hugeLength(3 << 30)
	b.D = &Digests{b.Sec, map[int][]byte{kind: hugeDigest(kind, b.Sec, length)}}
	b.RecV2, b.RecV3 = makeAll(b.V2, b.D), makeAll(b.V3, b.D)
	block := encodeBlock(b.Pairs())
	f := hugeAPK(b.Sec, length, block)
	d := fmt.Sprintf("%d bytes (%#x before the signing block), %s", f.size, length, specsStr(append(b.V2, b.V3...)))
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(d)
	t.Class("digest %d, scheme %d", kind, scheme)
	res, err := apkverifier.VerifyWithSdkVersionReader(f, nil, min, anyMax)
	if err != nil || res.SigningSchemeId != scheme || len(res.SignerCerts) != 1 || !bytes.Equal(res.SignerCerts[0][0].Raw, s.Chain[0]) {
		t.Violate("%s: %v, scheme %d", d, err, res.SigningSchemeId)
	}
	at := length - 1 - int64(t.Uni("at", 1<<20))
	f.parts = append(f.parts, hugePart{at, []byte{1}})
	t.Evals(1)
	if _, err := apkverifier.VerifyWithSdkVersionReader(f, nil, min, anyMax); err == nil {
		t.Violate("%s: accepted with byte %#x changed", d, at)
	}
}

// stretch puts zeros before the central directory of an APK without signing block.
func stretch(apk []byte, comment int, length int64) *hugeFile {
	e := len(apk) - 22 - comment
	eocd := append([]byte(nil), apk[e:]...)
	off := int(binary.LittleEndian.Uint32(eocd[16:]))
	binary.LittleEndian.PutUint32(eocd[16:], uint32(length))
	return &hugeFile{parts: []hugePart{{0, apk[:off]}, {length, apk[off:e]}, {length + int64(e-off), eocd}}, size: length + int64(len(apk)-off)}
}

// c25Huge: the signing block, the central directory and v1 signatures of files of gigabytes are found.
func c25Huge(t *T) {
	if t.Pct("v1", 40) {
		j, min, max := t.genSignedJar(zipOpts{maxEntries: 3, maxSize: 300}, 2)
		apk := j.Bytes()
		before := verify(apk, min, max)
		n := len(j.Zip.Comment)
		if binary.LittleEndian.Uint16(apk[len(apk)-2-n:]) != uint16(n) {
			t.Violate("harness: comment of %d bytes", n)
		}
		f := stretch(apk, n, t.hugeLength(1<<32-1))
		d := fmt.Sprintf("v1 <%d;%d>, %d bytes", min, max, f.size)
		t.Note("%s", d)
		t.Sample("%s", d)
		t.NonTrivial(apk, f.size, min, max)
		res, err := apkverifier.VerifyWithSdkVersionReader(f, nil, min, max)
		v := Verdict{err, res.SigningSchemeId, rawChains(res.SignerCerts), res}
		t.Class("v1: %s", verdictText(v))
		if verdictText(v) != verdictText(before) {
			t.Violate("%s: %s, with the gap %s", d, verdictText(before), verdictText(v))
		}
		return
	}
	b := t.genBlockAPK(zipOpts{maxEntries: 3, maxSize: 300})
	b.Make()
	length := t.hugeLength(1<<32 - 1)
	f := hugeAPK(b.Sec, length, encodeBlock(b.Pairs()))
	apk := b.Bytes()
	d := fmt.Sprintf("%d bytes, %#x before the signing block; v2{%s} v3{%s} v31{%s}", f.size, length, specsStr(b.V2), specsStr(b.V3), specsStr(b.V31))
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(d)
	t.Attach("apk without the gap", apk)
	want, err := signingblock.ExtractCertsReader(bytes.NewReader(apk), 1, anyMax)
	if err != nil {
		t.Class("not extracted: %v", errClass(err))
		return
	}
	got, err := signingblock.ExtractCertsReader(f, 1, anyMax)
	t.Class("block: %d signers", len(want))
	if err != nil || !chainsEqual(rawChains(got), rawChains(want)) {
		t.Violate("%s: extracted %s, %v; without the gap %s", d, chainStr(rawChains(got)), err, chainStr(rawChains(want)))
	}
	top, err := apkverifier.ExtractCertsReader(f, nil)
	if err != nil || !chainsEqual(rawChains(top), rawChains(want)) {
		t.Violate("%s: extracted %s, %v; without the gap %s", d, chainStr(rawChains(top)), err, chainStr(rawChains(want)))
	}
}

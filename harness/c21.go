package main

import (
	"bytes"
	"crypto"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
)

// sizedZip is a ZIP whose three protected sections have the given sizes (at least; the smallest possible otherwise).
func (t *T) sizedZip(contents, cd, comment int) *ZipSpec {
	z := &ZipSpec{Comment: bulk(t.Seed("comm"), comment)}
	m := t.genManifest()
	z.Entries = []*ZEntry{{Name: "AndroidManifest.xml", Data: m.Encode()}, {Name: "a", Data: t.Bytes("a", 0, 50)}}
	last := &ZEntry{Name: "assets/data.bin"}
	per := 60000
	for i := 0; cd > 0 && i < cd/per+1 && i < 60; i++ {
		z.Entries = append(z.Entries, &ZEntry{Name: fmt.Sprintf("c%02d", i)})
	}
	z.Entries = append(z.Entries, last)
	s := z.Build()
	seed := t.Seed("fill")
	if n := contents - len(s.Contents); n > 0 {
		last.Data = bulk(seed, n)
		if t.Pct("zeros", 15) {
			last.Data = make([]byte, n)
		}
	}
	rest := cd - len(s.CD)
	for i := 0; rest > 4 && i < len(z.Entries); i++ {
		n := rest
		if n > 65535 {
			n = 65535
		}
		if rest > n && rest-n < 5 {
			n -= 5
		}
		z.Entries[i].CDExtra = cat(u16(0x7875), u16(uint16(n-4)), bulk(seed+uint64(i), n-4))
		rest -= n
	}
	return z
}

// c21Size draws a section size next to a border of chunks or pages.
func (t *T) c21Size(label string, chunks int) int {
	switch t.Uni(label+".kind", 6) {
	case 0:
		return t.Range(label+".k", 1, chunks)*mib + t.Range(label+".d", -2, 2)
	case 1:
		return t.Range(label+".k", 1, chunks) * mib
	case 2:
		return t.Range(label+".p", 1, 300)*4096 + t.Range(label+".d", -2, 2)
	case 3:
		return t.Range(label+".r", 0, chunks*mib+5000)
	}
	return 0
}

func (t *T) c21Signer(v3 bool, kinds ...int) *SignerSpec {
	for {
		k := t.genKey("key")
		var pool []uint32
		for _, a := range k.algs() {
			for _, x := range kinds {
				if a.Digest == x {
					pool = append(pool, a.ID)
				}
			}
		}
		if len(pool) > 0 {
			return &SignerSpec{Key: k, Algs: []uint32{pick(t, "alg", pool)}, Chain: [][]byte{selfCert(k, t.Uni("certv", 3))}, V3: v3, Min: 28, Max: anyMax}
		}
	}
}

func (b *BlockAPK) secStr() string {
	return fmt.Sprintf("sections %d+%d+%d", len(b.Sec.Contents), len(b.Sec.CD), len(b.Sec.EOCD(0)))
}

// c21Accept: the defined digests are accepted whatever the sizes.
func c21Accept(t *T) {
	b := &BlockAPK{}
	kinds := pick(t, "kinds", [][]int{{1}, {2}, {3}, {1, 2}, {1, 2, 3}})
	comment := 0
	if t.Pct("comment", 40) {
		comment = pick(t, "commsize", []int{1, 2, 4074, 4073, 4075, 65535, 65514, 100, 3000})
	}
	c, cd := t.c21Size("contents", 3), t.c21Size("cd", 1)
	if t.Pct("totaledge", 30) { // the size of everything, for the page tree
		cd = 4096*t.Range("tp", 1, 40) - 22 - comment + t.Range("td", -1, 1)
	}
	b.Zip = t.sizedZip(c, cd, comment)
	for i := t.nSigners(); i > 0; i-- {
		b.V2 = append(b.V2, t.c21Signer(false, kinds...))
	}
	min, max := int32(24), int32(pick(t, "max", []int{24, 27, 30, anyMax}))
	scheme := 2
	if t.Pct("v3", 35) {
		b.V3 = []*SignerSpec{t.c21Signer(true, kinds...)}
		min, max, scheme = 28, anyMax, 3
	}
	b.Make()
	apk := b.Bytes()
	d := fmt.Sprintf("%s v2{%s} v3{%s}", b.secStr(), specsStr(b.V2), specsStr(b.V3))
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk)
	t.Class("digests %v, contents mod 1MiB %s, cd mod 1MiB %s", kinds, edge(len(b.Sec.Contents)), edge(len(b.Sec.CD)))
	_, chains := b.expect(min, max)
	t.mustAccept(d, apk, min, max, scheme, chains)
}

func edge(n int) string {
	switch r := n % mib; {
	case n == 0 || n >= mib && r == 0:
		return "0"
	case n >= mib-2 && r <= 2:
		return "just over"
	case r >= mib-2:
		return "just under"
	case n > mib:
		return "in the middle"
	}
	return "below"
}

func sum(h crypto.Hash, parts ...[]byte) []byte {
	x := h.New()
	for _, p := range parts {
		x.Write(p)
	}
	return x.Sum(nil)
}

// chunkVariant is the chunked digest with replaceable details.
type chunkVariant struct {
	first, top byte
	size       func(n int) []byte
	count      func(n int) []byte
	pad        bool // last chunk of a section zero-padded
	extra      bool // an empty chunk after sections that end at a chunk border
	rev        bool // chunk digests in reverse order
}

func (v chunkVariant) digest(h crypto.Hash, secs [][]byte) []byte {
	var sums [][]byte
	for _, s := range secs {
		n := len(s)
		for off := 0; off < n || off == n && v.extra && n%mib == 0; off += mib {
			end := off + mib
			c := s[off:]
			if end < n {
				c = s[off:end]
			}
			if v.pad && len(c) < mib {
				c = cat(c, make([]byte, mib-len(c)))
			}
			sums = append(sums, sum(h, []byte{v.first}, v.size(len(c)), c))
		}
	}
	if v.rev {
		for i, j := 0, len(sums)-1; i < j; i, j = i+1, j-1 {
			sums[i], sums[j] = sums[j], sums[i]
		}
	}
	return sum(h, []byte{v.top}, v.count(len(sums)), cat(sums...))
}

func cLE32(n int) []byte { return u32(uint32(n)) }
func cBE32(n int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(n)) }

// wrongChunked is a neighbouring definition of the chunked digest; blockLen is the length of the signing block.
func (t *T) wrongChunked(h crypto.Hash, s *Sections, blockLen int) (string, []byte) {
	secs := s.signedSections()
	std := chunkVariant{first: 0xa5, top: 0x5a, size: cLE32, count: cLE32}
	v := std
	what := ""
	if right := std.digest(h, secs); !bytes.Equal(right, chunkedDigest(h, secs, digestDef{})) {
		t.Fatalf("harness: two reference digests differ")
	}
	switch t.Uni("wrong", 24) {
	case 0:
		n := pick(t, "chunk", []int{mib - 1, mib + 1, mib / 2, 2 * mib, 4096, 1000000, 65536, 1 << 30})
		return fmt.Sprintf("chunks of %d bytes", n), chunkedDigest(h, secs, digestDef{chunk: n})
	case 1:
		return "chunks across sections", chunkedDigest(h, secs, digestDef{joined: true})
	case 2:
		return "chunk count 0", chunkedDigest(h, secs, digestDef{noCount: true})
	case 3:
		v.first, v.top = 0x5a, 0xa5
		what = "prefixes exchanged"
	case 4:
		v.size = cBE32
		what = "big-endian chunk size"
	case 5:
		v.count = cBE32
		what = "big-endian chunk count"
	case 6:
		d := t.Range("cd", 1, 3)
		if t.Pct("neg", 50) {
			d = -d
		}
		v.count = func(n int) []byte { return cLE32(n + d) }
		what = "chunk count off"
	case 7:
		v.pad = true
		what = "last chunk padded"
	case 8:
		v.extra = true
		what = "empty chunk at the end of a section"
	case 9:
		v.rev = true
		what = "chunk order"
	case 10:
		v.size = func(n int) []byte { return u64(uint64(n)) }
		what = "64-bit chunk size"
	case 11:
		v.count = func(n int) []byte { return u64(uint64(n)) }
		what = "64-bit chunk count"
	case 12:
		v.size = func(int) []byte { return nil }
		what = "no chunk size"
	case 13:
		v.count = func(int) []byte { return nil }
		what = "no chunk count"
	case 14:
		secs = [][]byte{s.Contents, s.CD, s.EOCD(len(s.Contents) + blockLen)}
		what = "offset of the central directory as in the file"
	case 15:
		secs = [][]byte{s.Contents, s.CD, s.EOCD(0)}
		what = "offset of the central directory zero"
	case 16:
		p := t.perm(3)
		secs = [][]byte{secs[p[0]], secs[p[1]], secs[p[2]]}
		what = "order of the sections"
	case 17:
		i := t.Uni("omit", 3)
		secs = append(append([][]byte{}, secs[:i]...), secs[i+1:]...)
		what = fmt.Sprintf("section %d left out", i)
	case 18:
		e := secs[2]
		secs = [][]byte{secs[0], secs[1], e[:22]}
		what = "comment left out"
	case 19:
		return "plain hash", sum(h, secs...)
	case 20:
		d := v.digest(h, secs)
		n := t.Uni("cut", len(d))
		return "digest cut off", d[:n]
	case 21:
		return "digest extended", cat(v.digest(h, secs), t.Bytes("ext", 1, 9))
	case 22:
		if h == crypto.SHA256 {
			x := v.digest(crypto.SHA512, secs)
			y := sha512.Sum512_256(x)
			return "digest of the other kind", pick(t, "ok", [][]byte{x, x[:32], y[:]})
		}
		x := v.digest(crypto.SHA256, secs)
		return "digest of the other kind", pick(t, "ok", [][]byte{x, cat(x, x), v.digest(crypto.SHA384, secs)})
	case 23:
		d := append([]byte(nil), v.digest(h, secs)...)
		d[t.Uni("at", len(d))] ^= byte(1 << t.Uni("bit", 8))
		return "digest with a flipped bit", d
	}
	return what, v.digest(h, secs)
}

// verityVariant is the page tree with replaceable details.
type verityVariant struct {
	salt    []byte
	page    int
	padData bool
	padTree bool
	root    bool // hash over the last page
	stop    int  // number of digests that fit into the root page
}

func (v verityVariant) digest(data []byte) []byte {
	level := data
	for {
		var next []byte
		n := 0
		for off := 0; off < len(level); off += v.page {
			end := off + v.page
			var pg []byte
			if end > len(level) {
				pg = level[off:]
				if v.padData {
					pg = cat(pg, make([]byte, end-len(level)))
				}
			} else {
				pg = level[off:end]
			}
			next = append(next, sum(crypto.SHA256, v.salt, pg)...)
			n++
		}
		if r := len(next) % v.page; r != 0 && v.padTree {
			next = cat(next, make([]byte, v.page-r))
		}
		if n <= v.stop {
			if !v.root {
				return next[:32]
			}
			return sum(crypto.SHA256, v.salt, next)
		}
		level = next
	}
}

func (t *T) wrongVerity(s *Sections, blockLen int) (string, []byte) {
	secs := s.signedSections()
	all := cat(secs...)
	v := verityVariant{salt: make([]byte, 8), page: 4096, padData: true, padTree: true, root: true, stop: 128}
	if !bytes.Equal(cat(v.digest(all), u64(uint64(len(all)))), verityDigest(secs)) {
		t.Fatalf("harness: two reference trees differ")
	}
	size := u64(uint64(len(all)))
	what := ""
	switch t.Uni("vwrong", 22) {
	case 0:
		v.salt = nil
		what = "no salt"
	case 1:
		v.salt = make([]byte, pick(t, "sl", []int{1, 4, 7, 9, 16, 32}))
		what = "salt of another length"
	case 2:
		v.salt = []byte{1, 0, 0, 0, 0, 0, 0, 0}
		what = "another salt"
	case 3:
		v.page = pick(t, "pg", []int{1024, 2048, 4095, 8192, 65536, mib})
		v.stop = v.page / 32
		what = "another page size"
	case 4:
		v.padData = false
		what = "last page not padded"
	case 5:
		v.padTree = false
		what = "tree not padded"
	case 6:
		v.root = false
		what = "root page not hashed"
	case 7:
		size = nil
		what = "no size"
	case 8:
		size = binary.BigEndian.AppendUint64(nil, uint64(len(all)))
		what = "size big-endian"
	case 9:
		size = u32(uint32(len(all)))
		what = "size of 32 bits"
	case 10:
		size = u64(uint64(len(all) + pick(t, "sd", []int{1, -1, 8, 4096, blockLen, -len(secs[2]), -len(secs[1])})))
		what = "size off"
	case 11:
		size = u64(uint64((len(all) + 4095) / 4096 * 4096))
		what = "size rounded up"
	case 12:
		all = cat(s.Contents, s.CD, s.EOCD(len(s.Contents)+blockLen))
		what = "offset of the central directory as in the file"
	case 13:
		pad := func(b []byte) []byte { return cat(b, make([]byte, (4096-len(b)%4096)%4096)) }
		all = cat(pad(s.Contents), pad(s.CD), pad(secs[2]))
		what = "sections padded separately"
	case 14:
		i := t.Uni("omit", 3)
		all = cat(append(append([][]byte{}, secs[:i]...), secs[i+1:]...)...)
		what = fmt.Sprintf("section %d left out", i)
	case 15:
		p := t.perm(3)
		all = cat(secs[p[0]], secs[p[1]], secs[p[2]])
		what = "order of the sections"
	case 16:
		v.stop = pick(t, "stop", []int{1, 127, 64, 256})
		what = "another depth"
	case 17:
		d := cat(v.digest(all), size)
		return "digest cut off", d[:t.Uni("cut", len(d))]
	case 18:
		return "digest extended", cat(v.digest(all), size, t.Bytes("ext", 1, 9))
	case 19:
		d := cat(v.digest(all), size)
		d[t.Uni("at", len(d))] ^= byte(1 << t.Uni("bit", 8))
		return "digest with a flipped bit", d
	case 20:
		return "chunked digest", pick(t, "ch", [][]byte{chunkedDigest(crypto.SHA256, secs, digestDef{}), cat(chunkedDigest(crypto.SHA256, secs, digestDef{}), size)})
	case 21:
		return "size first", cat(size, v.digest(all))
	}
	return what, cat(v.digest(all), size)
}

// c21Wrong: a correctly signed digest of a neighbouring definition is rejected, in whichever signer it is.
func c21Wrong(t *T) {
	b := &BlockAPK{}
	verity := t.Pct("verity", 45)
	kinds := []int{1, 2}
	if verity {
		kinds = []int{3}
	}
	comment := 0
	if t.Pct("comment", 50) {
		comment = t.Range("commsize", 1, 600)
	}
	c, cd := t.c21Size("contents", 2), t.c21Size("cd", 1)
	if t.Pct("small", 40) {
		c, cd = 0, t.Uni("cds", 6000)
	}
	b.Zip = t.sizedZip(c, cd, comment)
	n := t.nSigners()
	v3 := t.Pct("v3", 40)
	for i := 0; i < n; i++ {
		ks := kinds
		if i > 0 && t.Pct("mixed", 40) {
			ks = []int{1, 2, 3}
		}
		if v3 {
			b.V3 = append(b.V3, t.c21Signer(true, ks...))
		} else {
			b.V2 = append(b.V2, t.c21Signer(false, ks...))
		}
	}
	specs, min := b.V2, int32(24)
	if v3 { // (one signer; the ranges of several would have to be disjoint)
		b.V3 = b.V3[:1]
		specs, min = b.V3, 28
	}
	b.Make()
	recs := b.RecV2
	if v3 {
		recs = b.RecV3
	}
	at := t.Uni("which", len(recs))
	kind := digestKind(specs[at].Algs[0])
	right := b.D.Get(kind)
	r := recs[at]
	apply := func(d []byte) {
		r.Digests = []AlgData{{specs[at].Algs[0], d}}
		r.Sign(specs[at].Key, specs[at].Algs)
	}
	blockLen := len(encodeBlock(b.Pairs()))
	var what string
	var wrong []byte
	switch kind {
	case 3:
		what, wrong = t.wrongVerity(b.Sec, blockLen)
	case 2:
		what, wrong = t.wrongChunked(crypto.SHA512, b.Sec, blockLen)
	default:
		what, wrong = t.wrongChunked(crypto.SHA256, b.Sec, blockLen)
	}
	if bytes.Equal(wrong, right) {
		t.Class("%s: no difference at this size", what)
		return
	}
	apply(wrong)
	apk := b.Bytes()
	d := fmt.Sprintf("%s, signer %d of %d (digest kind %d): %s; %s", b.secStr(), at, len(recs), kind, what, specsStr(specs))
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk)
	t.Class("kind %d: %s", kind, what)
	t.mustReject(d, apk, min, anyMax)
}

// c21Deep: page trees of three levels.
func c21Deep(t *T) {
	b := &BlockAPK{}
	base := 128 * 128 * 4096
	c := base + pick(t, "off", []int{-4096, 0, 4096, 128 * 4096})
	b.Zip = t.sizedZip(c, 0, 0)
	b.V2 = []*SignerSpec{t.c21Signer(false, 3)}
	b.Make()
	d := fmt.Sprintf("%s %s", b.secStr(), specsStr(b.V2))
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(d)
	t.Class("contents %d pages", len(b.Sec.Contents)/4096)
	// (not attached to anything: too large)
	apk := b.Bytes()
	if v := verify(apk, 24, anyMax); v.Err != nil || v.Scheme != 2 {
		t.Violate("%s: %v, scheme %d", d, v.Err, v.Scheme)
	}
	x := append([]byte(nil), b.D.Get(3)...)
	x[t.Uni("at", len(x))] ^= 4
	b.RecV2[0].Digests[0].Data = x
	b.RecV2[0].Sign(b.V2[0].Key, b.V2[0].Algs)
	if v := verify(b.Bytes(), 24, anyMax); v.Err == nil {
		t.Violate("%s: accepted with another digest", d)
	}
}

func init() {
	register("C21", "a case is an APK with section sizes drawn around the borders of chunks, pages and tree levels, signed with the defined digest (must be accepted) or with one computed by a neighbouring definition that yields another value (must be rejected); non-trivial when the APK differs from every earlier one and, for the second kind, the value does",
		Sub{"accept", 600, 12000, c21Accept},
		Sub{"wrong", 1600, 40000, c21Wrong},
		Sub{"deep", 8, 64, c21Deep},
		Sub{"huge", 8, 64, c21Huge},
	)
}

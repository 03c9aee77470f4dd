package main

import (
	"crypto"
	"encoding/binary"
)

// ---- reference content digests ----

const mib = 1 << 20

type digestDef struct {
	chunk   int  // chunk size
	joined  bool // chunks cross section borders
	noCount bool
}

// chunkedDigest is the v2 specification's digest.
func chunkedDigest(h crypto.Hash, sections [][]byte, def digestDef) []byte {
	if def.chunk == 0 {
		def.chunk = mib
	}
	if def.joined {
		sections = [][]byte{cat(sections...)}
	}
	var sums []byte
	n := uint32(0)
	for _, s := range sections {
		for len(s) > 0 {
			k := def.chunk
			if k > len(s) {
				k = len(s)
			}
			x := h.New()
			x.Write(cat([]byte{0xa5}, u32(uint32(k))))
			x.Write(s[:k])
			sums = x.Sum(sums)
			s = s[k:]
			n++
		}
	}
	x := h.New()
	if def.noCount {
		n = 0
	}
	x.Write(cat([]byte{0x5a}, u32(n)))
	x.Write(sums)
	return x.Sum(nil)
}

type verityDef struct {
	salt             []byte
	noSize, noLevels bool
	noPad            bool
}

func verityRoot(data []byte, salt []byte, noPad bool) []byte {
	level := data
	for {
		var next []byte
		for off := 0; off < len(level); off += 4096 {
			end := off + 4096
			var page []byte
			if end > len(level) {
				page = append([]byte(nil), level[off:]...)
				if !noPad {
					page = append(page, make([]byte, end-len(level))...)
				}
			} else {
				page = level[off:end]
			}
			x := crypto.SHA256.New()
			x.Write(salt)
			x.Write(page)
			next = x.Sum(next)
		}
		if r := len(next) % 4096; r != 0 && !noPad {
			next = append(next, make([]byte, 4096-r)...)
		}
		if len(next) <= 4096 {
			x := crypto.SHA256.New()
			x.Write(salt)
			x.Write(next)
			return x.Sum(nil)
		}
		level = next
	}
}

func verityDigest(sections [][]byte) []byte {
	all := cat(sections...)
	return cat(verityRoot(all, make([]byte, 8), false), u64(uint64(len(all))))
}

// signedSections are the three protected sections (EOCD pointing at the block).
func (s *Sections) signedSections() [][]byte {
	return [][]byte{s.Contents, cat(s.CD, s.Gap), s.EOCD(len(s.Contents))}
}

// Digests computes content digests lazily. kind: 1 sha256, 2 sha512, 3 verity.
type Digests struct {
	sec   *Sections
	cache map[int][]byte
}

func newDigests(s *Sections) *Digests { return &Digests{s, map[int][]byte{}} }

func (d *Digests) Get(kind int) []byte {
	if b, ok := d.cache[kind]; ok {
		return b
	}
	var b []byte
	switch kind {
	case 1:
		b = chunkedDigest(crypto.SHA256, d.sec.signedSections(), digestDef{})
	case 2:
		b = chunkedDigest(crypto.SHA512, d.sec.signedSections(), digestDef{})
	case 3:
		b = verityDigest(d.sec.signedSections())
	}
	d.cache[kind] = b
	return b
}

// ---- APK Signing Block ----

func lp(parts ...[]byte) []byte {
	c := cat(parts...)
	return cat(u32(uint32(len(c))), c)
}

const (
	idV2       = 0x7109871a
	idV3       = 0xf05368c0
	idV31      = 0x1b93ad61
	idFrosting = 0x2146444e
	idStamp    = 0x6dff800d
	idVerPad   = 0x42726577

	attrStrip   = 0xbeeff00d
	attrPoR     = 0x3ba06f8c
	attrMinSdk  = 0x559f8b02
	attrRotDev  = 0xc2a6b3ba
	attrStPoR   = 0x9d6303f7
	attrStTime  = 0xe43c5946
	anyMax      = 0x7fffffff
	anyMin      = -1
	blockMagicS = "APK Sig Block 42"
)

type Pair struct {
	ID  uint32
	Val []byte
}

func encodePair(p Pair) []byte { return cat(u64(uint64(len(p.Val)+4)), u32(p.ID), p.Val) }

func encodeBlock(pairs []Pair) []byte {
	var body []byte
	for _, p := range pairs {
		body = append(body, encodePair(p)...)
	}
	n := u64(uint64(len(body) + 24))
	return cat(n, body, n, []byte(blockMagicS))
}

// padPair makes the block's total size a multiple of 4096.
func padPair(pairs []Pair) Pair {
	n := len(encodeBlock(pairs)) + 12
	return Pair{idVerPad, make([]byte, (4096-n%4096)%4096)}
}

type AlgData struct {
	Alg  uint32
	Data []byte
}

func encAlgs(a []AlgData) []byte {
	var out []byte
	for _, d := range a {
		out = append(out, lp(u32(d.Alg), lp(d.Data))...)
	}
	return out
}

type Attr struct {
	ID  uint32
	Val []byte
}

// Signer is one v2/v3/v3.1 signer record, every field of which can be altered after signing.
type Signer struct {
	V3          bool
	Key         *Key
	Digests     []AlgData
	Certs       [][]byte
	Attrs       []Attr
	Min, Max    int32 // outside the signed data
	SMin, SMax  int32 // inside
	Sigs        []AlgData
	PubKey      []byte
	Tail        []byte // after the record
	SignedTail  []byte
	SignedBytes []byte // as signed / emitted
	Raw         []byte // the whole record, if set
}

func (s *Signer) clone() *Signer {
	c := *s
	cp := func(a []AlgData) []AlgData {
		r := make([]AlgData, len(a))
		for i, d := range a {
			r[i] = AlgData{d.Alg, append([]byte(nil), d.Data...)}
		}
		return r
	}
	c.Digests, c.Sigs = cp(s.Digests), cp(s.Sigs)
	c.Certs = append([][]byte(nil), s.Certs...)
	c.Attrs = append([]Attr(nil), s.Attrs...)
	c.PubKey = append([]byte(nil), s.PubKey...)
	c.SignedBytes = append([]byte(nil), s.SignedBytes...)
	return &c
}

// EncodeSigned builds the signed data from the fields.
func (s *Signer) EncodeSigned() []byte {
	var certs, attrs []byte
	for _, c := range s.Certs {
		certs = append(certs, lp(c)...)
	}
	for _, a := range s.Attrs {
		attrs = append(attrs, lp(u32(a.ID), a.Val)...)
	}
	var sdk []byte
	if s.V3 {
		sdk = cat(u32(uint32(s.SMin)), u32(uint32(s.SMax)))
	}
	return cat(lp(encAlgs(s.Digests)), lp(certs), sdk, lp(attrs), s.SignedTail)
}

// Sign (re)creates the signed data and the signatures of the given algorithms with key.
func (s *Signer) Sign(k *Key, algs []uint32) {
	s.SignedBytes = s.EncodeSigned()
	s.Sigs = nil
	for _, id := range algs {
		if a := algByID(id); a != nil && k.fits(a) {
			s.Sigs = append(s.Sigs, AlgData{id, k.SignAlg(a, s.SignedBytes)})
		} else {
			s.Sigs = append(s.Sigs, AlgData{id, bulk(uint64(id), 40)})
		}
	}
}

func (s *Signer) Encode() []byte {
	if s.Raw != nil {
		return s.Raw
	}
	var sdk []byte
	if s.V3 {
		sdk = cat(u32(uint32(s.Min)), u32(uint32(s.Max)))
	}
	return cat(lp(s.SignedBytes), sdk, lp(encAlgs(s.Sigs)), lp(s.PubKey), s.Tail)
}

func encodeSigners(ss []*Signer) []byte {
	var b []byte
	for _, s := range ss {
		b = append(b, lp(s.Encode())...)
	}
	return lp(b)
}

// SignerSpec is a recipe for a valid signer record.
type SignerSpec struct {
	Key      *Key
	Algs     []uint32 // may hold unknown ids
	Chain    [][]byte
	Attrs    []Attr
	V3       bool
	Min, Max int32
	Lin      *Lineage
}

// digestKind of an algorithm id; unknown ids have kind 0.
func digestKind(id uint32) int {
	if a := algByID(id); a != nil {
		return a.Digest
	}
	return 0
}

func (sp *SignerSpec) Make(d *Digests) *Signer {
	s := &Signer{V3: sp.V3, Key: sp.Key, Certs: sp.Chain, Attrs: sp.Attrs, Min: sp.Min, Max: sp.Max, SMin: sp.Min, SMax: sp.Max, PubKey: sp.Key.SPKI}
	for _, id := range sp.Algs {
		k := digestKind(id)
		if k == 0 {
			s.Digests = append(s.Digests, AlgData{id, bulk(uint64(id)+1, 32)})
		} else {
			s.Digests = append(s.Digests, AlgData{id, d.Get(k)})
		}
	}
	s.Sign(sp.Key, sp.Algs)
	return s
}

func (sp *SignerSpec) usesVerity() bool {
	for _, a := range sp.Algs {
		if digestKind(a) == 3 {
			return true
		}
	}
	return false
}

// strongest index in Algs: sha512 > verity > sha256, the first of the strongest kind.
func (sp *SignerSpec) best() int { return bestOf(sp.Algs) }

func bestOf(algs []uint32) int {
	rank := map[int]int{0: 0, 1: 1, 3: 2, 2: 3}
	b := -1
	for i, id := range algs {
		if k := rank[digestKind(id)]; k > 0 && (b < 0 || k > rank[digestKind(algs[b])]) {
			b = i
		}
	}
	return b
}

// ---- v3 lineage ----

type LineageNode struct {
	Cert      []byte
	Key       *Key
	ParentAlg uint32
	Alg       uint32 // algorithm this node uses to sign the next
	Flags     uint32
	Sig       []byte
	Signed    []byte
}

type Lineage struct {
	Version uint32
	Nodes   []*LineageNode
}

func (l *Lineage) clone() *Lineage {
	c := &Lineage{Version: l.Version}
	for _, n := range l.Nodes {
		m := *n
		c.Nodes = append(c.Nodes, &m)
	}
	return c
}

func (n *LineageNode) encodeSigned() []byte { return cat(lp(n.Cert), u32(n.ParentAlg)) }

// Sign fills parent algorithms and signatures of nodes from index i.
func (l *Lineage) Sign(from int) {
	for i := from; i < len(l.Nodes); i++ {
		n := l.Nodes[i]
		if i == 0 {
			n.Signed = n.encodeSigned()
			continue
		}
		p := l.Nodes[i-1]
		n.ParentAlg = p.Alg
		n.Signed = n.encodeSigned()
		n.Sig = p.Key.SignAlg(algByID(p.Alg), n.Signed)
	}
}

func (l *Lineage) Encode() []byte {
	b := u32(l.Version)
	for _, n := range l.Nodes {
		b = append(b, lp(lp(n.Signed), u32(n.Flags), u32(n.Alg), lp(n.Sig))...)
	}
	return b
}

func (l *Lineage) Prefix(n int) *Lineage { return &Lineage{l.Version, l.Nodes[:n]} }

// ---- source stamp ----

type Stamp struct {
	Cert     []byte
	Schemes  map[int32][]AlgData
	Order    []int32
	Attrs    []byte // lp(attributes)
	AttrSigs []AlgData
	NoAttrs  bool
}

func (s *Stamp) Encode() []byte {
	var sch []byte
	for _, id := range s.Order {
		sch = append(sch, lp(u32(uint32(id)), lp(encAlgs(s.Schemes[id])))...)
	}
	b := cat(lp(s.Cert), lp(sch))
	if !s.NoAttrs {
		b = cat(b, lp(s.Attrs), lp(encAlgs(s.AttrSigs)))
	}
	return lp(b)
}

func stampAttrs(attrs []Attr) []byte {
	var b []byte
	for _, a := range attrs {
		b = append(b, lp(u32(a.ID), a.Val)...)
	}
	return lp(b)
}

// stampDigests encodes content digests (kind -> digest) as the stamp signs them.
func stampDigests(m map[int][]byte) []byte {
	var b []byte
	for k := 1; k <= 4; k++ {
		if d, ok := m[k]; ok {
			b = append(b, cat(u32(uint32(8+len(d))), u32(uint32(k)), u32(uint32(len(d))), d)...)
		}
	}
	return b
}

func signAll(k *Key, algs []uint32, data []byte) []AlgData {
	var r []AlgData
	for _, id := range algs {
		if a := algByID(id); a != nil && k.fits(a) {
			r = append(r, AlgData{id, k.SignAlg(a, data)})
		} else {
			r = append(r, AlgData{id, bulk(uint64(id), 24)})
		}
	}
	return r
}

// ---- frosting ----

func varint(v uint32) []byte {
	var b []byte
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func frostingHash(s *Sections, v2 []byte) []byte {
	x := crypto.SHA256.New()
	x.Write(s.Contents)
	if len(v2) > 0 {
		x.Write(u32(idV2))
		x.Write(v2)
	}
	x.Write(s.CD)
	x.Write(s.EOCD(len(s.Contents)))
	return x.Sum(nil)
}

func le32(b []byte) uint32 { return binary.LittleEndian.Uint32(b) }

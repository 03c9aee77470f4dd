package main

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"sort"
	"strings"

	"github.com/avast/apkverifier"
)

// ---- running the verifier ----

type Verdict struct {
	Err    error
	Scheme int
	Certs  [][][]byte
	Res    apkverifier.Result
}

func rawChains(c [][]*x509.Certificate) [][][]byte {
	var out [][][]byte
	for _, ch := range c {
		var r [][]byte
		for _, x := range ch {
			r = append(r, x.Raw)
		}
		out = append(out, r)
	}
	return out
}

func verify(apk []byte, min, max int32) Verdict {
	res, err := apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(apk), nil, min, max)
	if observe != nil {
		observe(apk, min, max)
	}
	return Verdict{err, res.SigningSchemeId, rawChains(res.SignerCerts), res}
}

func chainsEqual(a, b [][][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if !bytes.Equal(a[i][j], b[i][j]) {
				return false
			}
		}
	}
	return true
}

// sameChains ignores the order of chains.
func sameChains(a, b [][][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	key := func(c [][][]byte) []string {
		var r []string
		for _, x := range c {
			r = append(r, fmt.Sprintf("%x", sha256Sum(bytes.Join(x, []byte("|")))))
		}
		sort.Strings(r)
		return r
	}
	ka, kb := key(a), key(b)
	for i := range ka {
		if ka[i] != kb[i] {
			return false
		}
	}
	return true
}

func certID(c []byte) string { return fmt.Sprintf("%x", sha256Sum(c)[:4]) }
func chainStr(c [][][]byte) string {
	var s []string
	for _, ch := range c {
		var x []string
		for _, b := range ch {
			x = append(x, certID(b))
		}
		s = append(s, strings.Join(x, ">"))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (t *T) mustAccept(what string, apk []byte, min, max int32, scheme int, chains [][][]byte) Verdict {
	t.Attach("apk", apk)
	v := verify(apk, min, max)
	if v.Err != nil {
		t.Violate("%s: rejected for <%d;%d>: %v", what, min, max, v.Err)
	}
	if scheme != 0 && v.Scheme != scheme {
		t.Violate("%s: scheme %d reported for <%d;%d>, want %d", what, v.Scheme, min, max, scheme)
	}
	if chains != nil && !chainsEqual(v.Certs, chains) {
		t.Violate("%s: certificates %s reported for <%d;%d>, want %s", what, chainStr(v.Certs), min, max, chainStr(chains))
	}
	return v
}

func (t *T) mustReject(what string, apk []byte, min, max int32) Verdict {
	t.Attach("apk", apk)
	v := verify(apk, min, max)
	if v.Err == nil {
		t.Violate("%s: accepted for <%d;%d> (scheme %d, certificates %s)", what, min, max, v.Scheme, chainStr(v.Certs))
	}
	return v
}

// ---- generators ----

type zipOpts struct {
	maxEntries int
	maxSize    int
	manifest   *ManifestSpec // nil: generated
	noManifest bool
	big        int // percent of cases with an entry of 1..3 MiB
	heavy      int // percent of cases with a large file or many files
	align      int
	maxComment int
	plainNames bool
}

var nameParts = []string{"res", "assets", "lib", "classes", "a", "raw", "x86", "kotlin", "META", "META-INF.bak", "META-INFO", "strings-cs", "image_1", "README", "ünïcode", "with space", "deep"}
var nameExts = []string{".xml", ".dex", ".png", "", ".so", ".RSA", ".SF", ".txt", ".arsc"}

func (t *T) genName(used map[string]bool, plain bool) string {
	for i := 0; ; i++ {
		n := ""
		for d := t.Uni("dirs", 3); d > 0; d-- {
			n += pick(t, "dir", nameParts) + "/"
		}
		n += pick(t, "base", nameParts)
		if !plain && t.Pct("longname", 4) {
			n += strings.Repeat("long", t.Range("longlen", 5, 60))
		}
		if i > 0 {
			n += fmt.Sprint(i)
		}
		n += pick(t, "ext", nameExts)
		clash := used[n]
		for u := range used {
			if strings.HasPrefix(u, n+"/") || strings.HasPrefix(n, u+"/") {
				clash = true
			}
		}
		if !clash {
			used[n] = true
			return n
		}
	}
}

func (t *T) genManifest() ManifestSpec {
	m := ManifestSpec{UTF8: t.Pct("m.utf8", 30), AsString: t.Pct("m.str", 10)}
	if t.Pct("m.min", 60) {
		m.Min = i32p(int32(t.Range("m.minv", 1, 24)))
	}
	return m
}

func (t *T) genZip(o zipOpts) *ZipSpec {
	if o.maxEntries == 0 {
		o.maxEntries = 5
	}
	if o.maxSize == 0 {
		o.maxSize = 600
	}
	z := &ZipSpec{Align: o.align, Prefix: t.zipPrefix}
	used := map[string]bool{"AndroidManifest.xml": true}
	if !o.noManifest {
		m := o.manifest
		if m == nil {
			g := t.genManifest()
			m = &g
		}
		z.Entries = append(z.Entries, &ZEntry{Name: "AndroidManifest.xml", Data: m.Encode(), Deflate: t.Pct("m.deflate", 50)})
	}
	n := t.Range("entries", 1, o.maxEntries)
	for i := 0; i < n; i++ {
		e := &ZEntry{Name: t.genName(used, o.plainNames), Data: t.Bytes("data", 0, o.maxSize), Deflate: t.Pct("deflate", 50), DataDesc: t.Pct("dd", 15)}
		if t.Pct("extra", 15) {
			e.LocalExtra = cat(u16(0xd935), u16(6), t.Bytes("lx", 6, 6))
		}
		if t.Pct("cdextra", 10) {
			e.CDExtra = cat(u16(0x7875), u16(3), t.Bytes("cx", 3, 3))
		}
		e.Time, e.Date = 0x1234, 0x4a21
		z.Entries = append(z.Entries, e)
	}
	if o.big > 0 && t.Pct("big", o.big) {
		sz := t.Range("bigsize", mib-3000, 3*mib+100)
		if t.Pct("bigedge", 40) {
			sz = t.Range("bigk", 1, 2)*mib - t.Range("bigd", 0, 400)
			if t.Pct("bigalign", 50) { // the whole section is a multiple of the chunk size, or next to it
				z.Align = mib
			}
		}
		z.Entries = append(z.Entries, &ZEntry{Name: "assets/big.bin", Data: bulk(t.Seed("bigseed"), sz)})
		t.Class("contents>1MiB")
	}
	if o.heavy > 0 && t.Pct("heavy", o.heavy) {
		if t.Pct("heavy.many", 35) {
			n := pick(t, "heavy.n", []int{40, 130, 260, 300, 700, 1100})
			for i := 0; i < n; i++ {
				z.Entries = append(z.Entries, &ZEntry{Name: fmt.Sprintf("many/%04d.bin", i), Data: []byte(fmt.Sprint(i))})
			}
			t.Class("many files")
		} else {
			n := pick(t, "heavy.size", []int{4095, 4097, 8193, 32767, 32769, 65535, 65536, 65537, 100000, 1 << 18, mib, mib + 1, 3*mib + 5})
			d := bulk(t.Seed("heavy.seed"), n)
			if t.Pct("heavy.zeros", 30) {
				d = make([]byte, n)
			}
			z.Entries = append(z.Entries, &ZEntry{Name: "assets/heavy.bin", Data: d, Deflate: t.Pct("heavy.deflate", 50), DataDesc: t.Pct("heavy.dd", 15)})
			t.Class("large file")
		}
	}
	for _, e := range t.zipExtra {
		z.Entries = append(z.Entries, e.clone())
	}
	if o.maxComment > 0 && t.Pct("comment", 25) {
		z.Comment = t.Bytes("comm", 0, o.maxComment)
	}
	return z
}

var commonKeys = []string{"rsa2048-a", "rsa2048-b", "ec256-a", "ec256-b", "ec256-c", "rsa1024-a", "rsa1024-b", "ec384-a", "dsa1024q160-a", "dsa2048q256-a", "rsa2048-c", "ec256-d", "rsa1024-c", "ec521-a", "dsa2048q224-a", "rsa1031-a", "ec224-a"}
var rareKeys = []string{"rsa3072-a", "rsa4096-a", "dsa3072q256-a", "ec384-b", "ec521-b", "dsa1024q160-b", "dsa2048q256-b"}

func (t *T) genKey(label string) *Key {
	if t.Pct(label+".rare", 12) {
		return keyByName[pick(t, label+".r", rareKeys)]
	}
	return keyByName[pick(t, label, commonKeys)]
}

// genAlgs draws a non-empty list of distinct algorithms of the key, in any order.
func (t *T) genAlgs(k *Key, verity bool) []uint32 {
	var pool []uint32
	for _, a := range k.algs() {
		if a.Digest != 3 || verity {
			pool = append(pool, a.ID)
		}
	}
	n := 1
	if t.Pct("algs.more", 45) {
		n = t.Range("algs.n", 1, len(pool))
	}
	var out []uint32
	for i := 0; i < n && len(pool) > 0; i++ {
		j := t.Uni("alg", len(pool))
		out = append(out, pool[j])
		pool = append(pool[:j:j], pool[j+1:]...)
	}
	return out
}

// genChain draws a certificate chain for the key.
func (t *T) genChain(k *Key) [][]byte {
	v := t.Uni("cert.v", 3)
	switch t.Uni("chain", 5) {
	case 0:
		p := keyByName[pick(t, "issuer", []string{"rsa2048-d", "ec256-f", "rsa1024-f"})]
		return [][]byte{issuedCert(k, v, p, 0), selfCert(p, 0)}
	case 1:
		p := keyByName[pick(t, "issuer", []string{"rsa2048-d", "ec256-f", "rsa1024-f"})]
		return [][]byte{issuedCert(k, v, p, 0)}
	case 2: // unrelated certificates may follow
		r := [][]byte{selfCert(k, v)}
		n := t.Range("chain.x", 1, 3)
		if t.Pct("chain.long", 12) {
			n = t.Range("chain.n", 4, 40)
		}
		for ; n > 0; n-- {
			r = append(r, selfCert(keyByName[pick(t, "chain.k", []string{"rsa2048-d", "ec256-f", "rsa1024-f"})], t.Uni("chain.v", 3)))
		}
		return r
	}
	return [][]byte{selfCert(k, v)}
}

func (t *T) genSigner(v3 bool, verity bool) *SignerSpec {
	k := t.genKey("key")
	return &SignerSpec{Key: k, Algs: t.genAlgs(k, verity), Chain: t.genChain(k), V3: v3, Min: 28, Max: anyMax}
}

func (s *SignerSpec) String() string {
	var a []string
	for _, id := range s.Algs {
		a = append(a, fmt.Sprintf("%#x", id))
	}
	r := fmt.Sprintf("%s[%s] certs=%d attrs=%d", s.Key.Name, strings.Join(a, ","), len(s.Chain), len(s.Attrs))
	if s.V3 {
		r += fmt.Sprintf(" sdk=<%d;%d>", s.Min, s.Max)
	}
	return r
}

func specsStr(ss []*SignerSpec) string {
	var r []string
	for _, s := range ss {
		r = append(r, s.String())
	}
	return strings.Join(r, "; ")
}

func makeAll(ss []*SignerSpec, d *Digests) []*Signer {
	var r []*Signer
	for _, s := range ss {
		r = append(r, s.Make(d))
	}
	return r
}

func chainsOf(ss []*SignerSpec) [][][]byte {
	var r [][][]byte
	for _, s := range ss {
		r = append(r, s.Chain)
	}
	return r
}

// BlockAPK is an APK signed with v2 and/or v3 and/or v3.1.
type BlockAPK struct {
	Zip                  *ZipSpec
	Sec                  *Sections
	D                    *Digests
	V2, V3, V31          []*SignerSpec
	RecV2, RecV3, RecV31 []*Signer
	Extra                []Pair
	Order                []int
	Pad                  bool
	RotMin               int32 // minimum of the v3.1 signers
}

func (b *BlockAPK) anyVerity() bool {
	for _, l := range [][]*SignerSpec{b.V2, b.V3, b.V31} {
		for _, s := range l {
			if s.usesVerity() {
				return true
			}
		}
	}
	return false
}

// Make signs everything.
func (b *BlockAPK) Make() {
	if b.anyVerity() {
		b.Zip.Align = 4096
	}
	b.Sec = b.Zip.Build()
	b.D = newDigests(b.Sec)
	b.RecV2, b.RecV3, b.RecV31 = makeAll(b.V2, b.D), makeAll(b.V3, b.D), makeAll(b.V31, b.D)
}

func (b *BlockAPK) Pairs() []Pair {
	var p []Pair
	if len(b.RecV2) > 0 {
		p = append(p, Pair{idV2, encodeSigners(b.RecV2)})
	}
	if len(b.RecV3) > 0 {
		p = append(p, Pair{idV3, encodeSigners(b.RecV3)})
	}
	if len(b.RecV31) > 0 {
		p = append(p, Pair{idV31, encodeSigners(b.RecV31)})
	}
	p = append(p, b.Extra...)
	if len(b.Order) == len(p) {
		q := make([]Pair, len(p))
		for i, j := range b.Order {
			q[i] = p[j]
		}
		p = q
	}
	if b.Pad {
		p = append(p, padPair(p))
	}
	return p
}

func (b *BlockAPK) Bytes() []byte { return b.Sec.Assemble(encodeBlock(b.Pairs())) }

// perm draws a permutation of n.
func (t *T) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := t.Uni("perm", i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// expected scheme and chains for a valid block-signed APK and a range with min >= 24; scheme 0: not covered by a simple rule.
func (b *BlockAPK) expect(min, max int32) (int, [][][]byte) {
	switch {
	case max >= 33 && len(b.V31) > 0:
		return 31, chainsOf(b.V31)
	case max >= 28 && len(b.V3) > 0:
		return 3, chainsOf(b.V3)
	case max >= 24 && len(b.V2) > 0:
		return 2, chainsOf(b.V2)
	}
	return 0, nil
}

// lineageLen draws a number of nodes, sometimes a large one.
func (t *T) lineageLen(label string, max int) int {
	if t.Pct(label+".long", 6) {
		return t.Range(label+".n", max+1, 24)
	}
	return t.Range(label, 1, max)
}

// genLineage draws a valid lineage of n nodes; the last one has the key last (any earlier keys are others).
func (t *T) genLineage(n int, last *Key, lastCert []byte) *Lineage {
	names := []string{"rsa2048-a", "ec256-a", "rsa1024-a", "dsa1024q160-a", "ec384-a", "rsa2048-b", "ec256-b", "dsa2048q256-a", "rsa1024-b", "ec521-a", "ec224-a"}
	l := &Lineage{Version: 1}
	v := 0
	for len(l.Nodes) < n {
		var k *Key
		var c []byte
		if len(l.Nodes) == n-1 {
			k, c = last, lastCert
		} else {
			for c == nil {
				k = keyByName[pick(t, "ln.key", names)]
				c = selfCert(k, 10+v)
				v++
				if bytes.Equal(c, lastCert) {
					c = nil
				}
			}
		}
		al := k.algs()
		a := al[t.Uni("ln.alg", len(al))]
		l.Nodes = append(l.Nodes, &LineageNode{Cert: c, Key: k, Alg: a.ID, Flags: uint32(t.Uni("ln.flags", 64))})
	}
	if t.Pct("ln.hiflags", 15) {
		l.Nodes[t.Uni("ln.hf", n)].Flags = uint32(t.bits(31, "ln.flagv"))
	}
	l.Nodes[0].ParentAlg = 0
	if t.Pct("ln.par0", 20) {
		l.Nodes[0].ParentAlg = uint32(pick(t, "ln.p0", []uint32{0x103, 0x201, 0x301}))
	}
	if t.Pct("ln.lastalg0", 30) {
		l.Nodes[n-1].Alg = 0
	}
	if t.Pct("ln.sig0", 20) {
		l.Nodes[0].Sig = bulk(1, 20)
	}
	l.Sign(0)
	return l
}

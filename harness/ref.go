package main

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/avast/apkverifier/signingblock"
)

// A reference implementation of APK Signature Schemes v2, v3 and v3.1, written from their descriptions. It reads the
// bytes of the APK, so it judges whatever a generator makes. Where the outcome hangs on something that is not
// described (an encoding that only a lenient parser reads, say), it says so.

type refNode struct {
	cert       []byte
	parent     uint32
	alg, flags uint32
	sig        []byte
}

// refScheme is the judgement of one scheme's signers.
type refScheme struct {
	bad     string // a reason to reject
	unsure  string // a reason why the reference does not know
	chains  [][][]byte
	lineage []refNode
	digests map[int][]byte

	ranges []refRange
	lins   [][]refNode
}

type refRange struct {
	min, max int32
	lin      []refNode
}

func (r *refScheme) fail(format string, a ...interface{}) {
	if r.bad == "" {
		r.bad = fmt.Sprintf(format, a...)
	}
}
func (r *refScheme) dunno(format string, a ...interface{}) {
	if r.unsure == "" {
		r.unsure = fmt.Sprintf(format, a...)
	}
}

type refVerdict struct {
	none   string // why there is no usable signing block
	scheme int
	refScheme
}

func (v *refVerdict) String() string {
	switch {
	case v.none != "":
		return "no block: " + v.none
	case v.bad != "":
		return "rejected: " + v.bad
	case v.unsure != "":
		return "not judged: " + v.unsure
	}
	return fmt.Sprintf("scheme %d %s lineage %d", v.scheme, chainStr(v.chains), len(v.lineage))
}

// rd reads length-prefixed data.
type rd struct {
	b  []byte
	ok bool
}

func newRd(b []byte) *rd { return &rd{b, true} }
func (r *rd) u32() uint32 {
	if !r.ok || len(r.b) < 4 {
		r.ok = false
		return 0
	}
	v := binary.LittleEndian.Uint32(r.b)
	r.b = r.b[4:]
	return v
}
func (r *rd) lp() []byte {
	n := r.u32()
	if !r.ok || n > math.MaxInt32 || int(n) > len(r.b) {
		r.ok = false
		return nil
	}
	v := r.b[:n:n]
	r.b = r.b[n:]
	return v
}

// list are the length-prefixed elements that b consists of.
func refList(b []byte) (l [][]byte, ok bool) {
	r := newRd(b)
	for len(r.b) > 0 {
		e := r.lp()
		if !r.ok {
			return l, false
		}
		l = append(l, e)
	}
	return l, true
}

// refSections finds the end record, the central directory and the signing block.
func refSections(apk []byte) (eocd, cd, block int, why string) {
	le := binary.LittleEndian
	eocd = -1
	for c := 0; c <= 0xffff && len(apk)-22-c >= 0; c++ {
		p := len(apk) - 22 - c
		if le.Uint32(apk[p:]) == 0x06054b50 && int(le.Uint16(apk[p+20:])) == c {
			eocd = p
			break
		}
	}
	if eocd < 0 {
		return 0, 0, 0, "no end record"
	}
	cd = int(le.Uint32(apk[eocd+16:]))
	if cd >= eocd || cd+int(le.Uint32(apk[eocd+12:])) != eocd {
		return 0, 0, 0, "the end record does not follow the central directory"
	}
	if eocd >= 20 && le.Uint32(apk[eocd-20:]) == 0x07064b50 {
		return 0, 0, 0, "ZIP64"
	}
	if cd < 32 || string(apk[cd-16:cd]) != blockMagicS {
		return 0, 0, 0, "no signing block"
	}
	n := le.Uint64(apk[cd-24:])
	if n < 24 || n > math.MaxInt32-8 || int(n)+8 > cd {
		return 0, 0, 0, "size of the block"
	}
	block = cd - int(n) - 8
	if le.Uint64(apk[block:]) != n {
		return 0, 0, 0, "sizes of the block differ"
	}
	return
}

// refPairs splits the signing block.
func refPairs(b []byte) (ps []Pair, why string) {
	for len(b) > 0 {
		if len(b) < 8 {
			return nil, "end of the pairs"
		}
		n := binary.LittleEndian.Uint64(b)
		b = b[8:]
		if n < 4 || n > uint64(len(b)) {
			return nil, "length of a pair"
		}
		ps = append(ps, Pair{binary.LittleEndian.Uint32(b), b[4:n:n]})
		b = b[n:]
	}
	return
}

// refVerify judges the signing block of the APK for the platforms from min to max.
func refVerify(apk []byte, min, max int32) *refVerdict {
	v := &refVerdict{}
	eocd, cd, block, why := refSections(apk)
	if why != "" {
		v.none = why
		return v
	}
	pairs, why := refPairs(apk[block+8 : cd-24])
	if why != "" {
		v.none = why
		return v
	}
	if max < 24 {
		v.scheme = 1
		return v
	}
	have := map[uint32][]byte{}
	for _, p := range pairs {
		if _, dup := have[p.ID]; dup && (p.ID == idV2 || p.ID == idV3 || p.ID == idV31) {
			v.dunno("two pairs %#x", p.ID)
		}
		have[p.ID] = p.Val
	}
	sel := func(id uint32, since int32) ([]byte, bool) {
		b, ok := have[id]
		return b, ok && max >= since
	}
	end := append([]byte(nil), apk[eocd:]...)
	binary.LittleEndian.PutUint32(end[16:], uint32(block))
	e := &refEnv{min: min, max: max, have: have, sections: [][]byte{apk[:block], apk[cd:eocd], end}}
	b31, has31 := sel(idV31, 33)
	b3, has3 := sel(idV3, 28)
	b2, has2 := sel(idV2, 24)
	switch {
	case has31:
		v.scheme = 31
		s := e.signers(b31, 31, 0)
		e.cover(s, 31, 0)
		rot := int32(0)
		for i, r := range s.ranges {
			if i == 0 || r.min < rot {
				rot = r.min
			}
		}
		if rot > max && s.bad != "" {
			s.dunno("v3.1 for platforms after the last one asked about")
			s.bad = ""
		}
		if !has3 {
			s.fail("v3.1 without v3")
		} else {
			t := e.signers(b3, 3, rot)
			e.cover(t, 3, rot)
			if t.bad != "" {
				s.fail("v3 beside v3.1: %s", t.bad)
			}
			if t.unsure != "" {
				s.dunno("%s", t.unsure)
			}
		}
		if min < 28 && has2 && s.bad != "" {
			s.dunno("v2 beside a broken v3.1")
			s.bad = ""
		}
		v.merge(s)
	case has3:
		v.scheme = 3
		s := e.signers(b3, 3, 0)
		e.cover(s, 3, 0)
		if min < 28 && has2 {
			if s.bad == "" && s.unsure != "" {
				v.merge(s)
				break
			}
			if s.bad != "" {
				// Android before 9 looks at v2
				v.scheme = 2
				e.fallback = true
				s = e.signers(b2, 2, 0)
			}
		}
		v.merge(s)
	case has2:
		v.scheme = 2
		v.merge(e.signers(b2, 2, 0))
	default:
		v.scheme = 1
		v.none = "no signature in the block"
	}
	return v
}

func (v *refVerdict) merge(s *refScheme) {
	u := v.unsure
	v.refScheme = *s
	if u != "" {
		v.bad, v.unsure = "", u
	}
}

type refEnv struct {
	min, max int32
	have     map[uint32][]byte
	sections [][]byte
	fallback bool
	digests  map[int][]byte
}

// digest of the protected sections: 1 SHA-256, 2 SHA-512, 3 Merkle tree. nil if it cannot be made.
func (e *refEnv) digest(kind int) []byte {
	if d, ok := e.digests[kind]; ok {
		return d
	}
	var d []byte
	switch kind {
	case 1:
		d = chunkedDigest(crypto.SHA256, e.sections, digestDef{})
	case 2:
		d = chunkedDigest(crypto.SHA512, e.sections, digestDef{})
	case 3:
		if len(e.sections[0])%4096 == 0 {
			d = verityDigest(e.sections)
		}
	}
	if e.digests == nil {
		e.digests = map[int][]byte{}
	}
	e.digests[kind] = d
	return d
}

// cover checks that the signers' ranges are contiguous and span the requested one, and unites their lineages.
func (e *refEnv) cover(s *refScheme, scheme int, rot int32) {
	if s.bad != "" {
		return
	}
	lo, hi := e.min, e.max
	if lo < 28 {
		lo = 28
	}
	if scheme == 31 {
		lo = hi
	}
	if rot != 0 {
		hi = rot - 1
	}
	r := s.ranges
	sort.SliceStable(r, func(i, j int) bool { return r[i].min < r[j].min })
	var long []refNode
	last := 0
	for i, x := range r {
		if i > 0 && int64(x.min) != int64(r[i-1].max)+1 {
			s.fail("gap or overlap between <%d;%d> and <%d;%d>", r[i-1].min, r[i-1].max, x.min, x.max)
		}
		if x.lin != nil {
			if len(x.lin) < last {
				s.fail("a shorter lineage for later platforms")
			}
			last = len(x.lin)
			if len(x.lin) > len(long) {
				long = x.lin
			}
		}
	}
	if len(r) == 0 {
		s.fail("no signers")
		return
	}
	if r[0].min > lo || r[len(r)-1].max < hi {
		s.fail("signers for <%d;%d>, <%d;%d> is needed", r[0].min, r[len(r)-1].max, lo, hi)
	}
	for _, x := range r {
		for i, n := range x.lin {
			m := long[i]
			if !bytes.Equal(n.cert, m.cert) || n.alg != m.alg || n.parent != m.parent || n.flags != m.flags || !bytes.Equal(n.sig, m.sig) {
				s.fail("lineages differ at node %d", i)
			}
		}
	}
	s.lineage = long
}

// signers judges the value of a v2, v3 or v3.1 pair.
func (e *refEnv) signers(val []byte, scheme int, rot int32) *refScheme {
	s := &refScheme{digests: map[int][]byte{}}
	top := newRd(val)
	body := top.lp()
	if !top.ok {
		s.fail("list of signers")
		return s
	}
	l, ok := refList(body)
	if !ok {
		s.fail("elements of the list of signers")
	}
	if len(l) == 0 {
		s.fail("no signers")
	}
	if scheme == 2 && len(l) > 10 {
		s.fail("%d signers", len(l))
	}
	for i, b := range l {
		if w := e.signer(s, b, scheme, rot); w != "" {
			s.fail("signer %d: %s", i, w)
		}
	}
	for k, d := range s.digests {
		if w := e.digest(k); w == nil || !bytes.Equal(w, d) {
			s.fail("digest %d", k)
		}
	}
	return s
}

func (e *refEnv) signer(s *refScheme, b []byte, scheme int, rot int32) string {
	r := newRd(b)
	signed := r.lp()
	rg := refRange{}
	if scheme != 2 {
		rg.min, rg.max = int32(r.u32()), int32(r.u32())
	}
	sigs, spki := r.lp(), r.lp()
	if !r.ok {
		return "fields"
	}
	if scheme != 2 && (rg.min < 1 || rg.max < rg.min) {
		return "range"
	}
	in := newRd(signed)
	digests, certs := in.lp(), in.lp()
	if scheme != 2 && (int32(in.u32()) != rg.min || int32(in.u32()) != rg.max) && in.ok {
		return "signed range"
	}
	attrs := in.lp()
	if !in.ok {
		return "fields of the signed data"
	}

	// signatures
	sl, ok := refList(sigs)
	if !ok {
		return "list of signatures"
	}
	rank := map[int]int{1: 1, 3: 2, 2: 3}
	var algs []uint32
	best, at := 0, -1
	for i, x := range sl {
		if len(x) < 8 {
			return "short signature"
		}
		id := binary.LittleEndian.Uint32(x)
		algs = append(algs, id)
		if k := rank[digestKind(id)]; k > best {
			best, at = k, i
		}
	}
	if at < 0 {
		return "no supported signature"
	}
	x := newRd(sl[at][4:])
	sig := x.lp()
	if !x.ok {
		return "signature"
	}
	for i := range sl[:at] { // an earlier signature was the best one until then, and has been read
		if k := rank[digestKind(algs[i])]; k > 0 {
			first := true
			for j := 0; j < i; j++ {
				if rank[digestKind(algs[j])] >= k {
					first = false
				}
			}
			if y := newRd(sl[i][4:]); first {
				if y.lp(); !y.ok {
					s.dunno("malformed weaker signature")
				}
			}
		}
	}
	key, err := x509.ParsePKIXPublicKey(spki)
	if err != nil {
		s.dunno("public key: %v", err)
	} else if w := s.refSig(key, algs[at], signed, sig); w != "" {
		return w
	}

	// certificates
	cl, ok := refList(certs)
	if !ok {
		return "list of certificates"
	}
	if len(cl) == 0 {
		return "no certificate"
	}
	for i, c := range cl {
		x, err := x509.ParseCertificate(c)
		if err != nil {
			s.dunno("certificate: %v", err)
		} else if i == 0 && !bytes.Equal(x.RawSubjectPublicKeyInfo, spki) {
			return "the certificate has another key"
		}
	}
	s.chains = append(s.chains, cl)

	// digests
	dl, ok := refList(digests)
	if !ok {
		return "list of digests"
	}
	if len(dl) != len(algs) {
		return "digests and signatures differ in number"
	}
	var dig []byte
	for i, d := range dl {
		if len(d) < 8 {
			return "short digest"
		}
		id := binary.LittleEndian.Uint32(d)
		if id != algs[i] {
			return "digests and signatures differ in algorithms"
		}
		if id == algs[at] {
			y := newRd(d[4:])
			if dig = y.lp(); !y.ok {
				return "digest"
			}
		}
	}
	kind := digestKind(algs[at])
	if p, ok := s.digests[kind]; ok && !bytes.Equal(p, dig) {
		return "another digest than the signer before"
	}
	s.digests[kind] = dig

	// attributes
	al, ok := refList(attrs)
	if !ok {
		return "list of attributes"
	}
	for _, a := range al {
		y := newRd(a)
		id := y.u32()
		if !y.ok {
			return "short attribute"
		}
		switch {
		case id == attrStrip && scheme == 2:
			if e.max < 28 {
				break
			}
			n := y.u32()
			if !y.ok {
				return "short stripping attribute"
			}
			ids := map[uint32]uint32{2: idV2, 3: idV3, 31: idV31}
			if !e.unused(ids[n]) {
				return fmt.Sprintf("scheme %d has been stripped", n)
			}
		case id == attrMinSdk && scheme != 2:
			if e.max < 33 {
				break
			}
			if n := int32(y.u32()); !y.ok {
				return "short rotation attribute"
			} else if scheme == 31 || rot == 0 || n != rot {
				return fmt.Sprintf("rotation from %d, v3.1 says %d", n, rot)
			}
		case id == attrPoR && scheme != 2:
			if len(y.b) == 0 {
				break
			}
			if y.u32() != 1 || !y.ok {
				return "lineage version"
			}
			lin, w := s.refLineage(y.b)
			if w != "" {
				return w
			}
			if len(lin) == 0 {
				break
			}
			if i := firstNode(lin, cl[0]); i != len(lin)-1 {
				return fmt.Sprintf("the signer is node %d of %d", i, len(lin))
			}
			rg.lin = lin
		}
	}
	if scheme != 2 {
		s.ranges = append(s.ranges, rg)
	}
	return ""
}

// unused tells whether the pair is there, but not what the platforms would verify.
func (e *refEnv) unused(id uint32) bool {
	if _, ok := e.have[id]; !ok || id == 0 {
		return false
	}
	switch id {
	case idV3: // v2 has been chosen nevertheless
		return e.fallback
	case idV31:
		return e.max < 33
	}
	return false
}

func firstNode(l []refNode, cert []byte) int {
	for i, n := range l {
		if bytes.Equal(n.cert, cert) {
			return i
		}
	}
	return -1
}

func (s *refScheme) refLineage(b []byte) (lin []refNode, why string) {
	nodes, ok := refList(b)
	if !ok {
		return nil, "list of lineage nodes"
	}
	for i, nb := range nodes {
		r := newRd(nb)
		signed := r.lp()
		n := refNode{flags: r.u32(), alg: r.u32()}
		n.sig = r.lp()
		in := newRd(signed)
		n.cert = in.lp()
		n.parent = in.u32()
		if !r.ok || !in.ok {
			return nil, "lineage node"
		}
		if _, err := x509.ParseCertificate(n.cert); err != nil {
			s.dunno("lineage certificate: %v", err)
			return nil, ""
		}
		if i > 0 {
			p := lin[i-1]
			if n.parent != p.alg {
				return nil, fmt.Sprintf("algorithm of lineage node %d", i)
			}
			pc, _ := x509.ParseCertificate(p.cert)
			if w := s.refSig(pc.PublicKey, p.alg, signed, n.sig); w != "" {
				return nil, fmt.Sprintf("lineage node %d: %s", i, w)
			}
			if firstNode(lin, n.cert) >= 0 {
				return nil, "a certificate twice in the lineage"
			}
		}
		lin = append(lin, n)
	}
	return
}

// refSig verifies a signature.
func (s *refScheme) refSig(key interface{}, alg uint32, data, sig []byte) string {
	a := algByID(alg)
	if a == nil {
		return fmt.Sprintf("algorithm %#x", alg)
	}
	h := crypto.SHA256
	if alg == 0x102 || alg == 0x104 || alg == 0x202 {
		h = crypto.SHA512
	}
	sum := hashOf(h, data)
	good := false
	switch alg {
	case 0x101, 0x102, 0x103, 0x104, 0x421:
		k, ok := key.(*rsa.PublicKey)
		switch {
		case !ok:
			return "RSA with another key"
		case k.N.BitLen() > 8192 || k.N.BitLen() < 1024:
			s.dunno("size of the RSA key")
			return ""
		case alg <= 0x102:
			good = rsa.VerifyPSS(k, h, sum, sig, &rsa.PSSOptions{SaltLength: h.Size()}) == nil
		default:
			good = rsa.VerifyPKCS1v15(k, h, sum, sig) == nil
		}
	default:
		var rs []*big.Int
		rest, err := asn1.Unmarshal(sig, &rs)
		if err != nil || len(rs) < 2 {
			return "form of the signature"
		}
		if len(rs) > 2 || len(rest) > 0 {
			s.dunno("superfluous data in the signature")
		}
		switch k := key.(type) {
		case *ecdsa.PublicKey:
			good = (alg == 0x201 || alg == 0x202 || alg == 0x423) && ecdsa.Verify(k, sum, rs[0], rs[1])
		case *dsa.PublicKey:
			if k.P.BitLen() > 8192 || k.Q.BitLen() > 256 {
				s.dunno("size of the DSA key")
				return ""
			}
			if n := k.Q.BitLen() / 8; n < len(sum) {
				sum = sum[:n]
			}
			good = (alg == 0x301 || alg == 0x425) && dsa.Verify(k, sum, rs[0], rs[1])
		}
	}
	if !good {
		return fmt.Sprintf("signature of type %#x", alg)
	}
	return ""
}

// compareRef compares the signing block API with the reference.
func (t *T) compareRef(what string, apk []byte, min, max int32) *refVerdict {
	want := refVerify(apk, min, max)
	d := fmt.Sprintf("%s <%d;%d>: want %s", what, min, max, want)
	t.Attach("apk", apk)
	var res *signingblock.VerificationResult
	var err error
	t.Guard("VerifySigningBlockReader "+d, apk, func() {
		res, _, err = signingblock.VerifySigningBlockReader(bytes.NewReader(apk), min, max)
	})
	none := signingblock.IsSigningBlockNotFoundError(err)
	switch {
	case want.none == "" && want.bad == "" && want.unsure != "":
		return want
	case want.none != "":
		if err == nil {
			t.Violate("%s; accepted with scheme %d", d, res.SchemeId)
		}
		return want
	case want.bad != "":
		if err == nil {
			t.Violate("%s; accepted with scheme %d and %s", d, res.SchemeId, chainStr(rawChains(res.Certs)))
		}
		if none {
			t.Violate("%s; no block found: %v", d, err)
		}
		return want
	}
	if err != nil {
		t.Violate("%s; rejected: %v", d, err)
	}
	if res.SchemeId != want.scheme || !chainsEqual(rawChains(res.Certs), want.chains) {
		t.Violate("%s; scheme %d and %s", d, res.SchemeId, chainStr(rawChains(res.Certs)))
	}
	var got []refNode
	if l := res.SigningLineage; l != nil {
		for _, n := range l.Nodes {
			got = append(got, refNode{n.SigningCert.Raw, uint32(n.ParentSigAlgorithm), uint32(n.SigAlgorithm), uint32(n.Flags), n.Signature})
		}
	}
	same := len(got) == len(want.lineage)
	for i := 0; same && i < len(got); i++ {
		a, b := got[i], want.lineage[i]
		same = bytes.Equal(a.cert, b.cert) && bytes.Equal(a.sig, b.sig) && a.parent == b.parent && a.alg == b.alg && a.flags == b.flags
	}
	if !same {
		t.Violate("%s; a lineage of %d nodes, want %d", d, len(got), len(want.lineage))
	}
	return want
}

package main

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"strings"
)

// A reference implementation of source stamp verification, and stamps put together freely.

type refStamp struct {
	bad, unsure string
	time        int64
	lin         []refNode
}

// refStampOf judges a stamp block. entry: the certificate digest in the APK. data: what the stamp has to sign for the scheme need.
func refStampOf(block, entry, data []byte, need uint32, min, max int32) *refStamp {
	r := &refStamp{}
	var s refScheme
	r.bad = r.judge(&s, block, entry, data, need, min, max)
	r.unsure = s.unsure
	return r
}

func (r *refStamp) judge(s *refScheme, block, entry, data []byte, need uint32, min, max int32) string {
	top := newRd(block)
	in := newRd(top.lp())
	cert := in.lp()
	if !top.ok || !in.ok {
		return "no certificate"
	}
	if !bytes.Equal(entry, sha256Sum(cert)) {
		return "another certificate than in the APK"
	}
	c, err := x509.ParseCertificate(cert)
	if err != nil {
		s.dunno("certificate: %v", err)
		return ""
	}
	key := c.PublicKey
	schemes, ok := refList(in.lp())
	if !in.ok || !ok {
		return "list of schemes"
	}
	var sigs []byte
	found := 0
	for _, e := range schemes {
		x := newRd(e)
		id, l := x.u32(), x.lp()
		if !x.ok {
			return "scheme"
		}
		if id == need {
			if found++; found > 1 && !bytes.Equal(sigs, l) {
				s.dunno("the scheme twice")
			}
			sigs = l
		}
	}
	if found == 0 {
		return "no signature for the scheme"
	}
	if why := s.refStampSigs(key, data, sigs, min, max); why != "" {
		return why
	}
	if len(in.b) == 0 {
		return ""
	}
	attrs, asigs := in.lp(), in.lp()
	if !in.ok {
		return "attribute fields"
	}
	if why := s.refStampSigs(key, attrs, asigs, min, max); why != "" {
		return "attributes: " + why
	}
	a := newRd(attrs)
	list, ok := refList(a.lp())
	if !a.ok || !ok {
		return "list of attributes"
	}
	bad := ""
	seen := map[uint32]bool{}
	for _, e := range list {
		x := newRd(e)
		id := x.u32()
		if !x.ok {
			return "attribute"
		}
		if seen[id] && (id == attrStTime || id == attrStPoR) {
			s.dunno("attribute twice")
		}
		seen[id] = true
		switch id {
		case attrStTime:
			if len(x.b) < 8 {
				return "time"
			}
			r.time = int64(uint64(x.u32()) | uint64(x.u32())<<32)
			if r.time <= 0 {
				bad = "time"
			}
		case attrStPoR:
			if x.u32() != 1 || !x.ok {
				return "lineage version"
			}
			lin, why := s.refLineage(x.b)
			if why != "" {
				return why
			}
			if s.unsure == "" && (len(lin) == 0 || !bytes.Equal(lin[len(lin)-1].cert, cert)) {
				return "the lineage does not end in the certificate"
			}
			r.lin = lin
		}
	}
	return bad
}

// refStampSigs verifies, for each level on which algorithms appeared and the range reaches, the strongest signature.
func (s *refScheme) refStampSigs(key interface{}, data, sigs []byte, min, max int32) string {
	l, ok := refList(sigs)
	type sig struct {
		id uint32
		b  []byte
	}
	best := map[int32]sig{}
	low := int32(anyMax)
	once := map[uint32][]byte{}
	for _, e := range l {
		x := newRd(e)
		id := x.u32()
		if !x.ok {
			return "signature"
		}
		if algByID(id) == nil {
			continue
		}
		b := x.lp()
		if !x.ok {
			return "signature"
		}
		if o, dup := once[id]; dup && !bytes.Equal(o, b) {
			s.dunno("an algorithm twice")
		}
		once[id] = b
		v := jcaLevel(id)
		if v > max {
			continue
		}
		if v < low {
			low = v
		}
		if o, prs := best[v]; !prs || strength(id) > strength(o.id) {
			best[v] = sig{id, b}
		}
	}
	if !ok {
		return "list of signatures"
	}
	if len(best) == 0 || min < low {
		return "no signature for the levels"
	}
	bad := ""
	for _, v := range []int32{1, 11, 23} {
		if x, prs := best[v]; prs {
			if w := s.refSig(key, x.id, data, x.b); w != "" {
				bad = w
			}
		}
	}
	return bad
}

// strength orders the content digests.
func strength(id uint32) int {
	switch digestKind(id) {
	case 2:
		return 3
	case 3:
		return 2
	}
	return 1
}

// wildStamp makes a stamp of mostly right parts.
func (w *wild) stamp(s *stampAPK) []byte {
	t := w.t
	k, cert := s.key, s.cert
	if w.rare("another certificate") {
		k = w.key()
		cert = w.cert(k)
	}
	signer := k
	if w.rare("signed by another key throughout") {
		signer = w.key()
	}
	algs := func() []uint32 {
		if t.Pct("ownalgs", 50) {
			return s.algs
		}
		if t.Pct("kin", 10) { // of the same level and strength, but for the other kind of key
			for i, id := range s.algs {
				if o := map[uint32]uint32{0x103: 0x301, 0x301: 0x103, 0x421: 0x425, 0x425: 0x421}[id]; o != 0 {
					w.note("%#x beside %#x", o, id)
					i += t.Uni("kinat", 2)
					return append(append(append([]uint32(nil), s.algs[:i]...), o), s.algs[i:]...)
				}
			}
		}
		l := w.algs(k)
		if t.Pct("alsoown", 60) {
			l = append(append([]uint32(nil), l...), s.algs...)
			p := t.perm(len(l))
			q := []uint32{}
			for _, i := range p {
				if !containsAlg(q, l[i]) {
					q = append(q, l[i])
				}
			}
			l = q
		}
		return l
	}
	sigs := func(data []byte) []byte {
		var l []AlgData
		for _, id := range algs() {
			l = append(l, AlgData{id, w.sign(signer, id, data)})
		}
		if len(l) > 0 && w.rare("algorithm again") {
			l = append(l, l[t.Uni("ag", len(l))])
		}
		b := encAlgs(l)
		if w.rare("damaged signatures") {
			b = t.mutBytes(b, 1)
		}
		return b
	}
	ids := s.schemes()
	switch {
	case t.Pct("only", 20):
		ids = []int32{s.needed()}
	case w.rare("without the scheme"):
		ids = []int32{pick(t, "oid", []int32{0, 1, 2, 3, 4, 31})}
	}
	for t.Pct("moreschemes", 12) {
		ids = append(ids, pick(t, "mid", []int32{0, 1, 2, 3, 4, 31, -1}))
	}
	var schemes []byte
	for _, i := range t.perm(len(ids)) {
		data := s.schemeDigests(s.needed())
		if id := ids[i]; id >= 1 && id <= 3 && !w.rare("digests of another scheme") {
			data = s.schemeDigests(id)
		}
		if w.rare("other digests") {
			data = t.mutBytes(data, 1)
		}
		e := cat(u32(uint32(ids[i])), lp(sigs(data)))
		if t.Pct("stail", 5) {
			e = cat(e, t.Bytes("st", 1, 5))
		}
		schemes = append(schemes, lp(e)...)
	}
	if w.rare("damaged schemes") {
		schemes = t.mutBytes(schemes, 1)
	}
	b := cat(lp(cert), lp(schemes))
	if !t.Pct("noattrs", 20) {
		var l []Attr
		if t.Pct("time", 70) {
			v := u64(uint64(t.bits(33, "timev")) + 1)
			if w.rare("odd time") {
				v = pick(t, "ot", [][]byte{u64(0), u64(1 << 63), u64(1<<63 - 1), u64(1 << 40), v[:7], cat(v, v), nil})
			}
			l = append(l, Attr{attrStTime, v})
		}
		if t.Pct("lin", 45) {
			lin := w.lineage()
			if n := len(lin.Nodes); n > 0 && !w.rare("lineage of others") {
				lin.Nodes[n-1].Key, lin.Nodes[n-1].Cert = k, cert
				lin.Nodes[n-1].Alg = k.algs()[0].ID
				lin.Sign(0)
			}
			if w.rare("bent lineage") {
				lin = w.bend(lin)
			}
			l = append(l, Attr{attrStPoR, w.encLineage(lin)})
		}
		for t.Pct("unkattr", 20) {
			l = append(l, Attr{uint32(t.bits(32, "aid")), t.Bytes("av", 0, 12)})
		}
		if len(l) > 0 && w.rare("attribute again") {
			l = append(l, l[t.Uni("aa", len(l))])
		}
		q := make([]Attr, len(l))
		for i, j := range t.perm(len(l)) {
			q[i] = l[j]
		}
		enc := stampAttrs(q)
		if w.rare("damaged attributes, signed") {
			enc = t.mutBytes(enc, 1)
		}
		as := sigs(enc)
		if w.rare("damaged attributes") {
			enc = t.mutBytes(enc, 1)
		}
		b = cat(b, lp(enc), lp(as))
	}
	if t.Pct("btail", 6) {
		b = cat(b, t.Bytes("bt", 1, 6))
	}
	if w.rare("damaged stamp") {
		b = t.mutBytes(b, 1)
	}
	b = lp(b)
	if t.Pct("ttail", 6) {
		b = cat(b, t.Bytes("tt", 1, 6))
	}
	if w.rare("damaged block") {
		b = t.mutBytes(b, 1)
	}
	return b
}

func c10Wild(t *T) {
	w := &wild{t: t, odd: pick(t, "oddity", []int{0, 1, 1, 2, 2, 4, 8})}
	for n := t.Range("nk", 2, 4); n > 0; n-- {
		w.keys = append(w.keys, keyByName[pick(t, "k", []string{"rsa1024-a", "rsa1024-b", "ec256-a", "ec256-b", "ec224-a", "dsa1024q160-a", "rsa2048-a", "ec384-a"})])
	}
	var entry []byte
	s := t.genStampAPK(func(cert []byte) []byte {
		entry = sha256Sum(cert)
		if w.rare("another digest in the APK") {
			entry = t.mutBytes(entry, 1)
		}
		return entry
	})
	if s == nil || s.b.Zip.find(stampEntry) == nil {
		return
	}
	w.d = s.b.D
	block := w.stamp(s)
	want := refStampOf(block, entry, s.schemeDigests(s.needed()), uint32(s.needed()), s.min, s.max)
	apk := s.bytes(block)
	d := fmt.Sprintf("%s; %s", s.desc, strings.Join(w.desc, ", "))
	t.Note("%s", d)
	t.Sample("%s: %q", d, want.bad)
	t.NonTrivial(apk, s.min, s.max)
	r := t.stampResult(d, apk, s)
	switch {
	case r == nil:
		t.Violate("%s: no stamp reported", d)
	case want.unsure != "":
		t.Class("wild: not judged, %.20s", want.unsure)
	case want.bad != "":
		t.Class("wild: %.30s", want.bad)
		if len(r.Errors) == 0 {
			t.Violate("%s: %s: %s", d, want.bad, stampState(r))
		}
	default:
		t.Class("wild: valid, scheme %d, lineage %v", s.scheme, len(want.lin) > 0)
		if len(r.Errors) > 0 {
			t.Violate("%s: valid: %s", d, stampState(r))
		}
		if want.time == 0 && !r.SigningTime.IsZero() || want.time != 0 && r.SigningTime.Unix() != want.time {
			t.Violate("%s: signing time %v (%d) reported, want %d", d, r.SigningTime, r.SigningTime.Unix(), want.time)
		}
		same := len(r.Lineage) == len(want.lin)
		for i := 0; same && i < len(want.lin); i++ {
			g, n := r.Lineage[i], want.lin[i]
			same = bytes.Equal(g.Cert.Raw, n.cert) && uint32(g.ParentAlgo) == n.parent && uint32(g.Algo) == n.alg && uint32(g.Flags) == n.flags && bytes.Equal(g.Signature, n.sig)
		}
		if !same {
			t.Violate("%s: another lineage reported", d)
		}
	}
}

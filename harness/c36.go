package main

import (
	"fmt"
	"strings"
)

// wild makes signing blocks of parts that are mostly well signed but put together freely.
type wild struct {
	t    *T
	d    *Digests
	keys []*Key
	lins []*Lineage
	rot  int32
	odd  int // percent
	desc []string
}

func (w *wild) note(format string, a ...interface{}) {
	if len(w.desc) < 30 {
		w.desc = append(w.desc, fmt.Sprintf(format, a...))
	}
}

// rare is true in w.odd percent of the cases, and says so.
func (w *wild) rare(what string) bool {
	if w.t.Pct("odd."+what, w.odd) {
		w.note("%s", what)
		return true
	}
	return false
}

func (w *wild) cert(k *Key) []byte { return selfCert(k, w.t.Uni("cv", 2)) }

func (w *wild) key() *Key { return w.keys[w.t.Uni("key", len(w.keys))] }

func (w *wild) algs(k *Key) []uint32 {
	t := w.t
	al := k.algs()
	var out []uint32
	for n := pick(t, "na", []int{1, 1, 2, 3}); n > 0; n-- {
		switch {
		case w.rare("unknown algorithm"):
			out = append(out, pick(t, "ua", []uint32{0, 0x105, 0x302, 0x42, 0x80000103, 0x0103 << 8, 0xffffffff}))
		case w.rare("algorithm of another kind"):
			out = append(out, pick(t, "oa", []uint32{0x101, 0x102, 0x103, 0x104, 0x201, 0x202, 0x301, 0x421, 0x423, 0x425}))
		default:
			a := al[t.Uni("a", len(al))]
			if a.Digest == 3 && len(w.d.sec.Contents)%4096 != 0 && !t.Pct("verity anyway", 10) {
				a = al[0]
			}
			if !containsAlg(out, a.ID) || w.rare("algorithm twice") {
				out = append(out, a.ID)
			}
		}
	}
	if w.rare("no algorithms") {
		return nil
	}
	return out
}

func containsAlg(l []uint32, a uint32) bool {
	for _, x := range l {
		if x == a {
			return true
		}
	}
	return false
}

// sign is a signature that may be by another key, over other data or of another kind.
func (w *wild) sign(k *Key, id uint32, data []byte) []byte {
	t := w.t
	a := algByID(id)
	if w.rare("signature by another key") {
		k = w.key()
	}
	if w.rare("signature over other data") {
		data = cat(data, []byte{0})
	}
	if w.rare("signature of another type") {
		al := k.algs()
		a = al[t.Uni("sa", len(al))]
	}
	if a == nil || !k.fits(a) {
		return t.Bytes("junk", 8, 70)
	}
	s := k.SignAlg(a, data)
	if w.rare("damaged signature") {
		s = append([]byte(nil), s...)
		s[t.Uni("sb", len(s))] ^= 1 << t.Uni("sbit", 8)
	}
	return s
}

func (w *wild) lineage() *Lineage {
	t := w.t
	l := &Lineage{Version: 1}
	for n := pick(t, "ll", []int{1, 2, 2, 3, 3, 4}); n > 0; n-- {
		k := w.key()
		al := k.algs()
		l.Nodes = append(l.Nodes, &LineageNode{Key: k, Cert: w.cert(k), Alg: al[t.Uni("la", len(al))].ID, Flags: uint32(t.Uni("fl", 32))})
	}
	if !w.rare("lineage with repeated certificates") {
		var u []*LineageNode
		seen := map[string]bool{}
		for _, n := range l.Nodes {
			if !seen[string(n.Cert)] {
				u = append(u, n)
			}
			seen[string(n.Cert)] = true
		}
		l.Nodes = u
	}
	l.Sign(0)
	return l
}

// bend changes something in a lineage; the signatures may be made again or not.
func (w *wild) bend(l *Lineage) *Lineage {
	t := w.t
	l = l.clone()
	if len(l.Nodes) == 0 {
		return l
	}
	i := t.Uni("bi", len(l.Nodes))
	n := l.Nodes[i]
	switch t.Uni("bend", 8) {
	case 0:
		n.Flags ^= 1 << t.Uni("bf", 32)
		w.note("flags of node %d", i)
	case 1:
		al := n.Key.algs()
		n.Alg = al[t.Uni("ba", len(al))].ID
		w.note("algorithm of node %d", i)
		if t.Pct("bagain", 50) {
			l.Sign(i)
		}
	case 2:
		n.ParentAlg = pick(t, "bp", []uint32{0x103, 0x201, 0x301, 0})
		n.Signed = n.encodeSigned()
		if i > 0 && t.Pct("bagain", 70) {
			p := l.Nodes[i-1]
			if a := algByID(p.Alg); a != nil && p.Key.fits(a) {
				n.Sig = p.Key.SignAlg(a, n.Signed)
			}
		}
		w.note("parent algorithm of node %d", i)
	case 3:
		if len(n.Sig) > 0 {
			n.Sig = append([]byte(nil), n.Sig...)
			n.Sig[t.Uni("bs", len(n.Sig))] ^= 1
		} else {
			n.Sig = []byte{1}
		}
		w.note("signature of node %d", i)
	case 4:
		n.Key, n.Cert = w.keys[0], w.cert(w.keys[0])
		n.Alg = w.keys[0].algs()[0].ID
		if t.Pct("bagain", 70) {
			l.Sign(i)
		}
		w.note("certificate of node %d", i)
	case 5:
		l.Version = pick(t, "bv", []uint32{0, 2, 0x101})
		w.note("lineage version %d", l.Version)
	case 6:
		l.Nodes = append(l.Nodes[:i:i], l.Nodes[i+1:]...)
		w.note("without node %d", i)
		if t.Pct("bagain", 50) {
			l.Sign(0)
		}
	case 7:
		n.Signed = cat(n.Signed, t.Bytes("btail", 1, 4))
		if i > 0 {
			if p := l.Nodes[i-1]; algByID(p.Alg) != nil && p.Key.fits(algByID(p.Alg)) {
				n.Sig = p.Key.SignAlg(algByID(p.Alg), n.Signed)
			}
		}
		w.note("data after node %d", i)
	}
	return l
}

func (w *wild) encLineage(l *Lineage) []byte {
	b := l.Encode()
	if w.rare("damaged lineage encoding") {
		switch w.t.Uni("dl", 3) {
		case 0:
			b = b[:w.t.Uni("cut", len(b))]
		case 1:
			b = cat(b, w.t.Bytes("more", 1, 5))
		default:
			b = w.t.mutBytes(b, 1)
		}
	}
	return b
}

func (w *wild) attrs(s *Signer, scheme int, l *Lineage) {
	t := w.t
	u := func(v uint32) []byte {
		b := u32(v)
		if w.rare("short attribute") {
			return b[:t.Uni("sa", 4)]
		}
		return b
	}
	strip := func() {
		v := uint32(3)
		if w.rare("other stripped scheme") {
			v = pick(t, "ss", []uint32{0, 1, 2, 4, 31, 30, 0xffffffff})
		}
		s.Attrs = append(s.Attrs, Attr{attrStrip, u(v)})
	}
	minSdk := func() {
		v := w.rot
		if v == 0 || w.rare("other rotation level") {
			v = int32(pick(t, "rl", []int{1, 28, 32, 33, 34, 35}))
		}
		s.Attrs = append(s.Attrs, Attr{attrMinSdk, u(uint32(v))})
	}
	if scheme == 2 && t.Pct("strip", 40) {
		strip()
	}
	if l != nil {
		s.Attrs = append(s.Attrs, Attr{attrPoR, w.encLineage(l)})
	}
	if scheme == 3 && (w.rot != 0 && t.Pct("minsdk", 70) || w.rare("rotation level")) {
		minSdk()
	}
	if scheme == 31 && (t.Pct("dev", 15) || w.rare("empty attribute")) {
		s.Attrs = append(s.Attrs, Attr{attrRotDev, nil})
	}
	for t.Pct("moreattrs", 12) {
		switch t.Uni("ma", 6) {
		case 0:
			if scheme != 2 || w.rare("another stripping attribute") {
				strip()
			}
		case 1:
			if w.rare("rotation level again") {
				minSdk()
			}
		case 2:
			s.Attrs = append(s.Attrs, Attr{attrPoR, nil})
			w.note("empty lineage")
		case 3:
			if len(w.lins) > 0 && w.rare("second lineage") {
				s.Attrs = append(s.Attrs, Attr{attrPoR, w.lins[0].Encode()})
			}
		default:
			s.Attrs = append(s.Attrs, Attr{uint32(t.bits(32, "aid")), t.Bytes("aval", 0, 20)})
		}
	}
	if len(s.Attrs) > 1 && t.Pct("shuffle", 30) {
		p := t.perm(len(s.Attrs))
		a := make([]Attr, len(p))
		for i, j := range p {
			a[i] = s.Attrs[j]
		}
		s.Attrs = a
	}
}

func (w *wild) signer(scheme int, min, max int32, l *Lineage) *Signer {
	t := w.t
	k := w.key()
	var c []byte
	if l != nil && len(l.Nodes) > 0 && !w.rare("not the lineage's signer") {
		n := l.Nodes[len(l.Nodes)-1]
		k, c = n.Key, n.Cert
	}
	s := &Signer{V3: scheme != 2, Key: k, PubKey: k.SPKI, Min: min, Max: max, SMin: min, SMax: max}
	if c == nil {
		c = w.cert(k)
	}
	s.Certs = [][]byte{c}
	if w.rare("certificate of another key") {
		s.Certs[0] = w.cert(w.key())
	}
	for t.Pct("morecerts", 20) {
		s.Certs = append(s.Certs, w.cert(w.key()))
	}
	if w.rare("no certificates") {
		s.Certs = nil
	}
	if w.rare("another public key") {
		s.PubKey = w.key().SPKI
	}
	algs := w.algs(k)
	for _, id := range algs {
		dg := bulk(uint64(id), 32)
		if d := digestKind(id); d != 0 {
			dg = w.d.Get(d)
		}
		if w.rare("wrong digest") {
			dg = append([]byte(nil), dg...)
			switch t.Uni("wd", 3) {
			case 0:
				dg[t.Uni("di", len(dg))] ^= 1
			case 1:
				dg = dg[:t.Uni("dc", len(dg))]
			default:
				dg = cat(dg, []byte{0})
			}
		}
		s.Digests = append(s.Digests, AlgData{id, dg})
	}
	sigAlgs := algs
	if w.rare("digests in another order") && len(algs) > 1 {
		p := t.perm(len(algs))
		sigAlgs = nil
		for _, i := range p {
			sigAlgs = append(sigAlgs, algs[i])
		}
	}
	if w.rare("fewer signatures") && len(sigAlgs) > 0 {
		sigAlgs = sigAlgs[:len(sigAlgs)-1]
	}
	if w.rare("fewer digests") && len(s.Digests) > 0 {
		i := t.Uni("fd", len(s.Digests))
		s.Digests = append(s.Digests[:i:i], s.Digests[i+1:]...)
	}
	w.attrs(s, scheme, l)
	if t.Pct("stail", 10) {
		s.SignedTail = t.Bytes("st", 1, 6)
	}
	if t.Pct("tail", 10) {
		s.Tail = t.Bytes("rt", 1, 6)
	}
	if w.rare("other signed range") {
		if t.Pct("sm", 50) {
			s.SMin += int32(t.Range("smd", -1, 1))
		} else if s.SMax < 1000 {
			s.SMax++
		} else {
			s.SMax--
		}
	}
	s.SignedBytes = s.EncodeSigned()
	if w.rare("damaged signed data, signed") {
		if t.Pct("dcut", 40) {
			s.SignedBytes = s.SignedBytes[:t.Uni("dcutat", len(s.SignedBytes))]
		} else {
			s.SignedBytes = t.mutBytes(s.SignedBytes, 1)
		}
	}
	for _, id := range sigAlgs {
		s.Sigs = append(s.Sigs, AlgData{id, w.sign(k, id, s.SignedBytes)})
	}
	if w.rare("damaged record") {
		s.Raw = t.mutBytes(s.Encode(), 1)
	}
	return s
}

// cuts divides the levels from lo on into ranges.
func (w *wild) cuts(lo int32) (r [][2]int32) {
	t := w.t
	n := pick(t, "nr", []int{1, 1, 1, 2, 2, 3})
	for i := 0; i < n; i++ {
		hi := lo + int32(t.Uni("span", 5))
		if i == n-1 {
			hi = int32(pick(t, "hi", []int{anyMax, anyMax, anyMax, anyMax, 36, 33, 32}))
			if hi < lo && !w.rare("empty range") {
				hi = anyMax
			}
		}
		r = append(r, [2]int32{lo, hi})
		if hi == anyMax {
			break
		}
		lo = hi + 1
	}
	if w.rare("ranges off") {
		i, d := t.Uni("ri", len(r)), int32(pick(t, "rd", []int{-2, -1, 1, 2, -40}))
		if t.Pct("rside", 50) || r[i][1] == anyMax {
			r[i][0] += d
		} else {
			r[i][1] += d
		}
	}
	if len(r) > 1 && t.Pct("rshuffle", 40) {
		p := t.perm(len(r))
		q := make([][2]int32, len(r))
		for i, j := range p {
			q[i] = r[j]
		}
		r = q
	}
	return
}

// v3signers are signers of v3 (up to the rotation level) or v3.1.
func (w *wild) v3signers(scheme int) (l []*Signer) {
	t := w.t
	lo := int32(28)
	if w.rare("late start") {
		lo = int32(pick(t, "lo", []int{26, 29, 30, 33}))
	}
	if scheme == 31 {
		lo = w.rot
	}
	rs := w.cuts(lo)
	if scheme == 3 && w.rot != 0 && t.Pct("until", 30) {
		for i := range rs {
			if rs[i][1] == anyMax {
				rs[i][1] = w.rot - 1
			}
		}
	}
	for i, r := range rs {
		var lin *Lineage
		if len(w.lins) > 0 && t.Pct("lin", 60) {
			lin = w.lins[0]
			// shorter ones for earlier platforms
			if n := len(lin.Nodes); n > 0 && len(rs) > 1 && t.Pct("prefix", 70) {
				m := n - (len(rs) - 1 - i)
				if m < 1 || w.rare("any prefix") {
					m = t.Range("pre", 1, n)
				}
				lin = lin.Prefix(m)
			}
			if w.rare("bent lineage") {
				lin = w.bend(lin)
			}
			if w.rare("unrelated lineage") {
				lin = w.lineage()
			}
		}
		l = append(l, w.signer(scheme, r[0], r[1], lin))
	}
	return
}

func (w *wild) pair(id uint32, l []*Signer) Pair {
	t := w.t
	v := encodeSigners(l)
	if t.Pct("after", 5) {
		v = cat(v, t.Bytes("af", 1, 8))
	}
	if w.rare("damaged list") {
		v = t.mutBytes(v, 1)
	}
	if w.rare("empty pair") {
		v = nil
	}
	return Pair{id, v}
}

// genWild makes an APK and the range to ask about.
func (t *T) genWild() (apk []byte, min, max int32, desc string) {
	z := t.genZip(zipOpts{maxEntries: 2, maxSize: 60, maxComment: 10, align: pick(t, "align", []int{0, 0, 4096})})
	w := &wild{t: t, d: newDigests(z.Build()), odd: pick(t, "oddity", []int{0, 1, 1, 2, 2, 4, 8})}
	for n := t.Range("nk", 2, 4); n > 0; n-- {
		w.keys = append(w.keys, keyByName[pick(t, "k", []string{"rsa1024-a", "rsa1024-b", "rsa1024-c", "ec256-a", "ec256-b", "ec256-c", "ec224-a", "dsa1024q160-a", "rsa2048-a", "ec384-a"})])
	}
	if t.Pct("lineages", 60) {
		w.lins = append(w.lins, w.lineage())
	}
	combo := pick(t, "combo", []string{"2", "2", "3", "3", "3", "23", "23", "31", "31", "31", "31", "231", "231", "21", "1"})
	if strings.Contains(combo, "1") {
		w.rot = int32(pick(t, "rot", []int{33, 33, 34, 35, 30}))
	}
	var ps []Pair
	if strings.Contains(combo, "2") {
		var l []*Signer
		for n := pick(t, "n2", []int{1, 1, 1, 2, 2, 2, 3, 3, 4, 0}); n > 0; n-- {
			l = append(l, w.signer(2, 0, 0, nil))
		}
		if len(l) == 1 && w.rare("many signers") {
			for n := t.Range("many", 8, 11); n > 0; n-- {
				l = append(l, l[0])
			}
		}
		ps = append(ps, w.pair(idV2, l))
	}
	if strings.Contains(combo, "3") {
		ps = append(ps, w.pair(idV3, w.v3signers(3)))
	}
	if strings.Contains(combo, "1") {
		ps = append(ps, w.pair(idV31, w.v3signers(31)))
	}
	for t.Pct("extra", 15) {
		ps = append(ps, Pair{uint32(t.bits(32, "xid")), t.Bytes("xval", 0, 30)})
	}
	if w.rare("pair twice") {
		ps = append(ps, ps[t.Uni("tw", len(ps))])
	}
	p := t.perm(len(ps))
	q := make([]Pair, len(ps))
	for i, j := range p {
		q[i] = ps[j]
	}
	if t.Pct("pad", 30) {
		q = append(q, padPair(q))
	}
	blk := encodeBlock(q)
	if w.rare("damaged block") {
		blk = t.mutBytes(blk, 1)
	}
	apk = w.d.sec.Assemble(blk)
	min = int32(pick(t, "min", []int{1, 21, 23, 24, 27, 28, 28, 29, 30, 33, 34}))
	max = int32(pick(t, "max", []int{23, 24, 27, 28, 29, 31, 32, 33, 33, 34, 35, 36, anyMax, anyMax}))
	if strings.Contains(combo, "1") && t.Pct("hi31", 60) {
		max = int32(pick(t, "max31", []int{33, 34, 35, 36, anyMax}))
	}
	if max < min {
		min, max = max, min
	}
	return apk, min, max, fmt.Sprintf("%s; %s", combo, strings.Join(w.desc, ", "))
}

func c36Wild(t *T) {
	apk, min, max, d := t.genWild()
	t.Note("%s", d)
	v := t.compareRef(d, apk, min, max)
	t.refClass("wild", v)
	t.NonTrivial(apk, min, max)
	t.Sample("%s <%d;%d>: %s", d, min, max, v)
}

func (t *T) refClass(src string, v *refVerdict) {
	switch {
	case v.none != "":
		t.Class("%s: no block", src)
	case v.bad != "":
		b := v.bad
		b = strings.TrimPrefix(b, "v3 beside v3.1: ")
		if i := strings.Index(b, ": "); i >= 0 && strings.HasPrefix(b, "signer") {
			b = b[i+2:]
		}
		b = strings.Map(func(r rune) rune {
			if r >= '0' && r <= '9' {
				return '#'
			}
			return r
		}, b)
		if len(b) > 30 {
			b = b[:30]
		}
		t.Class("%s: scheme %d, %s", src, v.scheme, b)
	case v.unsure != "":
		t.Class("%s: not judged, %.20s", src, v.unsure)
	default:
		t.Class("%s: scheme %d accepted, %d signers, lineage %v", src, v.scheme, len(v.chains), len(v.lineage) > 0)
	}
}

// c36Sources: the APKs of all other checks, as they are or damaged.
func c36Sources(t *T) {
	src := resultSources[t.Uni("source", len(resultSources))]
	seen, notes := t.collect(src.f)
	if len(seen) == 0 {
		return
	}
	s := seen[t.Uni("which", len(seen))]
	for _, n := range notes {
		t.Note("%s", n)
	}
	if len(s.apk) > 8<<20 {
		return
	}
	if t.Pct("mutated", 25) {
		s.apk = t.mutBytes(s.apk, 1)
		t.Note("mutated")
	}
	if s.min < 0 || s.max < s.min || t.Pct("own", 40) {
		s.min = int32(pick(t, "min", []int{1, 9, 23, 24, 27, 28, 29, 32, 33}))
		s.max = int32(pick(t, "max", []int{33, 34, 35, 36, anyMax}))
	}
	v := t.compareRef(src.name, s.apk, s.min, s.max)
	t.refClass(src.name, v)
	t.NonTrivial(s.apk, s.min, s.max)
}

func init() {
	register("C36", "an APK whose signing block is put together from mostly well-signed parts with some oddities (lists, algorithms, ranges, lineages, attributes, encodings), or the APK of any other check, judged by a reference implementation of the schemes; distinct by APK and range",
		Sub{"wild", 20000, 600000, c36Wild},
		Sub{"sources", 4000, 80000, c36Sources},
	)
}

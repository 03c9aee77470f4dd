package main

import (
	"bytes"
	"fmt"

	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/signingblock"
)

const stampEntry = "stamp-cert-sha256"

// jcaLevel is the first platform whose crypto provider knows the algorithm.
func jcaLevel(id uint32) int32 {
	a := algByID(id)
	switch {
	case a.PSS:
		return 23
	case a.Kind == "ec":
		return 11
	}
	return 1
}

// stampAPK is an APK signed with one or more schemes that carries a source stamp.
type stampAPK struct {
	b        *BlockAPK
	j        *JarAPK
	key      *Key
	cert     []byte
	algs     []uint32
	scheme   int // verified for <min;max>
	min, max int32
	desc     string
}

// verified algorithms: on each level of crypto provider that is in the range, the strongest.
func (s *stampAPK) verified() []uint32 {
	by := map[int32][]uint32{}
	for _, a := range s.algs {
		if l := jcaLevel(a); l <= s.max {
			by[l] = append(by[l], a)
		}
	}
	var r []uint32
	for _, l := range []int32{1, 11, 23} {
		if len(by[l]) > 0 {
			r = append(r, by[l][bestOf(by[l])])
		}
	}
	return r
}

// schemeDigests: what the stamp signs for the scheme (1, 2 or 3).
func (s *stampAPK) schemeDigests(id int32) []byte {
	m := map[int][]byte{}
	specs := s.b.V2
	switch id {
	case 1:
		var mf []byte
		if e := s.b.Zip.find("META-INF/MANIFEST.MF"); e != nil {
			mf = sha256Sum(e.Data)
		}
		m[4] = mf
		return stampDigests(m)
	case 3:
		specs = s.b.V3
	}
	for _, x := range specs {
		if i := x.best(); i >= 0 {
			k := digestKind(x.Algs[i])
			m[k] = s.b.D.Get(k)
		}
	}
	return stampDigests(m)
}

// schemes present in the APK, by stamp id.
func (s *stampAPK) schemes() []int32 {
	var r []int32
	if s.j != nil {
		r = append(r, 1)
	}
	if len(s.b.V2) > 0 {
		r = append(r, 2)
	}
	if len(s.b.V3) > 0 {
		r = append(r, 3)
	}
	return r
}

func (s *stampAPK) needed() int32 {
	if s.scheme == 31 {
		return 3
	}
	return int32(s.scheme)
}

func (s *stampAPK) bytes(stamp []byte) []byte {
	ps := s.b.Pairs()
	if stamp != nil {
		i := 0
		if len(s.b.Order) > 0 {
			i = s.b.Order[0] % (len(ps) + 1)
		}
		ps = append(ps[:i:i], append([]Pair{{idStamp, stamp}}, ps[i:]...)...)
	}
	return s.b.Sec.Assemble(encodeBlock(ps))
}

// genStampAPK draws the APK; entry: the stamp-cert-sha256 entry (nil: none).
func (t *T) genStampAPK(entry func(cert []byte) []byte) *stampAPK {
	s := &stampAPK{key: t.genKey("stamp.key")}
	s.cert = selfCert(s.key, 20+t.Uni("stamp.v", 3))
	if t.Pct("stamp.issued", 20) {
		s.cert = issuedCert(s.key, 1, keyByName["rsa2048-d"], 0)
	}
	s.algs = t.genAlgs(s.key, true)
	if e := entry(s.cert); e != nil {
		t.zipExtra = []*ZEntry{{Name: stampEntry, Data: e, Deflate: t.Pct("stamp.defl", 40)}}
	}
	kind := pick(t, "kind", []string{"v1", "v1", "2", "2", "3", "23", "23", "3r", "23r", "fallback"})
	zo := zipOpts{maxEntries: 2, maxSize: 120}
	level := int32(100) // lowest level the stamp can be checked on
	for _, a := range s.algs {
		if l := jcaLevel(a); l < level {
			level = l
		}
	}
	s.b = &BlockAPK{}
	low := false
	if kind == "v1" || t.Pct("v1", 40) {
		s.j = t.genJar(zo, 1)
		s.j.MFDigests, s.j.Signers[0].Digests = dedup(append(s.j.MFDigests, "SHA1")), dedup(append(s.j.Signers[0].Digests, "SHA1"))
		s.j.Make()
		s.b.Zip = s.j.Spec()
		low = kind == "v1" || kind != "fallback" && t.Pct("lowmin", 40)
	} else {
		s.b.Zip = t.genZip(zo)
	}
	s.max = anyMax
	switch kind {
	case "v1":
		s.scheme = 1
		if t.Pct("v2below", 50) { // a v2 block that these platforms do not know
			s.b.V2 = append(s.b.V2, t.genSigner(false, false))
			s.max = int32(pick(t, "max1", []int{11, 18, 22, 23}))
		} else if t.Pct("max1low", 50) {
			s.max = int32(pick(t, "max1", []int{11, 18, 23, 24, 28, 33}))
		}
	case "fallback":
		t.genSchemes(s.b, 60, "23")
		s.scheme = 2
	default:
		t.genSchemes(s.b, 60, kind)
		switch kind {
		case "2":
			s.scheme = 2
			if t.Pct("maxlow", 40) {
				s.max = int32(pick(t, "max2", []int{24, 27, 28, 33, 34}))
			}
		case "3", "23":
			s.scheme = 3
			if t.Pct("maxlow", 40) {
				s.max = int32(pick(t, "max3", []int{28, 32, 33, 34}))
			}
			if kind == "23" && t.Pct("only2", 30) {
				s.scheme, s.max = 2, int32(pick(t, "max2", []int{24, 27}))
			}
		default:
			s.scheme = 31
			if t.Pct("maxlow", 40) {
				s.max = int32(pick(t, "max31", []int{33, 34, 35}))
			}
			if t.Pct("only3", 30) {
				s.scheme, s.max = 3, int32(pick(t, "max3", []int{28, 32}))
			}
		}
	}
	if low {
		s.min = int32(pick(t, "min", []int{1, 10, 11, 17, 18, 22, 23}))
	} else {
		s.min = int32(pick(t, "min", []int{24, 24, 26, 27, 28, 33}))
	}
	if kind == "fallback" {
		s.min = int32(pick(t, "minf", []int{24, 26, 27}))
	} else if s.scheme >= 3 && len(s.b.V2) == 0 && s.min < 28 {
		s.min = 28 // no platform below can check it
	}
	if s.min > s.max {
		s.min = s.max
	}
	if s.min < level && level <= s.max {
		s.min = level
		if s.scheme >= 3 && len(s.b.V2) == 0 && s.min < 28 {
			s.min = 28
		}
	}
	if level > s.max { // no platform could check that stamp: use another key
		s.key = keyByName["rsa1024-a"]
		if bytes.Equal(s.cert, selfCert(s.key, 20)) || s.max < 0 {
			s.min = 1
		}
		s.algs = []uint32{0x103}
		s.cert = selfCert(s.key, 25)
		t.zipExtra = nil
		for _, e := range s.b.Zip.Entries {
			if e.Name == stampEntry {
				return nil
			}
		}
	}
	s.b.Make()
	if kind == "fallback" {
		r := s.b.RecV3[0].clone()
		t.breakRecord(r)
		s.b.RecV3[0] = r
	}
	s.desc = fmt.Sprintf("%s APK verified with scheme %d for <%d;%d>, stamp key %s algorithms %#x", kind, s.scheme, s.min, s.max, s.key.Name, s.algs)
	s.b.Order = nil
	t.zipExtra = nil
	return s
}

type stampParts struct {
	st   *Stamp
	time int64
	lin  *Lineage
	list []Attr
}

// genStamp makes a valid stamp for the APK.
func (t *T) genStamp(s *stampAPK) *stampParts {
	p := &stampParts{st: &Stamp{Cert: s.cert, Schemes: map[int32][]AlgData{}}}
	algs := s.algs
	if t.Pct("unkalg", 15) { // an algorithm nobody knows beside the real ones
		i := t.Uni("ui", len(algs)+1)
		algs = append(algs[:i:i], append([]uint32{0x7777}, algs[i:]...)...)
	}
	ids := s.schemes()
	if t.Pct("only", 30) {
		ids = []int32{s.needed()}
	} else if t.Pct("unkscheme", 15) {
		ids = append(ids, 9)
	}
	for _, i := range t.perm(len(ids)) {
		id := ids[i]
		p.st.Order = append(p.st.Order, id)
		if id == 9 {
			p.st.Schemes[id] = []AlgData{{0x103, bulk(3, 20)}}
			continue
		}
		p.st.Schemes[id] = signAll(s.key, algs, s.schemeDigests(id))
	}
	if t.Pct("noattrs", 20) {
		p.st.NoAttrs = true
		return p
	}
	if t.Pct("time", 70) {
		p.time = int64(t.bits(33, "timev")) + 1
		if t.Pct("bigtime", 5) {
			p.time = 1<<62 + int64(t.bits(40, "timeh"))
		}
		p.list = append(p.list, Attr{attrStTime, u64(uint64(p.time))})
	}
	if t.Pct("lin", 50) {
		p.lin = t.genLineage(t.lineageLen("ln", 4), s.key, s.cert)
		p.list = append(p.list, Attr{attrStPoR, p.lin.Encode()})
	}
	if t.Pct("unkattr", 25) {
		p.list = append(p.list, Attr{0x1234567, t.Bytes("ua", 0, 12)})
	}
	q := make([]Attr, 0, len(p.list))
	for _, i := range t.perm(len(p.list)) {
		q = append(q, p.list[i])
	}
	p.list = q
	p.sign(s, algs)
	return p
}

func (p *stampParts) sign(s *stampAPK, algs []uint32) {
	p.st.Attrs = stampAttrs(p.list)
	p.st.AttrSigs = signAll(s.key, algs, p.st.Attrs)
}

func sha256Entry(cert []byte) []byte { return sha256Sum(cert) }

// stampState describes what was reported.
func stampState(r *signingblock.SourceStampResult) string {
	if r == nil {
		return "no stamp reported"
	}
	return fmt.Sprintf("stamp reported, errors %v, warnings %v", r.Errors, r.Warnings)
}

func (t *T) stampResult(d string, apk []byte, s *stampAPK) *signingblock.SourceStampResult {
	v := t.mustAccept(d, apk, s.min, s.max, s.scheme, nil)
	if v.Res.SigningBlockResult == nil {
		t.Violate("%s: no signing block result", d)
	}
	return v.Res.SigningBlockResult.SourceStamp
}

func c10Valid(t *T) {
	s := t.genStampAPK(sha256Entry)
	if s == nil {
		return
	}
	p := t.genStamp(s)
	apk := s.bytes(p.st.Encode())
	d := fmt.Sprintf("%s, time %d, lineage %v", s.desc, p.time, p.lin != nil)
	t.Note("%s; stamp schemes %v", d, p.st.Order)
	t.Sample("valid stamp: %s", d)
	t.Class("valid, scheme %d", s.scheme)
	t.NonTrivial(apk, s.min, s.max)
	r := t.stampResult(d, apk, s)
	switch {
	case r == nil || len(r.Errors) != 0:
		t.Violate("%s: valid stamp: %s", d, stampState(r))
	case r.Cert == nil || !bytes.Equal(r.Cert.Raw, s.cert):
		t.Violate("%s: another stamp certificate reported", d)
	case p.time == 0 && !r.SigningTime.IsZero(), p.time != 0 && r.SigningTime.Unix() != p.time:
		t.Violate("%s: signing time %v (%d) reported", d, r.SigningTime, r.SigningTime.Unix())
	case (p.lin == nil) != (len(r.Lineage) == 0):
		t.Violate("%s: lineage of %d nodes reported", d, len(r.Lineage))
	}
	if p.lin != nil {
		if len(r.Lineage) != len(p.lin.Nodes) {
			t.Violate("%s: lineage of %d nodes reported, want %d", d, len(r.Lineage), len(p.lin.Nodes))
		}
		for i, w := range p.lin.Nodes {
			g := r.Lineage[i]
			if !bytes.Equal(g.Cert.Raw, w.Cert) || uint32(g.ParentAlgo) != w.ParentAlg || uint32(g.Algo) != w.Alg || uint32(g.Flags) != w.Flags || !bytes.Equal(g.Signature, w.Sig) {
				t.Violate("%s: lineage node %d differs from the signed one", d, i)
			}
		}
	}
}

func c10Tamper(t *T) {
	op := t.Uni("op", 29)
	what := ""
	wantWarning, wantNil := false, false
	s := t.genStampAPK(func(cert []byte) []byte {
		h := sha256Sum(cert)
		switch op {
		case 0:
			what = "hash entry bit flipped"
			h[t.Uni("hb", 32)] ^= 1 << t.Uni("hbit", 8)
		case 1:
			what = "hash entry of another length"
			switch t.Uni("hl", 4) {
			case 0:
				h = h[:31]
			case 1:
				h = append(h, 0)
			case 2:
				h = []byte{}
			default:
				h = append(h, bulk(1, 70000)...)
			}
		case 2:
			what = "hash entry of another certificate"
			h = sha256Sum(selfCert(keyByName["ec256-e"], 0))
		case 3, 4, 22:
			what = "hash entry missing"
			wantWarning = true
			return nil
		case 5:
			what = "hash entry as hexadecimal digits"
			h = []byte(fmt.Sprintf("%x", h))
		}
		return h
	})
	if s == nil {
		return
	}
	p := t.genStamp(s)
	st := p.st
	need := s.needed()
	all := func(l []AlgData, f func(AlgData) AlgData) []AlgData {
		r := make([]AlgData, len(l))
		for i, x := range l {
			r[i] = f(x)
		}
		return r
	}
	var over []byte // what the signatures to damage are made over
	flipSig := func(x AlgData) AlgData {
		if a := algByID(x.Alg); a != nil && over != nil && t.Pct("oddsig", 40) {
			b, odd := t.oddSignature(s.key, a.Hash, a.PSS, over)
			t.Class("odd signature", a.Kind+": "+odd)
			return AlgData{x.Alg, b}
		}
		b := append([]byte(nil), x.Data...)
		b[t.Uni("sb", len(b))] ^= 1 << t.Uni("sbit", 8)
		return AlgData{x.Alg, b}
	}
	raw := []byte(nil)
	switch op {
	case 6:
		what = "certificate of another key"
		k := t.otherKey(s.key)
		st.Cert = selfCert(k, 20)
	case 7:
		what = "another certificate of the same key"
		st.Cert = selfCert(s.key, 29)
	case 8:
		what = "signed by another key"
		k := t.otherKey(s.key)
		st.Schemes[need] = signAll(k, []uint32{k.algs()[0].ID}, s.schemeDigests(need))
	case 9:
		what = "signature bits flipped"
		over = s.schemeDigests(need)
		if l := s.verified(); t.Pct("one", 70) && len(l) > 0 { // one that some platform of the range relies on
			id := pick(t, "which", l)
			what = "one of the signatures flipped"
			st.Schemes[need] = all(st.Schemes[need], func(x AlgData) AlgData {
				if x.Alg == id {
					return flipSig(x)
				}
				return x
			})
		} else {
			st.Schemes[need] = all(st.Schemes[need], flipSig)
		}
	case 10:
		what = "stamp of another APK"
		o := *s
		o.b = &BlockAPK{Zip: s.b.Zip.clone(), V2: s.b.V2, V3: s.b.V3, V31: s.b.V31}
		e := o.b.Zip.Entries[t.Uni("oe", len(o.b.Zip.Entries))]
		e.Data = append(append([]byte(nil), e.Data...), 1)
		if need == 1 {
			e = o.b.Zip.find("META-INF/MANIFEST.MF")
			e.Data = append(append([]byte(nil), e.Data...), 10)
		}
		o.b.Make()
		for _, id := range st.Order {
			if id != 9 {
				st.Schemes[id] = signAll(s.key, s.algs, o.schemeDigests(id))
			}
		}
	case 11:
		what = "no signature for the scheme"
		var o []int32
		for _, id := range st.Order {
			if id != need {
				o = append(o, id)
			}
		}
		if t.Pct("empty", 30) {
			o = nil
		} else if t.Pct("other", 40) {
			id := pick(t, "oid", []int32{31, 0, 4, 5, -1})
			o = append(o, id)
			st.Schemes[id] = st.Schemes[need]
		}
		st.Order = o
	case 12:
		what = "empty or unknown signatures only"
		st.Schemes[need] = nil
		if t.Pct("unk", 60) {
			st.Schemes[need] = []AlgData{{0x7777, bulk(9, 64)}}
		}
	case 13:
		what = "digests of another scheme or order"
		d := s.schemeDigests(need)
		switch t.Uni("dig", 4) {
		case 0:
			d = d[:len(d)-1]
		case 1:
			d = append(append([]byte(nil), d...), 0)
		case 2:
			d = append([]byte(nil), d...)
			d[t.Uni("db", len(d))] ^= 1 << t.Uni("dbit", 8)
		default:
			d = lp(d)
		}
		st.Schemes[need] = signAll(s.key, s.algs, d)
	case 14:
		if st.NoAttrs {
			return
		}
		what = "attributes changed"
		if len(st.Attrs) > 4 {
			st.Attrs = append([]byte(nil), st.Attrs...)
			st.Attrs[4+t.Uni("ab", len(st.Attrs)-4)] ^= 1 << t.Uni("abit", 8)
		} else {
			st.Attrs = stampAttrs([]Attr{{attrStTime, u64(77)}})
		}
	case 15:
		if st.NoAttrs {
			return
		}
		what = "attribute signatures flipped, missing or of another key"
		switch t.Uni("as", 3) {
		case 0:
			over = st.Attrs
			st.AttrSigs = all(st.AttrSigs, flipSig)
		case 1:
			st.AttrSigs = nil
		default:
			k := t.otherKey(s.key)
			st.AttrSigs = signAll(k, []uint32{k.algs()[0].ID}, st.Attrs)
		}
	case 16:
		what = "time not positive or short"
		st.NoAttrs = false
		p.list = []Attr{{attrStTime, pick(t, "badtime", [][]byte{u64(0), u64(1 << 63), u64(0xffffffffffffffff), {1, 0, 0, 0, 0, 0, 0}, {}})}}
		p.sign(s, s.algs)
	case 17, 18, 23:
		l := t.genLineage(t.lineageLen("ln", 4), s.key, s.cert)
		bad, w, edit := t.breakLineage(l)
		if bad == nil {
			return
		}
		what = "lineage: " + w
		enc := bad.Encode()
		if edit != nil {
			enc = edit(enc)
		}
		if t.Pct("nolin", 10) {
			what, enc = "lineage without nodes", enc[:4]
		}
		st.NoAttrs = false
		p.list = []Attr{{attrStPoR, enc}}
		if t.Pct("wt", 40) {
			p.list = append(p.list, Attr{attrStTime, u64(123456)})
		}
		p.sign(s, s.algs)
	case 19:
		e := st.Encode()
		cut := t.Range("cut", 1, len(e))
		what = "stamp truncated"
		raw = e[:len(e)-cut]
		t.Note("%d of %d bytes cut", cut, len(e))
	case 20:
		what = "stamp block missing"
		wantNil = false
		raw = []byte{}
	case 21:
		what = "attribute signatures cut off"
		if st.NoAttrs {
			return
		}
		st.NoAttrs = true
		raw = lp(st.Encode()[4:], lp(st.Attrs))
	case 22:
		what = "neither block nor hash entry"
		wantNil, wantWarning = true, false
	}
	if op >= 24 {
		raw, what = t.breakStamp(s, p)
		if raw == nil {
			return
		}
	}
	enc := st.Encode()
	if raw != nil {
		enc = raw
	}
	if op == 20 || op == 22 {
		enc = nil
		if s.b.nPairs() == 0 {
			return // no signing block at all
		}
	}
	apk := s.bytes(enc)
	d := fmt.Sprintf("%s: %s", s.desc, what)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.Class("%s", what)
	t.NonTrivial(apk, s.min, s.max)
	r := t.stampResult(d, apk, s)
	switch {
	case wantNil:
		if r != nil {
			t.Violate("%s: %s", d, stampState(r))
		}
	case wantWarning:
		if r == nil || len(r.Errors) == 0 && len(r.Warnings) == 0 {
			t.Violate("%s: %s", d, stampState(r))
		}
		if !bytes.Equal(r.Cert.Raw, s.cert) {
			t.Violate("%s: another certificate reported", d)
		}
	default:
		if r == nil || len(r.Errors) == 0 {
			t.Violate("%s: %s", d, stampState(r))
		}
	}
}

// breakStamp damages the structure of a valid stamp; what is signed is signed again.
func (t *T) breakStamp(s *stampAPK, p *stampParts) ([]byte, string) {
	st := p.st
	var schemes lpList
	for _, id := range st.Order {
		schemes = append(schemes, cat(u32(uint32(id)), lp(encAlgs(st.Schemes[id]))))
	}
	fields := []lpField{{b: st.Cert}, {b: schemes.encode()}}
	if !st.NoAttrs {
		fields = append(fields, lpField{b: st.Attrs}, lpField{b: encAlgs(st.AttrSigs)})
	}
	// signatures: those of unknown algorithms need not be readable
	sigs := func(l []AlgData) ([]byte, string) {
		if t.Pct("sigbytes", 40) {
			al := algList(l)
			for i := range al {
				if algByID(l[i].Alg) != nil {
					al[i] = cat(al[i][:4], t.badPrefix(len(al[i])-8), al[i][8:])
				}
			}
			return al.encode(), "signatures longer than their elements"
		}
		return t.breakList(algList(l), 4)
	}
	what := ""
	switch t.Uni("sstruct", 7) {
	case 0:
		b, w := t.breakFields(fields)
		if len(b) == len(fieldsBytes(fields[:2])) {
			return nil, "" // a stamp without attributes
		}
		return lp(b), "stamp: " + w
	case 1:
		fields[1].b, what = t.breakList(schemes, 8)
		what = "schemes: " + what
	case 2:
		b, w := sigs(st.Schemes[s.needed()])
		for i, id := range st.Order {
			if id == s.needed() {
				schemes[i] = cat(u32(uint32(id)), lp(b))
			}
		}
		fields[1].b, what = schemes.encode(), "signatures of the scheme: "+w
	case 3:
		for i, id := range st.Order {
			if id == s.needed() {
				e := lp(encAlgs(st.Schemes[id]))
				if t.Pct("cut", 50) {
					schemes[i] = cat(u32(uint32(id)), e[:t.Uni("cutat", len(e))])
				} else {
					schemes[i] = cat(u32(uint32(id)), t.badPrefix(len(e)-4), e[4:])
				}
			}
		}
		fields[1].b, what = schemes.encode(), "signatures longer than the scheme's element"
	case 4:
		if st.NoAttrs {
			return nil, ""
		}
		fields[3].b, what = sigs(st.AttrSigs)
		what = "attribute signatures: " + what
	default:
		if st.NoAttrs {
			return nil, ""
		}
		l := attrList(p.list)
		if t.Pct("attrlist", 80) {
			b, w := t.breakList(l, 4)
			fields[2].b, what = lp(b), "attributes: "+w
		} else {
			b := l.encode()
			fields[2].b, what = cat(t.badPrefix(len(b)), b), "attributes longer than their field"
		}
		fields[3].b = encAlgs(signAll(s.key, s.algs, fields[2].b))
	}
	return lp(fieldsBytes(fields)), what
}

// otherBytes draws hostile contents for an optional block from a valid one.
func (t *T) hostile(b []byte) ([]byte, string) {
	b = append([]byte(nil), b...)
	switch t.Uni("hostile", 8) {
	case 0:
		return t.Bytes("rnd", 0, 64), "random bytes"
	case 1:
		return b[:t.Uni("hcut", len(b)+1)], "truncated"
	case 2, 3:
		for i := t.Range("hn", 1, 3); i > 0 && len(b) > 0; i-- {
			b[t.Uni("hat", len(b))] ^= 1 << t.Uni("hbit", 8)
		}
		return b, "bits flipped"
	case 4:
		if len(b) > 4 {
			copy(b[t.Uni("hat", len(b)-3):], pick(t, "hlen", [][]byte{{0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0x7f}, {0, 0, 0, 0x80}, {0, 0, 0, 0}, {1, 0, 0, 0}}))
		}
		return b, "extreme length"
	case 5:
		return append(b, t.Bytes("hx", 1, 9)...), "extended"
	case 6:
		i := t.Uni("hi", len(b)+1)
		return append(b[:i:i], append(t.Bytes("hx", 1, 5), b[i:]...)...), "bytes inserted"
	}
	if len(b) > 2 {
		i := t.Uni("hi", len(b)-1)
		j := i + 1 + t.Uni("hj", len(b)-i-1)
		b = append(b[:i:i], b[j:]...)
	}
	return b, "bytes removed"
}

// neutral checks that adding the pair to the APK changes nothing about the APK's own verdict.
func (t *T) neutral(d string, b *BlockAPK, apk []byte, pair Pair, ranges int) {
	head, tail := len(b.Sec.Contents), len(b.Sec.CD)
	block := apk[head : len(apk)-tail-len(b.Sec.EOCD(0))]
	var with []byte
	if len(block) == 0 {
		with = b.Sec.Assemble(encodeBlock([]Pair{pair}))
	} else {
		body := block[8 : len(block)-24]
		// between two pairs
		at := []int{0}
		for o := 0; o < len(body); {
			o += 8 + int(le32(body[o:]))
			at = append(at, o)
		}
		i := pick(t, "at", at)
		n := len(body) + len(encodePair(pair)) + 24
		with = b.Sec.Assemble(cat(u64(uint64(n)), body[:i], encodePair(pair), body[i:], u64(uint64(n)), []byte(blockMagicS)))
	}
	t.Attach("apk", apk)
	t.Attach("apk-with", with)
	xa, ea := apkverifier.ExtractCertsReader(bytes.NewReader(apk), nil)
	xb, eb := apkverifier.ExtractCertsReader(bytes.NewReader(with), nil)
	if (ea == nil) != (eb == nil) || !chainsEqual(rawChains(xa), rawChains(xb)) {
		t.Violate("%s: extraction gives %s, %v; without the block %s, %v", d, chainStr(rawChains(xb)), eb, chainStr(rawChains(xa)), ea)
	}
	for ; ranges > 0; ranges-- {
		min, max := int32(pick(t, "min", policyLevels)), int32(anyMax)
		if t.Pct("anymin", 30) {
			min = anyMin
		}
		if t.Pct("maxlow", 60) {
			max = int32(pick(t, "max", policyLevels))
		}
		if max < min && t.Pct("swap", 90) {
			min, max = max, min
		}
		t.Evals(1)
		t.NonTrivial(with, min, max)
		o, w := verify(apk, min, max), verify(with, min, max)
		t.Class("verdict without the block: accepted=%v scheme %d", o.Err == nil, o.Scheme)
		if (o.Err == nil) != (w.Err == nil) {
			t.Violate("%s: <%d;%d> verdict %v, without the block %v", d, min, max, w.Err, o.Err)
		}
		if o.Scheme != w.Scheme {
			t.Violate("%s: <%d;%d> scheme %d, without the block %d", d, min, max, w.Scheme, o.Scheme)
		}
		if !chainsEqual(o.Certs, w.Certs) {
			t.Violate("%s: <%d;%d> certificates %s, without the block %s", d, min, max, chainStr(w.Certs), chainStr(o.Certs))
		}
	}
}

func c10Neutral(t *T) {
	key := t.genKey("stamp.key")
	cert := selfCert(key, 21)
	if t.Pct("entry", 85) {
		t.zipExtra = []*ZEntry{{Name: stampEntry, Data: sha256Sum(cert)}}
	}
	_, apk, b := t.genPolicyAPK()
	t.zipExtra = nil
	s := &stampAPK{b: b, key: key, cert: cert, algs: t.genAlgs(key, true), scheme: pick(t, "sc", []int{1, 2, 3})}
	if b.Zip.find("META-INF/MANIFEST.MF") != nil {
		s.j = &JarAPK{}
	}
	p := t.genStamp(s)
	val, how := p.st.Encode(), "valid stamp"
	if t.Pct("hostile", 65) {
		val, how = t.hostile(val)
	}
	d := "stamp block: " + how
	t.Class("%s", d)
	t.Sample("%s, %d bytes", d, len(val))
	t.neutral(d, b, apk, Pair{idStamp, val}, t.Range("ranges", 1, 3))
}

func init() {
	register("C10", "a case is a stamped APK: a valid stamp that has to be reported whole (sub valid), a stamp altered in one way that has to carry errors or the warning (sub tamper), a stamp put together freely and judged by a reference implementation (sub wild), or an arbitrary APK judged with and without a valid or hostile stamp block (sub neutral); all cases are non-trivial, distinct by bytes and range",
		Sub{"valid", 3500, 70000, c10Valid},
		Sub{"tamper", 6000, 120000, c10Tamper},
		Sub{"every", 40, 1600, c10Every},
		Sub{"neutral", 4000, 80000, c10Neutral},
		Sub{"wild", 6000, 150000, c10Wild},
	)
}

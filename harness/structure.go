package main

import (
	"fmt"
)

// Structural damage: records whose length-prefixed fields do not fit. Everything that is signed is signed again after
// the damage, so that nothing but the structure is wrong.

// lpList is a list of length-prefixed elements.
type lpList [][]byte

func (l lpList) encode() []byte {
	var b []byte
	for _, e := range l {
		b = append(b, lp(e)...)
	}
	return b
}

// badPrefix draws a length that cannot be right where rest bytes follow.
func (t *T) badPrefix(rest int) []byte {
	switch t.Uni("pfx", 6) {
	case 0:
		return u32(0xffffffff)
	case 1:
		return u32(0x80000000 | uint32(t.Uni("neg", rest+1)))
	case 2:
		return u32(0x7fffffff)
	case 3:
		return u32(uint32(rest + 1))
	default:
		return u32(uint32(rest + t.Range("over", 1, 40)))
	}
}

// breakList damages a list of length-prefixed elements; short: elements shorter than that are not acceptable.
func (t *T) breakList(l lpList, short int) ([]byte, string) {
	var before []byte
	i := -1
	if len(l) > 0 {
		i = t.Uni("elem", len(l))
		before = l[:i].encode()
	}
	switch k := t.Uni("listop", 5); {
	case k == 0 || i < 0:
		return append(l.encode(), t.Bytes("junk", 1, 3)...), "bytes too few for an element at the end of the list"
	case k == 1:
		rest := l[i:].encode()[4:]
		return cat(before, t.badPrefix(len(rest)), rest), fmt.Sprintf("element %d longer than the list", i)
	case k == 2: // a cut exactly at the start of the element would just drop it
		e := lp(l[i])
		return cat(before, e[:1+t.Uni("cut", len(e)-1)]), fmt.Sprintf("list cut inside element %d", i)
	case k == 3:
		e := l[i]
		if len(e) >= short {
			e = e[:t.Uni("short", short)]
		}
		return cat(before, lp(e), l[i+1:].encode()), fmt.Sprintf("element %d too short", i)
	default: // a short element beside the others
		j := t.Uni("ins", len(l)+1)
		return cat(l[:j].encode(), lp(t.Bytes("se", 0, short-1)), l[j:].encode()), fmt.Sprintf("a too short element at %d", j)
	}
}

// breakFields damages a sequence of fields; fixed ones (SDK levels) have no prefix.
func (t *T) breakFields(fs []lpField) ([]byte, string) {
	var all []byte
	var start []int
	for _, f := range fs {
		start = append(start, len(all))
		all = append(all, f.encode()...)
	}
	switch t.Uni("fieldop", 3) {
	case 0: // cut anywhere
		n := t.Uni("cutat", len(all))
		if t.Pct("boundary", 50) {
			n = pick(t, "cutfield", start)
		}
		return all[:n], fmt.Sprintf("cut to %d of %d bytes", n, len(all))
	default:
		i := t.Uni("fieldno", len(fs))
		if fs[i].fixed {
			i = 0
		}
		n := start[i]
		return cat(all[:n], t.badPrefix(len(all)-n-4), all[n+4:]), fmt.Sprintf("field %d longer than what is left", i)
	}
}

type lpField struct {
	b     []byte
	fixed bool
}

func (f lpField) encode() []byte {
	if f.fixed {
		return f.b
	}
	return lp(f.b)
}

func algList(a []AlgData) lpList {
	var l lpList
	for _, x := range a {
		l = append(l, cat(u32(x.Alg), lp(x.Data)))
	}
	return l
}

func attrList(a []Attr) lpList {
	var l lpList
	for _, x := range a {
		l = append(l, cat(u32(x.ID), x.Val))
	}
	return l
}

func (s *Signer) signedFields() []lpField {
	f := []lpField{{b: algList(s.Digests).encode()}, {b: lpList(s.Certs).encode()}}
	if s.V3 {
		f = append(f, lpField{u32(uint32(s.SMin)), true}, lpField{u32(uint32(s.SMax)), true})
	}
	return append(f, lpField{b: attrList(s.Attrs).encode()})
}

func (s *Signer) recordFields() []lpField {
	f := []lpField{{b: s.SignedBytes}}
	if s.V3 {
		f = append(f, lpField{u32(uint32(s.Min)), true}, lpField{u32(uint32(s.Max)), true})
	}
	return append(f, lpField{b: algList(s.Sigs).encode()}, lpField{b: s.PubKey})
}

func fieldsBytes(fs []lpField) []byte {
	var b []byte
	for _, f := range fs {
		b = append(b, f.encode()...)
	}
	return b
}

// breakSigner damages the structure of a valid record (which stays in its place in the list).
func (t *T) breakSigner(s *Signer, sp *SignerSpec, max int32) string {
	best := sp.best()
	resign := func(signed []byte) {
		s.SignedBytes = signed
		for i := range s.Sigs {
			if a := algByID(s.Sigs[i].Alg); a != nil && s.Key.fits(a) {
				s.Sigs[i].Data = s.Key.SignAlg(a, signed)
			}
		}
	}
	replace := func(fs []lpField, i int, b []byte) []byte {
		fs[i].b = b
		return fieldsBytes(fs)
	}
	what := ""
	var b []byte
	last := len(s.signedFields()) - 1
	switch t.Uni("struct", 12) {
	case 0:
		s.Raw, what = t.breakFields(s.recordFields())
		what = "record: " + what
	case 1, 2, 3:
		b, what = t.breakFields(s.signedFields())
		resign(b)
		what = "signed data: " + what
	case 4:
		b, what = t.breakList(algList(s.Sigs), 8)
		s.Raw = replace(s.recordFields(), len(s.recordFields())-2, b)
		what = "signatures: " + what
	case 5:
		b, what = t.breakList(algList(s.Digests), 8)
		resign(replace(s.signedFields(), 0, b))
		what = "digests: " + what
	case 6, 7:
		b, what = t.breakList(s.Certs, 1)
		resign(replace(s.signedFields(), 1, b))
		what = "certificates: " + what
	case 8:
		l := attrList(s.Attrs)
		if t.Pct("attrs", 50) {
			l = append(l, cat(u32(0x1234abcd), t.Bytes("av", 0, 9)))
		}
		b, what = t.breakList(l, 4)
		resign(replace(s.signedFields(), last, b))
		what = "attributes: " + what
	case 9: // the bytes of the signature that counts
		l := algList(s.Sigs)
		e := l[best]
		l[best] = cat(e[:4], t.badPrefix(len(e)-8), e[8:])
		s.Raw = replace(s.recordFields(), len(s.recordFields())-2, l.encode())
		what = "the signature longer than its element"
	case 10:
		id := sp.Algs[best]
		l := algList(s.Digests)
		for i := range l {
			if s.Digests[i].Alg == id {
				l[i] = cat(l[i][:4], t.badPrefix(len(l[i])-8), l[i][8:])
			}
		}
		resign(replace(s.signedFields(), 0, l.encode()))
		what = "the digest longer than its element"
	default: // an attribute with a value that is too short
		a := Attr{ID: attrStrip, Val: t.Bytes("av", 0, 3)}
		if s.V3 {
			a.ID = attrMinSdk
			if t.Pct("por", 50) {
				a.ID, a.Val = attrPoR, bulk(t.Seed("pv"), pick(t, "pvl", []int{1, 2, 3, 5, 6, 7}))
			} else if max < 33 {
				return ""
			}
		} else if max < 28 {
			return ""
		}
		l := attrList(s.Attrs)
		i := t.Uni("ai", len(l)+1)
		l = append(l[:i:i], append(lpList{cat(u32(a.ID), a.Val)}, l[i:]...)...)
		resign(replace(s.signedFields(), last, l.encode()))
		what = fmt.Sprintf("attribute %#x with a value of %d bytes", a.ID, len(a.Val))
	}
	return what
}

// breakSignerList damages the list of records itself.
func (t *T) breakSignerList(ss []*Signer) ([]byte, string) {
	var l lpList
	for _, s := range ss {
		l = append(l, s.Encode())
	}
	if t.Pct("outer", 25) {
		b := l.encode()
		switch t.Uni("oop", 3) {
		case 0:
			return cat(t.badPrefix(len(b)), b), "list of records longer than the block"
		case 1:
			return lp(b)[:t.Uni("ocut", len(b)+3)], "block cut"
		default:
			return t.Bytes("ob", 0, 3), "block of a few bytes"
		}
	}
	b, what := t.breakList(l, 4)
	return lp(b), "records: " + what
}

// override replaces the value of the pair with the id.
func override(ps []Pair, id uint32, val []byte) []Pair {
	q := append([]Pair(nil), ps...)
	for i := range q {
		if q[i].ID == id {
			q[i].Val = val
		}
	}
	return q
}

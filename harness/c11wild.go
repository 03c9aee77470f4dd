package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"encoding/asn1"
)

// A reference reader of Play frosting blocks, and blocks put together freely.

type refFrost struct {
	bad, unsure string
	key         int
	info        []byte
}

// frostNumber reads a number: seven bits per byte, the least significant first, at most five bytes, a signed 32-bit value.
func (r *refFrost) frostNumber(b []byte) (v int32, rest []byte, ok bool) {
	var n uint32
	for i := 0; i < 5; i++ {
		if i >= len(b) {
			return 0, nil, false
		}
		if i == 4 && b[i] > 0x0f {
			if b[i] < 0x80 {
				r.unsure = "a number of more than 32 bits"
			}
			return 0, nil, false
		}
		n |= uint32(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			return int32(n), b[i+1:], true
		}
	}
	return 0, nil, false
}

// refFrostOf judges the block; hash is the digest of the APK it has to hold.
func refFrostOf(block, hash []byte, keys []*Key) *refFrost {
	r := &refFrost{key: -1}
	r.bad = r.judge(block, hash, keys)
	return r
}

func (r *refFrost) judge(block, hash []byte, keys []*Key) string {
	n, rest, ok := r.frostNumber(block)
	if !ok || n <= 0 || int(n) > len(rest) {
		return "size of the body"
	}
	body, after := rest[:n], rest[n:]
	n, rest, ok = r.frostNumber(body)
	if !ok || n <= 0 || int(n) > len(rest) {
		// what follows the body is no part of it
		return "size of the info"
	}
	info, rest := rest[:n], rest[n:]
	n, rest2, ok := r.frostNumber(rest)
	if !ok {
		if _, _, more := r.frostNumber(cat(rest, after)); more {
			r.unsure = "size of the metadata across the end of the body"
		}
		return "size of the metadata"
	}
	if n <= 0 {
		return "size of the metadata"
	}
	if int(n) > len(rest2) {
		r.unsure = "metadata across the end of the body"
		return "size of the metadata"
	}
	meta, tail := rest2[:n], rest2[n:]
	for i := 0; len(meta) > 0; i++ {
		n, e, ok := r.frostNumber(meta)
		if !ok || n < 0 || int(n) > len(e) {
			return "size of the entry"
		}
		next := e[n:]
		e = e[:n]
		dis, e, ok := r.frostNumber(e)
		if !ok {
			return "entry without the switch"
		}
		if dis != 0 {
			meta = next
			continue
		}
		k, e, ok := r.frostNumber(e)
		if !ok || k < 0 || int(k) >= len(keys) {
			return "key"
		}
		if len(e) != sha256.Size {
			return "length of the digest"
		}
		r.key = int(k)
		signed := body[:len(body)-len(tail)-len(next)]
		sig, why := r.frostItem(after, i)
		if why != "" {
			return why
		}
		if !r.frostSig(keys[k], signed, sig) {
			return "signature"
		}
		if !bytes.Equal(e, hash) {
			return "digest of the APK"
		}
		r.info = info
		return ""
	}
	return "no enabled entry"
}

// frostItem is the i-th item of the array.
func (r *refFrost) frostItem(b []byte, i int) ([]byte, string) {
	n, rest, ok := r.frostNumber(b)
	if !ok || n <= 0 || int(n) > len(rest) {
		return nil, "size of the signatures"
	}
	rest = rest[:n]
	for ; ; i-- {
		n, e, ok := r.frostNumber(rest)
		if !ok || n < 0 || int(n) > len(e) {
			return nil, "size of a signature"
		}
		if i == 0 {
			return e[:n], ""
		}
		rest = e[n:]
	}
}

func (r *refFrost) frostSig(k *Key, data, sig []byte) bool {
	pub := &k.EC.PublicKey
	sum := sha256.Sum256(data)
	if ecdsa.VerifyASN1(pub, sum[:], sig) {
		return true
	}
	var rs struct{ R, S *big.Int }
	if _, err := asn1.Unmarshal(sig, &rs); err == nil && rs.R.Sign() > 0 && rs.S.Sign() > 0 && ecdsa.Verify(pub, sum[:], rs.R, rs.S) {
		r.unsure = "encoding of the signature"
	}
	return false
}

func c11Wild(t *T) {
	b, v2 := t.genFrostAPK()
	w := &wild{t: t, odd: pick(t, "oddity", []int{0, 1, 2, 2, 4, 8})}
	hash := frostingHash(b.Sec, v2)
	var keys []*Key
	p := t.perm(len(frostKeyNames))
	for i := t.Range("nk", 1, 4); i > 0; i-- {
		keys = append(keys, keyByName[frostKeyNames[p[i]]])
	}
	num := func(v int) []byte {
		if w.rare("wrong number") {
			v += pick(t, "wn", []int{-1, 1, -2, 2, 5, 128, -v, -v - 1, 1 << 31, 1<<31 - 1 - v})
		}
		pad := 0
		if t.Pct("pad", 8) {
			pad = t.Range("padn", 2, 5)
		}
		return padVarint(uint32(v), pad)
	}
	info := t.Bytes("info", 1, 200)
	if w.rare("no info") {
		info = nil
	}
	// the entries; each enabled one is signed as if it were the one that counts
	type entry struct{ b []byte }
	var ents []entry
	var used []int
	for n := pick(t, "ne", []int{1, 1, 1, 2, 2, 3, 4, 6}); n > 0; n-- {
		dis, k := 0, t.Uni("ek", len(keys))
		if n > 1 && t.Pct("dis", 70) || w.rare("disabled") {
			dis = pick(t, "disv", []int{1, 1, 2, 128, 1 << 14, 1 << 21, 1 << 28, 1<<31 - 1, 1 << 31, 1 << 8})
		}
		h := hash
		switch {
		case w.rare("other digest"):
			h = t.Bytes("oh", 32, 32)
		case w.rare("digest with a bit flipped"):
			h = append([]byte(nil), h...)
			h[t.Uni("hb", 32)] ^= 1 << t.Uni("hbit", 8)
		case w.rare("digest without the v2 block"):
			h = frostingHash(b.Sec, nil)
		case w.rare("digest of another length"):
			h = cat(h, h)[:t.Uni("hl", 64)]
		}
		ki := k
		if w.rare("unknown key") {
			ki = pick(t, "uk", []int{len(keys), len(keys) + 1, 127, 128, 1 << 31, 1<<31 - 1})
		}
		e := cat(num(dis), num(ki), h)
		if w.rare("junk entry") {
			e = t.Bytes("je", 0, 60)
		}
		ents = append(ents, entry{cat(num(len(e)), e)})
		used = append(used, k)
	}
	var meta []byte
	for _, e := range ents {
		meta = append(meta, e.b...)
	}
	if w.rare("no entries") {
		meta = nil
	}
	if t.Pct("metatail", 4) {
		meta = cat(meta, t.Bytes("mt", 1, 5))
	}
	head := cat(num(len(info)), info, num(len(meta)))
	if w.rare("damaged head") {
		head = t.mutBytes(head, 1)
	}
	var sigs []byte
	end := 0
	for i, e := range ents {
		if end += len(e.b); end > len(meta) {
			break
		}
		k := keys[used[i]]
		if w.rare("signature by another key") {
			k = keyByName[pick(t, "sk", frostKeyNames)]
		}
		data := cat(head, meta[:end])
		switch {
		case w.rare("signature over all entries"):
			data = cat(head, meta)
		case w.rare("signature over the first entry"):
			data = cat(head, ents[0].b)
		case w.rare("signature over other data"):
			data = cat(data, []byte{0})
		}
		var s []byte
		if t.Pct("realsig", 90) {
			s = k.SignHash(crypto.SHA256, data)
		} else {
			s = t.Bytes("junksig", 0, 72)
		}
		if w.rare("signature of another hash") {
			s = k.SignHash(crypto.SHA384, data)
		}
		if w.rare("damaged signature") {
			s = t.mutBytes(s, 1)
		}
		if w.rare("signature left out") {
			continue
		}
		if w.rare("signature inserted") {
			x := t.Bytes("is", 0, 40)
			sigs = append(sigs, cat(num(len(x)), x)...)
		}
		sigs = append(sigs, cat(num(len(s)), s)...)
	}
	for t.Pct("moresigs", 10) {
		x := t.Bytes("ms", 0, 20)
		sigs = append(sigs, cat(num(len(x)), x)...)
	}
	body := cat(head, meta)
	if t.Pct("bodytail", 10) {
		body = cat(body, t.Bytes("bt", 1, 9))
	}
	block := cat(num(len(body)), body, num(len(sigs)), sigs)
	if t.Pct("tail", 10) {
		block = cat(block, t.Bytes("tail", 1, 9))
	}
	if w.rare("damaged block") {
		block = t.mutBytes(block, 1)
	}
	want := refFrostOf(block, hash, keys)
	setFrostKeys(keys)
	defer setFrostKeys(nil)
	apk := b.withPair(Pair{idFrosting, block}, t.Uni("at", 4))
	min, max := t.frostRange(b)
	d := fmt.Sprintf("%d entries, %d keys, v2 %v, <%d;%d>; %s", len(ents), len(keys), v2 != nil, min, max, strings.Join(w.desc, ", "))
	t.Note("%s", d)
	t.Sample("%s: %q", d, want.bad)
	t.NonTrivial(apk, min, max)
	t.Attach("apk", apk)
	r, v := frostResult(apk, min, max)
	switch {
	case r == nil:
		t.Violate("%s: no frosting reported", d)
	case want.unsure != "":
		t.Class("wild: not judged, %s", want.unsure)
	case want.bad != "":
		t.Class("wild: %s", want.bad)
		if r.Error == nil {
			t.Violate("%s: %s: %s", d, want.bad, frostState(r))
		}
	default:
		t.Class("wild: valid")
		if r.Error != nil {
			t.Violate("%s: valid: %s", d, frostState(r))
		}
		if sum := sha256.Sum256(keys[want.key].SPKI); r.KeySha256 != hex.EncodeToString(sum[:]) {
			t.Violate("%s: key %s reported", d, r.KeySha256)
		}
		if !bytes.Equal(r.ProtobufInfo, want.info) {
			t.Violate("%s: other info reported", d)
		}
	}
	if s, c := b.expect(min, max); s != 0 && (v.Err != nil || v.Scheme != s || !chainsEqual(v.Certs, c)) {
		t.Violate("%s: verdict %v, scheme %d", d, v.Err, v.Scheme)
	}
}

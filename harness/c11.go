package main

import (
	"bytes"
	"crypto"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/avast/apkverifier/signingblock"
)

// frostEntry is one metadata entry of a frosting block.
type frostEntry struct {
	disabled uint32
	key      uint32
	hash     []byte
	raw      []byte // instead of all of it
	pad      int    // length of its numbers at least
}

func (e *frostEntry) encode() []byte {
	b := e.raw
	if b == nil {
		b = cat(e.varint(e.disabled), e.varint(e.key), e.hash)
	}
	return cat(e.varint(uint32(len(b))), b)
}

// varint writes a number in at least pad bytes.
func (e *frostEntry) varint(v uint32) []byte { return padVarint(v, e.pad) }

func padVarint(v uint32, n int) []byte {
	b := varint(v)
	for len(b) < n {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

// frosting is a frosting block before and after signing.
type frosting struct {
	proto   []byte
	entries []*frostEntry
	used    int // index of the entry that counts
	sigs    [][]byte
	pad     int // length of numbers at least
}

func (f *frosting) varint(v int) []byte { return padVarint(uint32(v), f.pad) }

func (f *frosting) meta() []byte {
	var m []byte
	for _, e := range f.entries {
		m = append(m, e.encode()...)
	}
	return m
}

// signed is the part of the block the signature covers.
func (f *frosting) signed() []byte {
	m := f.meta()
	b := cat(f.varint(len(f.proto)), f.proto, f.varint(len(m)))
	for i := 0; i <= f.used; i++ {
		b = append(b, f.entries[i].encode()...)
	}
	return b
}

func (f *frosting) sign(k *Key) { f.sigs[f.used] = k.SignHash(crypto.SHA256, f.signed()) }

func (f *frosting) encode() []byte {
	m := f.meta()
	body := cat(f.varint(len(f.proto)), f.proto, f.varint(len(m)), m)
	var s []byte
	for _, x := range f.sigs {
		s = append(s, cat(f.varint(len(x)), x)...)
	}
	return cat(f.varint(len(body)), body, f.varint(len(s)), s)
}

var frostKeyNames = []string{"ec256-a", "ec256-b", "ec256-c", "ec256-d", "ec384-a", "ec521-a", "ec224-a"}

// genFrosting draws a valid frosting block for the hash. keys is the list of known keys.
func (t *T) genFrosting(hash []byte) (f *frosting, keys []*Key, key int) {
	p := t.perm(len(frostKeyNames))
	for i := t.Range("fk.n", 1, 4); i > 0; i-- {
		keys = append(keys, keyByName[frostKeyNames[p[i]]])
	}
	key = t.Uni("fk.i", len(keys))
	f = &frosting{proto: t.Bytes("proto", 1, 300)}
	if t.Pct("bigproto", 12) { // sizes of three bytes, and four if written long
		f.proto = bulk(t.Seed("protos"), pick(t, "protolen", []int{1<<14 - 1, 1 << 14, 1<<14 + 70, 40000, 1 << 16, 70001}))
	}
	if t.Uni("hugeproto", 300) == 0 { // sizes of four bytes
		f.proto = bulk(t.Seed("protos"), pick(t, "protolen", []int{1<<21 - 1, 1 << 21, 1<<21 + 77, 5 << 19, 4 << 20, 4<<20 + 1}))
	}
	if t.Pct("longnum", 25) {
		f.pad = t.Range("pad", 2, 5)
	}
	for i := t.Pct("dis", 40); i; i = t.Pct("dis2", 40) {
		e := &frostEntry{disabled: uint32(pick(t, "disv", []int{1, 2, 127, 128, 300000, 0x7fffffff})), key: uint32(t.Uni("dk", 9)), hash: t.Bytes("dh", 32, 32)}
		if t.Pct("dodd", 30) {
			e.raw = cat(varint(e.disabled), t.Bytes("draw", 0, 50))
		}
		f.entries = append(f.entries, e)
		f.sigs = append(f.sigs, t.Bytes("dsig", 0, 40))
	}
	f.used = len(f.entries)
	f.entries = append(f.entries, &frostEntry{key: uint32(key), hash: hash})
	if f.pad > 0 {
		f.entries[t.Uni("epad", len(f.entries))].pad = t.Range("pad2", 2, 5)
	}
	f.sigs = append(f.sigs, nil)
	for i := t.Pct("later", 30); i; i = t.Pct("later2", 30) { // not looked at
		f.entries = append(f.entries, &frostEntry{disabled: uint32(t.Uni("ld", 2)), key: uint32(t.Uni("lk", 300)), hash: t.Bytes("lh", 0, 40)})
		f.sigs = append(f.sigs, t.Bytes("lsig", 0, 40))
	}
	f.sign(keys[key])
	return
}

func setFrostKeys(keys []*Key) {
	var s []string
	for _, k := range keys {
		s = append(s, base64.StdEncoding.EncodeToString(k.SPKI))
	}
	signingblock.FrostingKeysOverride = strings.Join(s, ",")
}

// genFrostAPK draws a block-signed APK and the pair that frosting covers.
func (t *T) genFrostAPK() (*BlockAPK, []byte) {
	b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 3, maxSize: 20000, maxComment: 40})}
	t.genSchemes(b, 60, pick(t, "combo", []string{"2", "2", "23", "23", "3", "23r", ""}))
	b.Make()
	var v2 []byte
	if len(b.RecV2) > 0 {
		v2 = encodeSigners(b.RecV2)
	}
	return b, v2
}

func (b *BlockAPK) withPair(p Pair, at int) []byte {
	ps := b.Pairs()
	at %= len(ps) + 1
	return b.Sec.Assemble(encodeBlock(append(ps[:at:at], append([]Pair{p}, ps[at:]...)...)))
}

// frostResult runs verification; found tells whether anything was reported about the signing block.
func frostResult(apk []byte, min, max int32) (*signingblock.FrostingResult, Verdict) {
	v := verify(apk, min, max)
	if v.Res.SigningBlockResult == nil {
		return nil, v
	}
	return v.Res.SigningBlockResult.Frosting, v
}

func frostState(r *signingblock.FrostingResult) string {
	if r == nil {
		return "no frosting reported"
	}
	return fmt.Sprintf("frosting reported, error %v, key %s", r.Error, r.KeySha256)
}

func (t *T) frostRange(b *BlockAPK) (int32, int32) {
	min := int32(24)
	if len(b.V2) == 0 {
		min = 28
	}
	max := int32(anyMax)
	if t.Pct("maxlow", 40) {
		max = int32(pick(t, "fmax", []int{21, 23, 24, 27, 28, 32, 33, 34}))
	}
	if min > max {
		min = max
	}
	return min, max
}

func c11Valid(t *T) {
	b, v2 := t.genFrostAPK()
	f, keys, k := t.genFrosting(frostingHash(b.Sec, v2))
	setFrostKeys(keys)
	defer setFrostKeys(nil)
	apk := b.withPair(Pair{idFrosting, f.encode()}, t.Uni("at", 4))
	min, max := t.frostRange(b)
	d := fmt.Sprintf("valid frosting: %d entries, used %d, key %d of %d (%s), %d bytes of info, v2 %v, <%d;%d>", len(f.entries), f.used, k, len(keys), keys[k].Name, len(f.proto), v2 != nil, min, max)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.Class("valid, v2 present %v", v2 != nil)
	t.NonTrivial(apk, min, max)
	t.Attach("apk", apk)
	r, v := frostResult(apk, min, max)
	if r == nil || r.Error != nil {
		t.Violate("%s: %s", d, frostState(r))
	}
	if sum := sha256.Sum256(keys[k].SPKI); r.KeySha256 != hex.EncodeToString(sum[:]) {
		t.Violate("%s: key %s reported", d, r.KeySha256)
	}
	if !bytes.Equal(r.ProtobufInfo, f.proto) {
		t.Violate("%s: other info reported", d)
	}
	if s, c := b.expect(min, max); s != 0 && (v.Err != nil || v.Scheme != s || !chainsEqual(v.Certs, c)) {
		t.Violate("%s: verdict %v, scheme %d", d, v.Err, v.Scheme)
	}
	// the same block with the keys that ship with the library: signed by an unknown key
	setFrostKeys(nil)
	if r, _ = frostResult(apk, min, max); r == nil || r.Error == nil {
		t.Violate("%s: signed by a key that does not ship with the library: %s", d, frostState(r))
	}
}

// badVarint draws a size that does not fit where rest bytes follow.
func (t *T) badVarint(rest int) []byte {
	switch t.Uni("bv", 5) {
	case 0:
		return varint(0x7fffffff)
	case 1: // negative when read as a 32-bit number
		return varint(0x80000000 | uint32(t.bits(31, "bvn")))
	case 2:
		return varint(uint32(rest + 1))
	case 3:
		return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0x0f}
	default:
		return varint(uint32(rest + t.Range("bvo", 1, 200)))
	}
}

// breakFrosting writes the block with a size that does not fit; what is signed is signed again.
func (t *T) breakFrosting(f *frosting, key *Key) ([]byte, string) {
	what := ""
	meta := f.meta()
	metaLen := varint(uint32(len(meta)))
	protoLen := varint(uint32(len(f.proto)))
	used := f.entries[f.used].encode()
	before := []byte(nil)
	for _, e := range f.entries[:f.used] {
		before = append(before, e.encode()...)
	}
	after := meta[len(before)+len(used):]
	var sigs func() []byte
	list := func() []byte {
		var s []byte
		for _, x := range f.sigs {
			s = append(s, cat(varint(uint32(len(x))), x)...)
		}
		return s
	}
	sigs = func() []byte { s := list(); return cat(varint(uint32(len(s))), s) }
	bodyLen := func(b []byte) []byte { return varint(uint32(len(b))) }
	switch t.Uni("fs", 7) {
	case 0:
		what = "size of the body"
		bodyLen = func(b []byte) []byte { return t.badVarint(len(b) + len(sigs())) }
	case 1:
		what = "size of the info"
		protoLen = t.badVarint(len(f.proto) + 5 + len(meta) + len(sigs()))
	case 2:
		what = "size of the metadata"
		metaLen = t.badVarint(len(f.proto) + 10 + len(meta))
	case 3:
		what = "size of the metadata shorter than the entry"
		metaLen = varint(uint32(t.Uni("ms", len(before)+len(used))))
	case 4:
		what = "size of the entry"
		used = cat(t.badVarint(len(used)+len(after)), used[1:])
	case 5:
		what = "size of the signatures"
		sigs = func() []byte { s := list(); return cat(t.badVarint(len(s)), s) }
	default:
		what = "size of a signature"
		at := t.Uni("sa", f.used+1)
		sigs = func() []byte {
			var s []byte
			total := len(list())
			for i, x := range f.sigs {
				n := varint(uint32(len(x)))
				if i == at {
					n = t.badVarint(total)
				}
				s = append(s, cat(n, x)...)
			}
			return cat(varint(uint32(len(s))), s)
		}
	}
	signed := cat(protoLen, f.proto, metaLen, before, used)
	f.sigs[f.used] = key.SignHash(crypto.SHA256, signed)
	body := cat(signed, after)
	return cat(bodyLen(body), body, sigs()), what
}

func c11Tamper(t *T) {
	b, v2 := t.genFrostAPK()
	hash := frostingHash(b.Sec, v2)
	f, keys, k := t.genFrosting(hash)
	key := keys[k]
	other := func() *Key {
		for {
			if o := keyByName[pick(t, "ok", frostKeyNames)]; o != key && o.EC.Curve == key.EC.Curve || t.Pct("any", 20) && o != key {
				return o
			}
		}
	}
	flip := func(x []byte) []byte {
		x = append([]byte(nil), x...)
		x[t.Uni("fb", len(x))] ^= 1 << t.Uni("fbit", 8)
		return x
	}
	what := ""
	mutate := func(apk []byte) []byte { return apk }
	var enc []byte
	switch t.Uni("op", 21) {
	case 0:
		what = "signature bit flipped"
		if t.Pct("oddsig", 50) {
			f.sigs[f.used], what = t.oddSignature(key, crypto.SHA256, false, f.signed())
			break
		}
		f.sigs[f.used] = flip(f.sigs[f.used])
	case 1:
		what = "signed by another key"
		o := keyByName["ec256-e"]
		if key.EC.Curve != o.EC.Curve && t.Pct("same", 50) {
			o = other()
		}
		f.sign(o)
	case 2:
		if len(keys) < 2 {
			return
		}
		what = "index of another key, re-signed by the first one"
		f.entries[f.used].key = uint32((k + 1 + t.Uni("ki", len(keys)-1)) % len(keys))
		f.sign(key)
	case 3:
		what = "key index out of range, re-signed"
		f.entries[f.used].key = uint32(pick(t, "kx", []int{len(keys), len(keys) + 1, 127, 128, 0x7fffffff, 0xffffffff, 0x80000000, 0xfffffffe}))
		f.sign(key)
	case 4:
		what = "info changed"
		f.proto = flip(f.proto)
	case 5:
		what = "digest changed"
		f.entries[f.used].hash = flip(f.entries[f.used].hash)
	case 6:
		what = "digest of other contents, re-signed"
		switch t.Uni("hd", 6) {
		case 0: // without v2, or with something else as v2
			if v2 != nil {
				hash = frostingHash(b.Sec, nil)
			} else {
				hash = frostingHash(b.Sec, []byte{1})
			}
		case 1: // with the real central directory offset
			x := crypto.SHA256.New()
			x.Write(b.Sec.Contents)
			if v2 != nil {
				x.Write(u32(idV2))
				x.Write(v2)
			}
			x.Write(b.Sec.CD)
			x.Write(b.Sec.EOCD(len(b.Sec.Contents) + 4096))
			hash = x.Sum(nil)
		case 2:
			hash = flip(hash)
		case 3: // without the id
			if v2 == nil {
				return
			}
			x := crypto.SHA256.New()
			x.Write(cat(b.Sec.Contents, v2, b.Sec.CD, b.Sec.EOCD(len(b.Sec.Contents))))
			hash = x.Sum(nil)
		case 4:
			hash = sha256Sum(b.Sec.Contents)
		default:
			hash = make([]byte, 32)
		}
		f.entries[f.used].hash = hash
		f.sign(key)
	case 7:
		what = "digest of another length, re-signed"
		f.entries[f.used].hash = pick(t, "hl", [][]byte{hash[:31], append(append([]byte(nil), hash...), 0), {}, hash[1:]})
		f.sign(key)
	case 8:
		what = "all entries disabled"
		f.entries = f.entries[:f.used+1]
		f.sigs = f.sigs[:f.used+1]
		f.entries[f.used].disabled = uint32(t.Range("dv", 1, 3))
		if t.Pct("resign", 60) {
			f.sign(key)
		}
	case 9:
		what = "block truncated"
		e := f.encode()
		enc = e[:t.Uni("cut", len(e))]
	case 10:
		what = "signature missing"
		f.sigs = f.sigs[:f.used]
	case 11:
		what = "signatures shifted"
		if len(f.sigs) < 2 {
			f.sigs = append([][]byte{{}}, f.sigs...)
		} else {
			i := (f.used + 1) % len(f.sigs)
			if bytes.Equal(f.sigs[i], f.sigs[f.used]) {
				return
			}
			f.sigs[i], f.sigs[f.used] = f.sigs[f.used], f.sigs[i]
		}
	case 12:
		if f.used == 0 {
			return
		}
		what = "entry before the used one changed"
		e := f.entries[t.Uni("eb", f.used)]
		e.disabled++
		if len(e.raw) > 0 {
			e.raw = append(e.raw, 7)
		}
	case 13:
		what = "APK contents changed"
		at := t.Uni("ca", len(b.Sec.Contents))
		mutate = func(apk []byte) []byte {
			apk = append([]byte(nil), apk...)
			apk[at] ^= 1 << t.Uni("cb", 8)
			return apk
		}
	case 14:
		what = "central directory or end record changed"
		n := len(b.Sec.CD) + len(b.Sec.EOCD(0))
		at := t.Uni("ca", n)
		mutate = func(apk []byte) []byte {
			apk = append([]byte(nil), apk...)
			apk[len(apk)-n+at] ^= 1 << t.Uni("cb", 8)
			return apk
		}
	case 15:
		what = "APK signed again with v2 by someone else"
		if len(b.V2) == 0 {
			b.V2 = []*SignerSpec{t.genSigner(false, false)}
		} else {
			k := t.otherKey(b.V2[0].Key)
			b.V2[0] = &SignerSpec{Key: k, Algs: t.genAlgs(k, false), Chain: [][]byte{selfCert(k, 70)}}
		}
		b.Make()
	case 16:
		what = "frosting of another APK"
		z := b.Zip.clone()
		e := z.Entries[t.Uni("ze", len(z.Entries))]
		e.Data = append(append([]byte(nil), e.Data...), 5)
		b = &BlockAPK{Zip: z, V2: b.V2, V3: b.V3, V31: b.V31}
		b.Make()
	case 18, 19, 20:
		enc, what = t.breakFrosting(f, key)
	case 17:
		what = "wrong sizes"
		body := f.encode()
		switch t.Uni("ws", 4) {
		case 0: // outer size
			o := cat(varint(uint32(len(body))), body)
			enc = cat(varint(uint32(pick(t, "osz", []int{0, 1, len(body) + 1, 0x7fffffff, 0xffffffff}))), o)
		case 1:
			enc = cat([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0x0f}, body)
		case 2:
			enc = flip(body[:1])
			enc = append(enc, body[1:]...)
		default:
			enc = body[1:]
		}
	}
	if enc == nil {
		enc = f.encode()
	}
	setFrostKeys(keys)
	defer setFrostKeys(nil)
	apk := mutate(b.withPair(Pair{idFrosting, enc}, t.Uni("at", 4)))
	min, max := t.frostRange(b)
	d := fmt.Sprintf("%s: %d entries, used %d, %d keys, v2 %v, <%d;%d>", what, len(f.entries), f.used, len(keys), v2 != nil, min, max)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	t.Attach("apk", apk)
	r, _ := frostResult(apk, min, max)
	if r == nil {
		if strings.HasPrefix(what, "central") || strings.HasPrefix(what, "APK contents") {
			t.Class("%s: signing block not found any more", what)
			return
		}
		t.Violate("%s: %s", d, frostState(r))
	}
	t.Class("%s", what)
	if r.Error == nil {
		t.Violate("%s: %s", d, frostState(r))
	}
}

func c11Neutral(t *T) {
	_, apk, b := t.genPolicyAPK()
	var v2 []byte
	if len(b.RecV2) > 0 {
		v2 = encodeSigners(b.RecV2)
	}
	f, keys, _ := t.genFrosting(frostingHash(b.Sec, v2))
	setFrostKeys(keys)
	defer setFrostKeys(nil)
	val, how := f.encode(), "valid block"
	if t.Pct("hostile", 65) {
		val, how = t.hostile(val)
	}
	d := "frosting block: " + how
	t.Class("%s", d)
	t.Sample("%s, %d bytes", d, len(val))
	t.neutral(d, b, apk, Pair{idFrosting, val}, t.Range("ranges", 1, 3))
}

func init() {
	register("C11", "a case is an APK with a frosting block made with keys that the guarded build lets the harness install: valid and reported whole (sub valid), altered in one way so that it must carry an error (sub tamper), a block put together freely and judged by a reference reader (sub wild), or an arbitrary APK judged with and without a valid or hostile frosting block (sub neutral); all cases are non-trivial, distinct by bytes and range",
		Sub{"valid", 4000, 80000, c11Valid},
		Sub{"tamper", 8000, 150000, c11Tamper},
		Sub{"every", 48, 1600, c11Every},
		Sub{"neutral", 4000, 80000, c11Neutral},
		Sub{"wild", 8000, 200000, c11Wild},
	)
}

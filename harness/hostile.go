package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"strings"

	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/signingblock"
)

// ---- mutators for hostile input ----

var hostileU32 = []uint32{0, 1, 3, 4, 7, 8, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffff7, 0xfffffffb, 0xfffffffc, 0xffffffff}
var hostileU64 = []uint64{0, 1, 3, 4, 23, 24, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffff8, 0xffffffffffffffff}

// mutBytes applies 1..n byte-level changes.
func (t *T) mutBytes(b []byte, n int) []byte {
	b = append([]byte(nil), b...)
	for k := t.Range("mb.n", 1, n); k > 0; k-- {
		switch t.Uni("mb", 11) {
		case 0, 1:
			if len(b) > 0 {
				b[t.Uni("mb.at", len(b))] ^= 1 << t.Uni("mb.bit", 8)
			}
		case 2:
			if len(b) > 0 {
				b[t.Uni("mb.at", len(b))] = pick(t, "mb.v", []byte{0, 1, 0x7f, 0x80, 0xff, '\n', '\r', ' ', ':', 0x30, 0x31, 0x02})
			}
		case 3, 4:
			if len(b) >= 4 {
				v := pick(t, "mb.u32", hostileU32)
				if t.Pct("mb.len", 30) {
					v = uint32(len(b) - t.Uni("mb.off", 40))
				}
				binary.LittleEndian.PutUint32(b[t.Uni("mb.at", len(b)-3):], v)
			}
		case 5:
			if len(b) >= 8 {
				binary.LittleEndian.PutUint64(b[t.Uni("mb.at", len(b)-7):], pick(t, "mb.u64", hostileU64))
			}
		case 6:
			if len(b) >= 2 {
				binary.LittleEndian.PutUint16(b[t.Uni("mb.at", len(b)-1):], uint16(pick(t, "mb.u16", hostileU32)))
			}
		case 7:
			b = b[:t.Uni("mb.cut", len(b)+1)]
		case 8: // remove a range
			if len(b) > 1 {
				i := t.Uni("mb.i", len(b))
				j := i + 1 + t.Uni("mb.j", min(len(b)-i, 64))
				if j > len(b) {
					j = len(b)
				}
				b = append(b[:i:i], b[j:]...)
			}
		case 9: // insert
			i := t.Uni("mb.i", len(b)+1)
			b = append(b[:i:i], append(t.Bytes("mb.ins", 1, 12), b[i:]...)...)
		case 10: // repeat a range
			if len(b) > 1 && len(b) < 1<<20 {
				i := t.Uni("mb.i", len(b))
				j := i + 1 + t.Uni("mb.j", min(len(b)-i, 200))
				if j > len(b) {
					j = len(b)
				}
				r := bytes.Repeat(b[i:j], pick(t, "mb.rep", []int{1, 1, 2, 10, 300}))
				b = append(b[:j:j], append(r, b[j:]...)...)
			}
		}
	}
	return b
}

var hostileTags = []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0a, 0x0c, 0x10, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1e, 0x1f, 0x24, 0x30, 0x31, 0x3f, 0x80, 0x81, 0xa0, 0xa1, 0xa3, 0xbf, 0xff}

func (n *node) clone() *node {
	c := *n
	c.kids = nil
	for _, k := range n.kids {
		c.kids = append(c.kids, k.clone())
	}
	return &c
}

// hostileContent is content for a primitive element.
func (t *T) hostileContent(old []byte) []byte {
	switch t.Uni("hc", 9) {
	case 0:
		return nil
	case 1:
		return []byte{0}
	case 2:
		return []byte{0xff}
	case 3:
		return bytes.Repeat([]byte{pick(t, "hc.b", []byte{0, 0xff, 0x80, 0x7f, 1})}, t.Range("hc.n", 1, 40))
	case 4:
		return cat([]byte{0, 0, 0}, old)
	case 5:
		return cat([]byte{0x80}, old)
	case 6:
		return bytes.Repeat([]byte{0x81}, t.Range("hc.n", 1, 20))
	case 7:
		return t.Bytes("hc.r", 0, 70)
	}
	return t.mutBytes(old, 2)
}

// mutDER changes the element tree of a DER message; the result is well-framed most of the time.
func (t *T) mutDER(b []byte, n int) []byte {
	root, rest, ok := parseNode(b)
	if !ok {
		return t.mutBytes(b, n)
	}
	root = root.clone()
	for k := t.Range("md.n", 1, n); k > 0; k-- {
		var all, parents []*node
		root.walk(func(x *node) {
			all = append(all, x)
			if len(x.kids) > 0 {
				parents = append(parents, x)
			}
		})
		x := all[t.Uni("md.at", len(all))]
		switch t.Uni("md", 10) {
		case 0:
			x.id = []byte{pick(t, "md.tag", hostileTags)}
			if x.id[0]&0x1f == 0x1f && t.Pct("md.high", 60) {
				x.id = append(x.id, pick(t, "md.hi", [][]byte{{0x1f}, {0x80, 0x01}, {0xff, 0xff, 0xff, 0xff, 0x7f}, {0x81}})...)
			}
		case 1, 2:
			if !x.constr {
				x.content = t.hostileContent(x.content)
			} else if len(x.kids) > 0 {
				x.kids = x.kids[:t.Uni("md.keep", len(x.kids))]
			}
		case 3: // drop a child
			if len(parents) > 0 {
				p := parents[t.Uni("md.p", len(parents))]
				i := t.Uni("md.i", len(p.kids))
				p.kids = append(p.kids[:i:i], p.kids[i+1:]...)
			}
		case 4: // repeat a child
			if len(parents) > 0 && len(all) < 3000 {
				p := parents[t.Uni("md.p", len(parents))]
				i := t.Uni("md.i", len(p.kids))
				var r []*node
				for q := pick(t, "md.rep", []int{1, 1, 2, 20}); q > 0; q-- {
					r = append(r, p.kids[i].clone())
				}
				p.kids = append(p.kids[:i:i], append(r, p.kids[i:]...)...)
			}
		case 5: // swap two children
			if len(parents) > 0 {
				p := parents[t.Uni("md.p", len(parents))]
				i, j := t.Uni("md.i", len(p.kids)), t.Uni("md.j", len(p.kids))
				p.kids[i], p.kids[j] = p.kids[j], p.kids[i]
			}
		case 6: // put a copy of another element here
			if len(all) < 3000 {
				y := all[t.Uni("md.y", len(all))].clone()
				*x = *y
			}
		case 7: // nest
			y := *x
			z := &y
			for q := pick(t, "md.depth", []int{1, 1, 2, 30, 200}); q > 0; q-- {
				z = &node{id: []byte{pick(t, "md.ntag", []byte{0x30, 0x31, 0x24, 0xa0})}, constr: true, kids: []*node{z}}
			}
			*x = *z
		case 8: // constructed <-> primitive
			if x.constr {
				x.content, x.kids, x.constr = x.encode(nil)[1:], nil, false
				x.id = []byte{x.id[0] &^ 0x20}
			} else {
				x.id = append([]byte{x.id[0] | 0x20}, x.id[1:]...)
			}
		case 9:
			if !x.constr {
				x.content = bulk(t.Seed("md.big"), pick(t, "md.bign", []int{100, 1000, 20000}))
			}
		}
	}
	var out []byte
	if t.Pct("md.ber", 25) {
		p := &prng{t.Seed("md.berseed")}
		out = root.encode(func(n *node, l int) (bool, int) {
			switch p.n(6) {
			case 0:
				return n.constr, 0
			case 1:
				return false, 1 + p.n(8)
			}
			return false, 0
		})
	} else {
		out = root.encode(nil)
	}
	out = cat(out, rest)
	if t.Pct("md.bytes", 15) {
		out = t.mutBytes(out, 2)
	}
	return out
}

var textPieces = []string{":", ": ", "\n", "\r", "\r\n", "\n\n", "\r\n\r\n", " ", "\n ", "\x00", "Name: ", "Name:", "name: a", "Name: \r\n", "SHA1-Digest: ", "SHA-256-Digest: !!!!",
	"Digest-Algorithms: SHA1 SHA-256 MD5", "-Digest: ", "Signature-Version: 1.0", "Signature-Version: ", "X-Android-APK-Signed: 2, 3", "X-Android-APK-Signed: ,,9999999999999999999,-1", "Created-By: signtool", "Manifest-Version: 1.0\n", "Name: AndroidManifest.xml\n", "Name: META-INF/\n", "Name: ../../x\n", "\xff\xfe", "=", "A", "\t", "Magic: x"}

// mutText changes a manifest-like file.
func (t *T) mutText(b []byte, n int) []byte {
	b = append([]byte(nil), b...)
	for k := t.Range("mt.n", 1, n); k > 0; k-- {
		switch t.Uni("mt", 6) {
		case 0, 1:
			i := t.Uni("mt.i", len(b)+1)
			b = append(b[:i:i], append([]byte(pick(t, "mt.p", textPieces)), b[i:]...)...)
		case 2: // drop or repeat a line
			l := strings.SplitAfter(string(b), "\n")
			i := t.Uni("mt.l", len(l))
			if t.Pct("mt.rep", 50) {
				l = append(l[:i:i], append([]string{l[t.Uni("mt.m", len(l))]}, l[i:]...)...)
			} else {
				l = append(l[:i:i], l[i+1:]...)
			}
			b = []byte(strings.Join(l, ""))
		case 3: // swap lines
			l := strings.SplitAfter(string(b), "\n")
			i, j := t.Uni("mt.l", len(l)), t.Uni("mt.m", len(l))
			l[i], l[j] = l[j], l[i]
			b = []byte(strings.Join(l, ""))
		case 4:
			b = t.mutBytes(b, 1)
		case 5:
			if len(b) > 0 {
				b = b[:t.Uni("mt.cut", len(b))]
			}
		}
	}
	return b
}

// ---- public keys nobody should have ----

func (t *T) hostileInt() []byte {
	p256 := keyByName["ec256-a"].EC.Curve.Params().P
	switch t.Uni("hi", 12) {
	case 0:
		return dint(0)
	case 1:
		return dint(1)
	case 2:
		return dint(2)
	case 3:
		return dint(-1)
	case 4:
		return dintRaw(nil)
	case 5:
		return dbig(keyByName["rsa1024-a"].RSA.N)
	case 6:
		return dbig(new(big.Int).Lsh(big.NewInt(1), uint(t.Range("hi.sh", 1, 5000))))
	case 7:
		return dbig(p256)
	case 8:
		return dintRaw(bulk(t.Seed("hi.s"), pick(t, "hi.n", []int{1, 8, 20, 32, 128, 129, 257, 2000, 8000, 60000})))
	case 9:
		return dbig(keyByName["dsa1024q160-a"].DSA.P)
	case 10:
		return dbig(keyByName["dsa1024q160-a"].DSA.Q)
	}
	return dintRaw(cat(make([]byte, t.Range("hi.z", 1, 4)), t.Bytes("hi.r", 0, 200)))
}

var hostileExps = []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(3), big.NewInt(-3), big.NewInt(65537), big.NewInt(1<<31 - 1), big.NewInt(1 << 31), new(big.Int).Lsh(big.NewInt(1), 62), new(big.Int).Lsh(big.NewInt(1), 64)}

// hostileSPKI is a SubjectPublicKeyInfo with odd numbers; kind: rsa, dsa, ec.
func (t *T) hostileSPKI() (spki []byte, kind string) {
	kind = pick(t, "hk", []string{"rsa", "rsa", "dsa", "dsa", "ec", "other"})
	switch kind {
	case "rsa":
		if t.Pct("hk.giant", 25) { // one that takes a long time to use
			n := bulk(t.Seed("hk.s"), pick(t, "hk.size", []int{3000, 20000, 100000, 400000}))
			n[0], n[len(n)-1] = 0x7f, 0x81
			t.sigLen = len(n)
			return dseq(algID("1.2.840.113549.1.1.1", dnull()), dbits(dseq(dintRaw(n), dint(1<<31-1)))), kind
		}
		n := t.hostileInt()
		if t.Pct("hk.good", 30) {
			n = dbig(keyByName["rsa2048-a"].RSA.N)
		}
		e := dbig(pick(t, "hk.e", hostileExps))
		return dseq(algID("1.2.840.113549.1.1.1", dnull()), dbits(dseq(n, e))), kind
	case "dsa":
		k := keyByName["dsa1024q160-a"].DSA
		v := [][]byte{dbig(k.P), dbig(k.Q), dbig(k.G), dbig(k.Y)}
		if t.Pct("hk.giant", 25) {
			g := func(n int) []byte {
				b := bulk(t.Seed("hk.s"), n)
				b[0], b[n-1] = 0x7f, b[n-1]|1
				return dintRaw(b)
			}
			n := pick(t, "hk.size", []int{1500, 20000, 100000})
			v[0], v[2], v[3] = g(n), g(n), g(n)
			if t.Pct("hk.q", 50) {
				v[1] = g(pick(t, "hk.qsize", []int{20, 64, 1000, 20000}))
			}
			return dseq(algID("1.2.840.10040.4.1", dseq(v[0], v[1], v[2])), dbits(v[3])), kind
		}
		for i := range v {
			if t.Pct("hk.odd", 40) {
				v[i] = t.hostileInt()
			}
		}
		return dseq(algID("1.2.840.10040.4.1", dseq(v[0], v[1], v[2])), dbits(v[3])), kind
	case "ec":
		curve := pick(t, "hk.c", []string{"1.2.840.10045.3.1.7", "1.3.132.0.34", "1.3.132.0.35", "1.3.132.0.33", "1.3.132.0.10"})
		pt := pick(t, "hk.pt", [][]byte{{}, {0}, {4}, make([]byte, 65), cat([]byte{4}, make([]byte, 64)), cat([]byte{4}, bytes.Repeat([]byte{0xff}, 64)), cat([]byte{2}, make([]byte, 32)), cat([]byte{4}, bulk(3, 132))})
		if t.Pct("hk.real", 30) {
			pt = cat([]byte{4}, keyByName["ec256-a"].EC.X.Bytes(), keyByName["ec256-a"].EC.Y.Bytes())
		}
		return dseq(algID("1.2.840.10045.2.1", doid(curve)), dbits(pt)), kind
	}
	return dseq(algID(pick(t, "hk.oid", []string{"1.3.101.112", "1.2.840.113549.1.1.10", "2.999.1"}), dnull()), dbits(t.Bytes("hk.b", 0, 70))), kind
}

// hostileSig is a signature that no signer made.
func (t *T) hostileSig() []byte {
	if t.sigLen > 0 && t.Pct("hs.fit", 80) {
		b := bulk(t.Seed("hs.s"), t.sigLen)
		b[0] = 1
		return b
	}
	if t.Pct("hs.seq", 60) {
		var p [][]byte
		for i := pick(t, "hs.n", []int{0, 1, 2, 2, 2, 2, 3}); i > 0; i-- {
			p = append(p, t.hostileInt())
		}
		return dseq(p...)
	}
	return t.Bytes("hs.b", 0, 300)
}

// hostileCert has the given public key, everything else in order.
func hostileCert(spki []byte, serial int64) []byte {
	c := defaultCert(keyByName["rsa1024-b"], fmt.Sprintf("hostile %d", serial), serial)
	c.SPKI = spki
	return c.DER()
}

// ---- running everything that reads an APK ----

// exercise runs all entry points; kind tells what became of the APK.
func (t *T) exercise(apk []byte) (kind string) {
	min, max := int32(t.Range("x.min", -2, 40)), int32(t.Range("x.max", -2, 40))
	if t.Pct("x.any", 30) {
		max = anyMax
	}
	type rg struct{ a, b int32 }
	for _, r := range []rg{{anyMin, anyMax}, {min, max}} {
		t.Guard(fmt.Sprintf("VerifyWithSdkVersionReader <%d;%d>", r.a, r.b), apk, func() {
			v := verify(apk, r.a, r.b)
			if v.Err == nil {
				kind = fmt.Sprintf("accepted, scheme %d", v.Scheme)
			} else if kind == "" {
				kind = "error: " + errKind(v.Err)
			}
			ci, c := apkverifier.PickBestApkCert(v.Res.SignerCerts)
			if ci != nil {
				_ = ci.String()
			}
			if c != nil {
				apkverifier.NewCertInfo(c)
			}
			if s := v.Res.SigningBlockResult; s != nil {
				_ = fmt.Sprintf("%v %v %v", s.ContainsErrors(), s.GetLastError(), s.Warnings)
				if s.SigningLineage != nil {
					for _, n := range s.SigningLineage.Nodes {
						_ = fmt.Sprint(n.Flags.String(), n)
					}
				}
			}
		})
	}
	t.Guard("ExtractCertsReader", apk, func() {
		c, _ := apkverifier.ExtractCertsReader(bytes.NewReader(apk), nil)
		apkverifier.PickBestApkCert(c)
	})
	t.Guard("signingblock.VerifySigningBlockReader", apk, func() {
		signingblock.VerifySigningBlockReader(bytes.NewReader(apk), min, max)
	})
	t.Guard("signingblock.ExtractCertsReader", apk, func() {
		signingblock.ExtractCertsReader(bytes.NewReader(apk), min, max)
	})
	return kind
}

// errKind is the fixed part of an error text.
func errKind(err error) string {
	s := err.Error()
	s = strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' || r > 126 || r < 32 {
			return -1
		}
		return r
	}, s)
	if len(s) > 48 {
		s = s[:48]
	}
	return s
}

package main

import (
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/md5"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"fmt"
	"hash"
	"math/big"
	"sync"
)

// Key is a signing key of the harness.
type Key struct {
	Name string
	Kind string // rsa, ec, dsa
	RSA  *rsa.PrivateKey
	EC   *ecdsa.PrivateKey
	DSA  *dsa.PrivateKey
	SPKI []byte
}

var (
	allKeys                  []*Key
	keyByName                = map[string]*Key{}
	rsaKeys, ecKeys, dsaKeys []*Key
)

func bigHex(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad hex")
	}
	return v
}

func init() {
	for _, d := range rsaKeyData {
		b, err := base64.StdEncoding.DecodeString(d.pkcs1)
		if err != nil {
			panic(err)
		}
		k, err := x509.ParsePKCS1PrivateKey(b)
		if err != nil {
			panic(fmt.Sprint(d.name, err))
		}
		spki := dseq(algID("1.2.840.113549.1.1.1", dnull()), dbits(dseq(dbig(k.N), dint(int64(k.E)))))
		addKey(&Key{Name: d.name, Kind: "rsa", RSA: k, SPKI: spki})
	}
	for _, d := range ecKeyData {
		b, err := base64.StdEncoding.DecodeString(d.sec1)
		if err != nil {
			panic(err)
		}
		k, err := x509.ParseECPrivateKey(b)
		if err != nil {
			panic(fmt.Sprint(d.name, err))
		}
		oid := map[string]string{"P-224": "1.3.132.0.33", "P-256": "1.2.840.10045.3.1.7", "P-384": "1.3.132.0.34", "P-521": "1.3.132.0.35"}[k.Curve.Params().Name]
		pt := elliptic.Marshal(k.Curve, k.X, k.Y)
		spki := dseq(algID("1.2.840.10045.2.1", doid(oid)), dbits(pt))
		addKey(&Key{Name: d.name, Kind: "ec", EC: k, SPKI: spki})
	}
	for _, d := range dsaKeyData {
		k := &dsa.PrivateKey{X: bigHex(d.x)}
		k.P, k.Q, k.G, k.Y = bigHex(d.p), bigHex(d.q), bigHex(d.g), bigHex(d.y)
		spki := dseq(algID("1.2.840.10040.4.1", dseq(dbig(k.P), dbig(k.Q), dbig(k.G))), dbits(dbig(k.Y)))
		addKey(&Key{Name: d.name, Kind: "dsa", DSA: k, SPKI: spki})
	}
}

func addKey(k *Key) {
	allKeys = append(allKeys, k)
	keyByName[k.Name] = k
	switch k.Kind {
	case "rsa":
		rsaKeys = append(rsaKeys, k)
	case "ec":
		ecKeys = append(ecKeys, k)
	case "dsa":
		dsaKeys = append(dsaKeys, k)
	}
}

func hashOf(h crypto.Hash, data []byte) []byte {
	var x hash.Hash
	switch h {
	case crypto.MD5:
		x = md5.New()
	case crypto.SHA1:
		x = sha1.New()
	case crypto.SHA224:
		x = sha256.New224()
	case crypto.SHA256:
		x = sha256.New()
	case crypto.SHA384:
		x = sha512.New384()
	case crypto.SHA512:
		x = sha512.New()
	default:
		panic("hash")
	}
	x.Write(data)
	return x.Sum(nil)
}

func sha256Sum(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

// rsaPriv is the raw RSA private operation (CRT).
func rsaPriv(k *rsa.PrivateKey, em []byte) []byte {
	c := new(big.Int).SetBytes(em)
	p, q := k.Primes[0], k.Primes[1]
	one := big.NewInt(1)
	dp := new(big.Int).Mod(k.D, new(big.Int).Sub(p, one))
	dq := new(big.Int).Mod(k.D, new(big.Int).Sub(q, one))
	qi := new(big.Int).ModInverse(q, p)
	m1 := new(big.Int).Exp(new(big.Int).Mod(c, p), dp, p)
	m2 := new(big.Int).Exp(new(big.Int).Mod(c, q), dq, q)
	h := new(big.Int).Sub(m1, m2)
	h.Mul(h, qi).Mod(h, p)
	m := new(big.Int).Mul(h, q)
	m.Add(m, m2)
	return m.FillBytes(make([]byte, (k.N.BitLen()+7)/8))
}

func mgf1(h crypto.Hash, seed []byte, n int) []byte {
	var out []byte
	for i := uint32(0); len(out) < n; i++ {
		out = append(out, hashOf(h, cat(seed, []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}))...)
	}
	return out[:n]
}

// signPSS is EMSA-PSS with a deterministic salt of saltLen bytes.
func signPSS(k *rsa.PrivateKey, h crypto.Hash, digest []byte, saltLen int) []byte {
	salt := hashOf(crypto.SHA512, cat([]byte("salt"), digest))
	for len(salt) < saltLen {
		salt = append(salt, salt...)
	}
	salt = salt[:saltLen]
	emBits := k.N.BitLen() - 1
	emLen := (emBits + 7) / 8
	hl := h.Size()
	if emLen < hl+saltLen+2 {
		panic("PSS: key too small")
	}
	hh := hashOf(h, cat(make([]byte, 8), digest, salt))
	db := make([]byte, emLen-hl-1)
	copy(db[len(db)-saltLen:], salt)
	db[len(db)-saltLen-1] = 1
	for i, m := range mgf1(h, hh, len(db)) {
		db[i] ^= m
	}
	db[0] &= 0xff >> uint(8*emLen-emBits)
	return rsaPriv(k, cat(db, hh, []byte{0xbc}))
}

var pkcs1Prefix = map[crypto.Hash]string{
	crypto.MD5:    "1.2.840.113549.2.5",
	crypto.SHA1:   "1.3.14.3.2.26",
	crypto.SHA224: "2.16.840.1.101.3.4.2.4",
	crypto.SHA256: "2.16.840.1.101.3.4.2.1",
	crypto.SHA384: "2.16.840.1.101.3.4.2.2",
	crypto.SHA512: "2.16.840.1.101.3.4.2.3",
}

func signPKCS1(k *rsa.PrivateKey, h crypto.Hash, digest []byte) []byte {
	di := dseq(algID(pkcs1Prefix[h], dnull()), doct(digest))
	n := (k.N.BitLen() + 7) / 8
	if n < len(di)+11 {
		panic("PKCS1: key too small")
	}
	em := make([]byte, n)
	em[1] = 1
	for i := 2; i < n-len(di)-1; i++ {
		em[i] = 0xff
	}
	copy(em[n-len(di):], di)
	return rsaPriv(k, em)
}

// detK derives a deterministic nonce in [1,q).
func detK(x, q *big.Int, digest []byte) *big.Int {
	s := hashOf(crypto.SHA512, cat(x.Bytes(), digest))
	s = append(s, hashOf(crypto.SHA512, s)...)
	k := new(big.Int).SetBytes(s)
	k.Mod(k, new(big.Int).Sub(q, big.NewInt(1)))
	return k.Add(k, big.NewInt(1))
}

func hashToInt(d []byte, n *big.Int) *big.Int {
	bl := n.BitLen()
	if len(d) > (bl+7)/8 {
		d = d[:(bl+7)/8]
	}
	v := new(big.Int).SetBytes(d)
	if ex := len(d)*8 - bl; ex > 0 {
		v.Rsh(v, uint(ex))
	}
	return v
}

func signEC(k *ecdsa.PrivateKey, digest []byte) (r, s *big.Int) {
	n := k.Curve.Params().N
	e := hashToInt(digest, n)
	for i := byte(0); ; i++ {
		kk := detK(k.D, n, append([]byte{i}, digest...))
		x, _ := k.Curve.ScalarBaseMult(kk.FillBytes(make([]byte, (n.BitLen()+7)/8)))
		r = new(big.Int).Mod(x, n)
		s = new(big.Int).Mul(r, k.D)
		s.Add(s, e).Mul(s, new(big.Int).ModInverse(kk, n)).Mod(s, n)
		if r.Sign() != 0 && s.Sign() != 0 {
			return
		}
	}
}

// signDSA signs a digest already truncated by the caller.
func signDSA(k *dsa.PrivateKey, digest []byte) (r, s *big.Int) {
	for i := byte(0); ; i++ {
		kk := detK(k.X, k.Q, append([]byte{i}, digest...))
		r = new(big.Int).Exp(k.G, kk, k.P)
		r.Mod(r, k.Q)
		s = new(big.Int).Mul(r, k.X)
		s.Add(s, new(big.Int).SetBytes(digest)).Mul(s, new(big.Int).ModInverse(kk, k.Q)).Mod(s, k.Q)
		if r.Sign() != 0 && s.Sign() != 0 {
			return
		}
	}
}

func dsaTrunc(k *dsa.PrivateKey, d []byte) []byte {
	if n := k.Q.BitLen() / 8; len(d) > n {
		d = d[:n]
	}
	return d
}

// SignHash makes a plain (PKCS#1 v1.5 / ECDSA / DSA) signature with hash h.
func (k *Key) SignHash(h crypto.Hash, data []byte) []byte {
	d := hashOf(h, data)
	switch k.Kind {
	case "rsa":
		return signPKCS1(k.RSA, h, d)
	case "ec":
		r, s := signEC(k.EC, d)
		return dseq(dbig(r), dbig(s))
	default:
		r, s := signDSA(k.DSA, dsaTrunc(k.DSA, d))
		return dseq(dbig(r), dbig(s))
	}
}

// ---- APK signature algorithms ----

type SigAlg struct {
	ID     uint32
	Name   string
	Kind   string
	Hash   crypto.Hash
	PSS    bool
	Digest int // 1 chunked sha256, 2 chunked sha512, 3 verity
	JcaMin int32
}

var sigAlgs = []SigAlg{
	{0x0101, "pss256", "rsa", crypto.SHA256, true, 1, 23},
	{0x0102, "pss512", "rsa", crypto.SHA512, true, 2, 23},
	{0x0103, "rsa256", "rsa", crypto.SHA256, false, 1, 1},
	{0x0104, "rsa512", "rsa", crypto.SHA512, false, 2, 1},
	{0x0201, "ec256", "ec", crypto.SHA256, false, 1, 11},
	{0x0202, "ec512", "ec", crypto.SHA512, false, 2, 11},
	{0x0301, "dsa256", "dsa", crypto.SHA256, false, 1, 1},
	{0x0421, "vrsa", "rsa", crypto.SHA256, false, 3, 1},
	{0x0423, "vec", "ec", crypto.SHA256, false, 3, 11},
	{0x0425, "vdsa", "dsa", crypto.SHA256, false, 3, 1},
}

func algByID(id uint32) *SigAlg {
	for i := range sigAlgs {
		if sigAlgs[i].ID == id {
			return &sigAlgs[i]
		}
	}
	return nil
}

// fits tells whether the key can make this signature (RSA padding sizes).
func (k *Key) fits(a *SigAlg) bool {
	if a.Kind != k.Kind {
		return false
	}
	if k.Kind == "rsa" {
		bits := k.RSA.N.BitLen()
		if a.PSS {
			return (bits-1+7)/8 >= 2*a.Hash.Size()+2
		}
		return (bits+7)/8 >= a.Hash.Size()+19+11
	}
	return true
}

func (k *Key) algs() []*SigAlg {
	var r []*SigAlg
	for i := range sigAlgs {
		if k.fits(&sigAlgs[i]) {
			r = append(r, &sigAlgs[i])
		}
	}
	return r
}

var sigCache sync.Map

// SignAlg makes the signature of APK signature algorithm a over data.
func (k *Key) SignAlg(a *SigAlg, data []byte) []byte {
	if a.PSS {
		return signPSS(k.RSA, a.Hash, hashOf(a.Hash, data), a.Hash.Size())
	}
	return k.SignHash(a.Hash, data)
}

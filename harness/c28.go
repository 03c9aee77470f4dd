package main

import (
	"bytes"
	"crypto"
	"crypto/cipher"
	"crypto/rsa"
	"crypto/x509"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"math/big"
	"reflect"
	"time"

	"github.com/avast/apkverifier/fullsailor/pkcs7"
	"github.com/avast/apkverifier/internal/asn1andr"
	"github.com/avast/apkverifier/internal/x509andr"
)

// ---- the calls ----

// exerciseP7 runs everything the package offers on a message.
func (t *T) exerciseP7(what string, msg []byte) (kind string) {
	kind = "rejected"
	t.Guard("PKCS#7: "+what, msg, func() {
		in := append([]byte(nil), msg...)
		q, err := pkcs7.Parse(in)
		if err != nil {
			return
		}
		if q == nil {
			panic("Parse returned neither a message nor an error")
		}
		kind = "parsed"
		if q.Verify() == nil {
			kind = "verifies"
		}
		q.GetOnlySigner()
		infos := q.GetSignerInfos()
		for i := range infos {
			s := &infos[i]
			s.MarshalAuthenticatedAttributes()
			var b []byte
			var o asn1.ObjectIdentifier
			var tm time.Time
			s.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &b)
			s.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}, &o)
			s.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 5}, &tm)
		}
		var b []byte
		q.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &b)
		certs := q.Certificates
		if len(certs) > 3 {
			certs = certs[:3]
		}
		for _, c := range append(certs, envCert0().cert) {
			if _, err := q.Decrypt(c, envCert0().key.RSA); err == nil {
				kind = "decrypts"
			}
		}
	})
	return
}

func envCert0() *envCert { return envMake(keyByName["rsa1024-a"], 0, big.NewInt(1)) }

// exerciseX509 runs the parsers and what users do with the parsed values.
func (t *T) exerciseX509(what string, b []byte) (kind string) {
	kind = "rejected"
	t.Guard("X.509: "+what, b, func() {
		if c, err := x509andr.ParseCertificate(b); err == nil {
			kind = "certificate"
			if c == nil {
				panic("ParseCertificate returned neither a certificate nor an error")
			}
			c.CheckSignatureFrom(c)
			c.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature)
			if p, err := x509andr.ParseCertificate(selfCert(keyByName["rsa1024-b"], 0)); err == nil {
				c.CheckSignatureFrom(p)
				p.CheckSignatureFrom(c)
			}
			x509andr.CheckPublicKeySize(c.PublicKey)
			c.Equal(c)
			c.VerifyHostname("a.example.com")
			c.VerifyHostname("[::1]")
			pool := x509andr.NewCertPool()
			pool.AddCert(c)
			c.Verify(x509andr.VerifyOptions{Roots: pool, DNSName: "a.example.com", CurrentTime: time.Unix(1600000000, 0), KeyUsages: []x509andr.ExtKeyUsage{x509andr.ExtKeyUsageAny}})
		}
		x509andr.ParseCertificateForGo(b)
		x509andr.ParseCertificates(b)
		x509andr.ParseCertificatesForGo(b)
		if k, err := x509andr.ParsePKIXPublicKey(b); err == nil {
			kind = "public key"
			x509andr.CheckPublicKeySize(k)
			x509andr.MarshalPKIXPublicKey(k)
		}
		if _, err := x509andr.ParsePKCS1PrivateKey(b); err == nil {
			kind = "PKCS#1 key"
		}
		if _, err := x509andr.ParsePKCS8PrivateKey(b); err == nil {
			kind = "PKCS#8 key"
		}
		if _, err := x509andr.ParseECPrivateKey(b); err == nil {
			kind = "EC key"
		}
		if r, err := x509andr.ParseCertificateRequest(b); err == nil {
			kind = "request"
			r.CheckSignature()
		}
		for _, f := range []func([]byte) (interface{}, error){
			func(b []byte) (interface{}, error) { return x509andr.ParseCRL(b) },
			func(b []byte) (interface{}, error) { return x509andr.ParseDERCRL(b) },
		} {
			f(b)
		}
		if crl, err := x509andr.ParseDERCRL(b); err == nil {
			kind = "CRL"
			crl.HasExpired(time.Unix(1600000000, 0))
			if p, err := x509andr.ParseCertificate(selfCert(keyByName["rsa1024-b"], 0)); err == nil {
				p.CheckCRLSignature(crl)
			}
		}
	})
	return
}

func (t *T) exerciseASN1(what string, rt reflect.Type, params string, b []byte) (kind string) {
	kind = "rejected"
	t.Guard("ASN.1: "+what, b, func() {
		p := reflect.New(rt)
		rest, err := asn1andr.UnmarshalWithParams(b, p.Interface(), params)
		if err == nil {
			kind = "decoded"
			if len(rest) > len(b) || !bytes.HasSuffix(b, rest) {
				panic("the rest is not the end of the input")
			}
			asn1andr.MarshalWithParams(p.Elem().Interface(), params)
		}
	})
	return
}

// ---- the inputs ----

// nested is an element inside many levels of constructed elements.
func (t *T) nested(inner []byte) ([]byte, int) {
	n := pick(t, "levels", []int{2, 20, 100, 127, 128, 129, 1000, 20000, 150000})
	tags := pick(t, "ntags", [][]byte{{0x30}, {0x24}, {0xa0}, {0x31}, {0x30, 0x31, 0xa0, 0x24, 0x61}})
	if t.Pct("nindef", 50) {
		b := make([]byte, 0, 4*n+len(inner))
		for i := 0; i < n; i++ {
			b = append(b, tags[i%len(tags)], 0x80)
		}
		b = append(b, inner...)
		if t.Pct("nend", 70) {
			b = append(b, make([]byte, 2*n)...)
		}
		return b, n
	}
	// definite lengths, written from the inside out
	rev := make([]byte, 0, 8*n+len(inner))
	l := len(inner)
	for i := 0; i < n; i++ {
		d := derLen(l)
		for j := len(d) - 1; j >= 0; j-- {
			rev = append(rev, d[j])
		}
		rev = append(rev, tags[i%len(tags)])
		l += len(d) + 1
	}
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return append(rev, inner...), n
}

// genEnvMsg is an encrypted message for envCert0.
func (t *T) genEnvMsg() []byte {
	c := envCert0()
	alg := pick(t, "alg", []string{oidDES, oid3DES, oidAES128, oidAES256, oidAES128GCM})
	key := bulk(1, pick(t, "klen", []int{0, 7, 8, 15, 16, 24, 32, 33}))
	if t.Pct("right", 80) {
		key = bulk(1, map[string]int{oidDES: 8, oid3DES: 24, oidAES128: 16, oidAES256: 32, oidAES128GCM: 16}[alg])
	}
	enc, err := rsa.EncryptPKCS1v15(&prng{t.Seed("pk")}, &c.key.RSA.PublicKey, key)
	if err != nil {
		panic(err)
	}
	m := &envMsg{alg: alg, iv: bulk(2, pick(t, "ivlen", []int{0, 1, 7, 8, 8, 12, 16, 16, 17, 1000})), ct: t.Bytes("ct", 0, 80), split: []int{t.Uni("sp", 30)}}
	if alg == oidAES128GCM {
		p := cat(tlv(0x84, bulk(3, pick(t, "nlen", []int{0, 11, 12, 12, 12, 13, 500}))), dint(pick(t, "icv", []int64{16, 16, 16, 0, -1, 12, 1 << 40})))
		if t.Pct("inner", 70) {
			p = dseq(p)
		}
		m.iv = p
	}
	if b, err := envBlock(alg, key); err == nil && len(m.iv) == b.BlockSize() && t.Pct("cbc", 70) {
		m.ct = make([]byte, b.BlockSize()*t.Range("blocks", 1, 3))
		m.ct[len(m.ct)-1] = 1
		cipher.NewCBCEncrypter(b, m.iv).CryptBlocks(m.ct, m.ct)
	}
	for k := t.Range("rn", 1, 2); k > 0; k-- {
		m.recips = append(m.recips, envRecipient{c.cert.RawIssuer, c.serial, enc})
	}
	return m.DER()
}

// hostileSigned is a signed message whose signer or certificate carries odd values, correctly encoded.
func (t *T) hostileSigned() ([]byte, string) {
	p := t.genP7Foreign()
	spki, kind := t.hostileSPKI()
	cert := hostileCert(spki, 3)
	if t.Pct("cert", 30) {
		cert, kind = t.mutDER(cert, 2), "certificate"
	}
	p.Certs = append([][]byte{cert}, p.Certs...)
	der := p.DER()
	root, rest, ok := parseNode(der)
	if !ok || len(rest) != 0 { // the certificate is broken
		return der, kind
	}
	// name the hostile certificate as the signer's and replace the signature
	_, iss := t.certIdentity(cert)
	sd := root.kids[1].kids[0]
	sis := sd.kids[len(sd.kids)-1]
	if len(sis.kids) > 0 {
		si := sis.kids[t.Uni("si", len(sis.kids))]
		if iss != nil && len(si.kids) > 1 {
			si.kids[1] = mustNode(iss)
		}
		for i := len(si.kids) - 1; i > 0; i-- {
			if si.kids[i].id[0] == 4 {
				si.kids[i].content = t.hostileSig()
				if t.Pct("alg", 60) {
					si.kids[i-1] = mustNode(algID(pick(t, "sigoid", []string{"1.2.840.113549.1.1.5", "1.2.840.113549.1.1.11", "1.2.840.10040.4.3", "2.16.840.1.101.3.4.3.2", "1.2.840.10045.4.1", "1.2.840.10045.4.3.2", "1.2.840.113549.1.1.1", "1.2.840.113549.1.1.10", "1.3.101.112", "1.2.840.113549.1.1.2"}), nil))
				}
				break
			}
		}
	}
	return root.encode(nil), kind
}

// certIdentity is the issuerAndSerialNumber of a certificate that can be read.
func (t *T) certIdentity(cert []byte) (ok bool, ias []byte) {
	n, _, good := parseNode(cert)
	if !good || len(n.kids) == 0 {
		return false, nil
	}
	k := n.kids[0].kids
	if len(k) > 0 && k[0].id[0] == 0xa0 {
		k = k[1:]
	}
	if len(k) < 3 {
		return false, nil
	}
	b := dseq(k[2].encode(nil), k[0].encode(nil))
	if _, rest, good := parseNode(b); !good || len(rest) != 0 {
		return false, nil
	}
	return true, b
}

func (t *T) mutate(b []byte) ([]byte, string) {
	switch t.Uni("mut", 12) {
	case 0, 1, 2, 3:
		return t.mutDER(b, 4), "elements"
	case 4:
		n := t.berRandom(b)
		return n, "BER"
	case 5, 6:
		return t.mutBytes(b, 4), "bytes"
	case 7:
		return b[:t.Uni("cut", len(b)+1)], "truncated"
	case 8:
		return t.mutDER(b, 1), "elements"
	case 9: // lengths
		o := append([]byte(nil), b...)
		for k := t.Range("nl", 1, 3); k > 0; k-- {
			at := t.Uni("at", len(o)+1)
			l := pick(t, "len", [][]byte{{0x80}, {0x81}, {0x81, 0x80}, {0x82, 0xff, 0xff}, {0x83, 1, 0, 0}, {0x84, 0x7f, 0xff, 0xff, 0xff}, {0x84, 0xff, 0xff, 0xff, 0xff}, {0x84, 0x80, 0, 0, 0}, {0x85, 1, 0, 0, 0, 0}, {0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff}, {0xfe, 0}})
			if t.Pct("replace", 70) {
				copy(o[at:], l)
			} else {
				o = append(o[:at:at], append(append([]byte{}, l...), o[at:]...)...)
			}
		}
		return o, "lengths"
	case 10:
		return t.Bytes("rnd", 0, 200), "random"
	}
	return b, "unchanged"
}

func (t *T) berRandom(b []byte) []byte {
	root, rest, ok := parseNode(b)
	if !ok || !root.constr {
		return b
	}
	style, _ := t.berStyle(root)
	return t.mutBytes(cat(root.encode(style), rest), 2)
}

func c28PKCS7(t *T) {
	var b []byte
	what := ""
	switch t.Uni("base", 8) {
	case 0, 1:
		b, what = t.genP7Foreign().DER(), "signed"
	case 2:
		m := t.genP7Msg(2)
		b, what = m.der, "signed by the package"
	case 3, 4:
		b, what = t.genEnvMsg(), "encrypted"
	case 5:
		d, err := pkcs7.DegenerateCertificate(cat(selfCert(t.genKey("tkey"), 0), selfCert(t.genKey("tkey"), 1)))
		if err != nil {
			t.Violate("DegenerateCertificate: %v", err)
		}
		b, what = d, "certificates only"
	default:
		var k string
		b, k = t.hostileSigned()
		what = "signed, hostile " + k
	}
	m, how := t.mutate(b)
	kind := t.exerciseP7(what+", "+how, m)
	t.Class("%s, %s: %s", what, how, kind)
	t.Sample("%s, %s, %d bytes: %s", what, how, len(m), kind)
	t.NonTrivial(m)
}

func c28ASN1(t *T) {
	rt, params, v := t.genASN1(typeOpts{raw: true, anyT: true})
	var b []byte
	if hasAny(rt) {
		b = t.genTLV(5)
	} else if d, err := asn1.MarshalWithParams(v.Interface(), params); err == nil {
		b = d
	} else {
		b = t.genTLV(5)
	}
	how := "generated"
	if t.Pct("mutated", 90) {
		b, how = t.mutate(b)
	}
	kind := t.exerciseASN1(typeString(rt, params)+", "+how, rt, params, b)
	t.Class("%s: %s", how, kind)
	t.Sample("%s, %s, %d bytes: %s", typeString(rt, params), how, len(b), kind)
	t.NonTrivial(rt.String(), b)
}

// x509Things are well-formed inputs of the X.509 parsers.
func (t *T) x509Thing() ([]byte, string) {
	switch t.Uni("thing", 9) {
	case 0, 1, 2:
		return t.genXCert().DER(), "certificate"
	case 3:
		k := keyByName[pick(t, "rsa", []string{"rsa1024-a", "rsa1024-b", "rsa1031-a"})]
		return x509.MarshalPKCS1PrivateKey(k.RSA), "PKCS#1 key"
	case 4:
		k := t.genKey("tkey")
		var b []byte
		if k.RSA != nil {
			b, _ = x509.MarshalPKCS8PrivateKey(k.RSA)
		} else if k.EC != nil {
			b, _ = x509.MarshalPKCS8PrivateKey(k.EC)
		} else {
			b = dseq(dint(0), algID("1.2.840.10040.4.1", dseq(dbig(k.DSA.P), dbig(k.DSA.Q), dbig(k.DSA.G))), doct(dbig(k.DSA.X)))
		}
		return b, "PKCS#8 key"
	case 5:
		b, _ := x509.MarshalECPrivateKey(keyByName[pick(t, "ec", []string{"ec224-a", "ec256-a", "ec384-a", "ec521-a"})].EC)
		return b, "EC key"
	case 6:
		spki, kind, _ := t.genSPKI()
		return spki, "public key " + kind
	case 7:
		return t.genCRL(t.Uni("crl", 5)), "CRL"
	}
	k := keyByName[pick(t, "csrkey", []string{"rsa1024-a", "ec256-a"})]
	var ctx []byte
	if t.Pct("ext", 70) {
		ctx = dseq(doid("1.2.840.113549.1.9.14"), dset(dseq(t.genExts()...)))
	}
	info := dseq(dint(0), t.genDN().DER(), k.SPKI, tlv(0xa0, ctx))
	return dseq(info, sigAlgDER(k.Kind, crypto.SHA256), dbits(k.SignHash(crypto.SHA256, info))), "request"
}

func c28X509(t *T) {
	b, what := t.x509Thing()
	how := ""
	if t.Pct("hostile", 20) {
		spki, kind := t.hostileSPKI()
		b, what = spki, "hostile public key "+kind
		if t.Pct("incert", 70) {
			// signed with itself as far as the verifier can tell
			c := mustNode(hostileCert(spki, 3))
			c.kids[0].kids[3] = c.kids[0].kids[5].clone()
			a := mustNode(algID(pick(t, "sigoid", []string{"1.2.840.113549.1.1.5", "1.2.840.113549.1.1.11", "1.2.840.10040.4.3", "2.16.840.1.101.3.4.3.2", "1.2.840.10045.4.1", "1.2.840.10045.4.3.2", "1.2.840.113549.1.1.10"}), nil))
			c.kids[1], c.kids[0].kids[2] = a, a
			c.kids[2].content = cat([]byte{0}, t.hostileSig())
			b, what = c.encode(nil), "certificate with a hostile key "+kind
		}
	}
	if t.Pct("mutated", 85) {
		b, how = t.mutate(b)
	}
	kind := t.exerciseX509(what+", "+how, b)
	if len(what) > 24 {
		what = what[:24]
	}
	t.Class("%s, %s: %s", what, how, kind)
	t.Sample("%s, %s, %d bytes: %s", what, how, len(b), kind)
	t.NonTrivial(b)
}

// c28Nest: elements nested deeply, at the top or inside a message.
func c28Nest(t *T) {
	inner := pick(t, "inner", [][]byte{{}, {0x05, 0}, {0x30, 0}, {0x04, 1, 7}, {0x02, 1, 1}})
	b, n := t.nested(inner)
	what := "bare"
	hosts := t.Uni("host", 4)
	if hosts > 0 {
		var host []byte
		host, what = t.x509Thing()
		if hosts > 1 {
			host, what = t.genP7Foreign().DER(), "signed message"
		}
		root := mustNode(host)
		var all []*node
		root.walk(func(x *node) { all = append(all, x) })
		x := all[t.Uni("at", len(all))]
		// an element with this content as a whole: identifier and content are taken apart again by encode
		*x = node{id: []byte{0x30}, constr: false, content: b}
		b = root.encode(nil)
	}
	k1 := t.exerciseP7("nested in "+what, b)
	k2 := t.exerciseX509("nested in "+what, b)
	rt, params, _ := t.genASN1(typeOpts{raw: true, anyT: true})
	k3 := t.exerciseASN1("nested in "+what, rt, params, b)
	t.Class("%d levels in %s: %s", n, what, k1)
	t.Sample("%d levels in %s, %d bytes: %s, %s, %s", n, what, len(b), k1, k2, k3)
	t.NonTrivial(b)
}

// c28PEM: encrypted PEM blocks with odd headers.
func c28PEM(t *T) {
	data := t.Bytes("data", 0, 100)
	b := &pem.Block{Type: "RSA PRIVATE KEY", Headers: map[string]string{}, Bytes: data}
	algs := []string{"DES-CBC", "DES-EDE3-CBC", "AES-128-CBC", "AES-192-CBC", "AES-256-CBC", "", "NULL", "DES-CBC,"}
	iv := pick(t, "iv", []string{"", "0", "00", "zz", "0011223344556677", "00112233445566778899aabbccddeeff", "00112233445566778899aabbccddeeff00", "001122334455667", "0011223344556677,8"})
	if t.Pct("headers", 90) {
		b.Headers["Proc-Type"] = pick(t, "proc", []string{"4,ENCRYPTED", "", "4", "x"})
		b.Headers["DEK-Info"] = pick(t, "alg", algs) + pick(t, "sep", []string{",", "", ",,", ", "}) + iv
		if t.Pct("nodek", 10) {
			delete(b.Headers, "DEK-Info")
		}
	}
	pw := t.Bytes("pw", 0, 20)
	if t.Pct("real", 40) {
		e, err := x509.EncryptPEMBlock(&prng{t.Seed("peme")}, b.Type, data, pw, pick(t, "cipher", []x509.PEMCipher{x509.PEMCipherDES, x509.PEMCipher3DES, x509.PEMCipherAES128, x509.PEMCipherAES192, x509.PEMCipherAES256}))
		if err != nil {
			panic(err)
		}
		b = e
		switch t.Uni("pemmut", 4) {
		case 0:
			b.Bytes = t.mutBytes(b.Bytes, 2)
		case 1:
			b.Headers["DEK-Info"] = string(t.mutBytes([]byte(b.Headers["DEK-Info"]), 2))
		}
	}
	in := cat(b.Bytes, []byte(fmt.Sprint(b.Headers)))
	kind := "rejected"
	t.Guard("PEM", in, func() {
		x509andr.IsEncryptedPEMBlock(b)
		if _, err := x509andr.DecryptPEMBlock(b, pw); err == nil {
			kind = "decrypted"
		}
		x509andr.ParseCRL(pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: data}))
	})
	t.Class("%s", kind)
	t.Sample("%v, %d bytes: %s", b.Headers, len(data), kind)
	t.NonTrivial(in)
}

func init() {
	register("C28", "a case counts if its bytes were handed to the parsers; distinct by input bytes (and Go type for ASN.1)",
		Sub{"pkcs7", 20000, 400000, c28PKCS7},
		Sub{"x509", 30000, 600000, c28X509},
		Sub{"asn1", 40000, 800000, c28ASN1},
		Sub{"nest", 800, 16000, c28Nest},
		Sub{"pem", 2000, 40000, c28PEM})
}

package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"reflect"
	"strings"
	"time"

	"github.com/avast/apkverifier/internal/x509andr"
)

// ---- keys ----

// genRSAKey is one of the RSA keys, or one put together from the primes of several.
func (t *T) genRSAKey() *rsa.PrivateKey {
	if t.Pct("multi", 25) {
		pool := []*big.Int{}
		for _, n := range []string{"rsa1024-a", "rsa1024-b", "rsa1024-c"} {
			pool = append(pool, keyByName[n].RSA.Primes...)
		}
		k := &rsa.PrivateKey{}
		n, l := big.NewInt(1), big.NewInt(1)
		for _, i := range t.perm(len(pool))[:t.Range("nprimes", 2, 4)] {
			p := pool[i]
			k.Primes = append(k.Primes, new(big.Int).Set(p))
			n.Mul(n, p)
			l.Mul(l, new(big.Int).Sub(p, big.NewInt(1)))
		}
		k.N, k.E = n, pick(t, "e", []int{65537, 65537, 257, 17, 65539})
		k.D = new(big.Int).ModInverse(big.NewInt(int64(k.E)), l)
		if k.D != nil && k.Validate() == nil {
			k.Precompute()
			return k
		}
	}
	o := keyByName[pick(t, "rsa", []string{"rsa1024-a", "rsa1024-b", "rsa1024-c", "rsa1031-a", "rsa2048-a", "rsa2048-b", "rsa3072-a"})].RSA
	k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: o.N, E: o.E}, D: o.D, Primes: append([]*big.Int(nil), o.Primes...)}
	if t.Pct("swap", 20) {
		k.Primes[0], k.Primes[1] = k.Primes[1], k.Primes[0]
	}
	if t.Pct("precompute", 70) {
		k.Precompute()
	}
	return k
}

func (t *T) genECKey() *ecdsa.PrivateKey {
	c := pick(t, "curve", []elliptic.Curve{elliptic.P224(), elliptic.P256(), elliptic.P384(), elliptic.P521()})
	n := c.Params().N
	d := new(big.Int)
	switch t.Uni("scalar", 6) {
	case 0:
		d.SetInt64(int64(t.Range("small", 1, 300)))
	case 1:
		d.Sub(n, big.NewInt(int64(t.Range("top", 1, 300))))
	case 2:
		d.SetBytes(bulk(t.Seed("dseed"), t.Range("dlen", 1, (n.BitLen()+7)/8)))
	default:
		d.SetBytes(bulk(t.Seed("dseed"), (n.BitLen()+7)/8))
	}
	d.Mod(d, n)
	if d.Sign() == 0 {
		d.SetInt64(1)
	}
	k := &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: c}, D: d}
	k.X, k.Y = c.ScalarBaseMult(d.FillBytes(make([]byte, (n.BitLen()+7)/8)))
	return k
}

func sameRSA(a, b *rsa.PrivateKey) bool {
	if a.N.Cmp(b.N) != 0 || a.E != b.E || a.D.Cmp(b.D) != 0 || len(a.Primes) != len(b.Primes) {
		return false
	}
	for i := range a.Primes {
		if a.Primes[i].Cmp(b.Primes[i]) != 0 {
			return false
		}
	}
	return true
}

func sameEC(a, b *ecdsa.PrivateKey) bool {
	return a.Curve == b.Curve && a.D.Cmp(b.D) == 0 && a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}

func c30Keys(t *T) {
	switch t.Uni("kind", 3) {
	case 0:
		k := t.genRSAKey()
		what := fmt.Sprintf("RSA %d bits, %d primes", k.N.BitLen(), len(k.Primes))
		t.Class("%s", what)
		t.Sample("%s, e=%d", what, k.E)
		t.NonTrivial("rsa", k.N, k.E, k.Primes[0])
		der := x509andr.MarshalPKCS1PrivateKey(k)
		t.Attach("key.der", der)
		if len(k.Primes) == 2 { // crypto/x509 writes the same, several primes are being removed from it
			k.Precompute()
			if std := x509.MarshalPKCS1PrivateKey(k); !bytes.Equal(der, std) {
				t.Violate("%s: MarshalPKCS1PrivateKey differs from crypto/x509", what)
			}
			g, err := x509.ParsePKCS1PrivateKey(der)
			if err != nil || !sameRSA(k, g) {
				t.Violate("%s: crypto/x509 does not read the key back: %v", what, err)
			}
		}
		b, err := x509andr.ParsePKCS1PrivateKey(der)
		if err != nil || !sameRSA(k, b) {
			t.Violate("%s: ParsePKCS1PrivateKey does not read the key back: %v", what, err)
		}
		p8 := dseq(dint(0), algID("1.2.840.113549.1.1.1", dnull()), doct(der))
		x, err := x509andr.ParsePKCS8PrivateKey(p8)
		if y, ok := x.(*rsa.PrivateKey); err != nil || !ok || !sameRSA(k, y) {
			t.Violate("%s: ParsePKCS8PrivateKey returned %T, %v", what, x, err)
		}
		t.publicKey(what, &k.PublicKey)
		// damaged numbers are noticed
		root := mustNode(der)
		i := pick(t, "num", []int{1, 3, 4, 5})
		v := new(big.Int).SetBytes(root.kids[i].content)
		v.Add(v, big.NewInt(pick(t, "delta", []int64{1, -1, 2, -2, 256})))
		root.kids[i].content = intContent(v)
		if len(k.Primes) == 2 { // the consistency of the numbers of other keys is crypto/rsa's affair
			if _, err := x509andr.ParsePKCS1PrivateKey(root.encode(nil)); err == nil {
				t.Violate("%s: a key whose number %d is wrong by a little was accepted", what, i)
			}
		}
	case 1:
		k := t.genECKey()
		what := fmt.Sprintf("EC %s, scalar %d bits", k.Curve.Params().Name, k.D.BitLen())
		t.Class("EC %s", k.Curve.Params().Name)
		t.Sample("%s", what)
		t.NonTrivial("ec", k.Curve.Params().Name, k.D)
		der, err := x509andr.MarshalECPrivateKey(k)
		if err != nil {
			t.Violate("%s: MarshalECPrivateKey: %v", what, err)
		}
		t.Attach("key.der", der)
		std, err := x509.MarshalECPrivateKey(k)
		if err != nil || !bytes.Equal(der, std) {
			t.Violate("%s: MarshalECPrivateKey differs from crypto/x509 (%v)", what, err)
		}
		b, err := x509andr.ParseECPrivateKey(der)
		if err != nil || !sameEC(k, b) {
			t.Violate("%s: ParseECPrivateKey does not read the key back: %v", what, err)
		}
		// leading zeros: too many and too few are both found in practice
		size := (k.Curve.Params().N.BitLen() + 7) / 8
		raw := k.D.Bytes()
		if t.Pct("longer", 50) {
			raw = k.D.FillBytes(make([]byte, size+t.Range("more", 1, 5)))
		}
		root := mustNode(der)
		root.kids[1].content = raw
		odd := root.encode(nil)
		b, err = x509andr.ParseECPrivateKey(odd)
		g, gerr := x509.ParseECPrivateKey(odd)
		if (err == nil) != (gerr == nil) || err == nil && (!sameEC(k, b) || !sameEC(g, b)) {
			t.Violate("%s: scalar of %d octets: %v, crypto/x509: %v", what, len(raw), err, gerr)
		}
		p8, err := x509.MarshalPKCS8PrivateKey(k)
		if err != nil {
			panic(err)
		}
		x, err := x509andr.ParsePKCS8PrivateKey(p8)
		if y, ok := x.(*ecdsa.PrivateKey); err != nil || !ok || !sameEC(k, y) {
			t.Violate("%s: ParsePKCS8PrivateKey returned %T, %v", what, x, err)
		}
		// a scalar that is not below the order is refused
		big1 := new(big.Int).Add(k.Curve.Params().N, big.NewInt(int64(t.Uni("over", 5))))
		root.kids[1].content = big1.FillBytes(make([]byte, size))
		if _, err := x509andr.ParseECPrivateKey(root.encode(nil)); err == nil {
			t.Violate("%s: a scalar above the order was accepted", what)
		}
		t.publicKey(what, &k.PublicKey)
	case 2:
		k := keyByName[pick(t, "dsa", []string{"dsa1024q160-a", "dsa1024q160-b", "dsa2048q224-a", "dsa2048q256-a", "dsa3072q256-a"})]
		t.Class("DSA")
		t.Sample("DSA %s", k.Name)
		t.NonTrivial("dsa", k.Name)
		a, err := x509andr.ParsePKIXPublicKey(k.SPKI)
		if err != nil {
			t.Violate("ParsePKIXPublicKey of %s: %v", k.Name, err)
		}
		if d := sameKeys(a, &k.DSA.PublicKey); d != "" {
			t.Violate("ParsePKIXPublicKey of %s: %s", k.Name, d)
		}
	}
}

func (t *T) publicKey(what string, pub interface{}) {
	std, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		panic(err)
	}
	der, err := x509andr.MarshalPKIXPublicKey(pub)
	if err != nil || !bytes.Equal(der, std) {
		t.Violate("%s: MarshalPKIXPublicKey gives %x (%v), crypto/x509 %x", what, der, err, std)
	}
	back, err := x509andr.ParsePKIXPublicKey(der)
	if err != nil {
		t.Violate("%s: ParsePKIXPublicKey: %v", what, err)
	}
	if d := sameKeys(back, pub); d != "" {
		t.Violate("%s: ParsePKIXPublicKey: %s", what, d)
	}
	if _, err := x509andr.ParsePKIXPublicKey(cat(der, []byte{0})); err == nil {
		t.Violate("%s: a public key with trailing data was accepted", what)
	}
}

func c30PEM(t *T) {
	data := t.Bytes("data", 0, 400)
	if t.Pct("edge", 40) {
		data = bulk(t.Seed("dseed"), pick(t, "n", []int{0, 1, 7, 8, 9, 15, 16, 17, 24, 32, 1000}))
	}
	pw := t.Bytes("pw", 0, 40)
	c := t.Range("cipher", 1, 5)
	names := []string{"", "DES-CBC", "DES-EDE3-CBC", "AES-128-CBC", "AES-192-CBC", "AES-256-CBC"}
	ivlen := []int{0, 8, 8, 16, 16, 16}[c]
	d := fmt.Sprintf("%s, %d bytes, password of %d bytes", names[c], len(data), len(pw))
	t.Note("%s", d)
	t.Sample("%s", d)
	t.Class("%s", names[c])
	t.NonTrivial(data, pw, c)
	keep, keepPw := append([]byte{}, data...), append([]byte{}, pw...)
	a, err := x509andr.EncryptPEMBlock(&prng{t.Seed("iv")}, "RSA PRIVATE KEY", data, pw, x509andr.PEMCipher(c))
	if err != nil {
		t.Violate("%s: EncryptPEMBlock: %v", d, err)
	}
	g, err := x509.EncryptPEMBlock(&prng{t.Seed("iv2")}, "RSA PRIVATE KEY", data, pw, x509.PEMCipher(c))
	if err != nil {
		panic(err)
	}
	if !bytes.Equal(keep, data) || !bytes.Equal(keepPw, pw) {
		t.Violate("%s: EncryptPEMBlock changed its arguments", d)
	}
	if dek := a.Headers["DEK-Info"]; !strings.HasPrefix(dek, names[c]+",") || len(dek) != len(names[c])+1+2*ivlen {
		t.Violate("%s: DEK-Info %q", d, dek)
	}
	for what, b := range map[string]*pem.Block{"own": a, "crypto/x509's": g} {
		for who, f := range map[string]func(*pem.Block, []byte) ([]byte, error){"x509andr": x509andr.DecryptPEMBlock, "crypto/x509": x509.DecryptPEMBlock} {
			back, rest := pem.Decode(pem.EncodeToMemory(b))
			if back == nil || len(rest) != 0 {
				t.Violate("%s: the %s block does not survive PEM", d, what)
			}
			if !x509andr.IsEncryptedPEMBlock(back) {
				t.Violate("%s: IsEncryptedPEMBlock of the %s block is false", d, what)
			}
			if got, err := f(back, pw); err != nil || !bytes.Equal(got, data) {
				t.Violate("%s: %s decrypts the %s block to %d bytes, %v", d, who, what, len(got), err)
			}
		}
	}
	// wrong password, damaged data: whatever crypto/x509 says
	bad := append([]byte{}, pw...)
	if t.Pct("longer", 50) || len(bad) == 0 {
		bad = append(bad, 'x')
	} else {
		bad[t.Uni("at", len(bad))] ^= 1
	}
	t.samePEM(d+", wrong password", a, bad)
	m := &pem.Block{Type: a.Type, Headers: map[string]string{}, Bytes: a.Bytes}
	for k, v := range a.Headers {
		m.Headers[k] = v
	}
	switch t.Uni("damage", 4) {
	case 0:
		m.Bytes = t.mutBytes(m.Bytes, 1)
	case 1:
		m.Headers["DEK-Info"] = strings.Replace(m.Headers["DEK-Info"], names[c], names[t.Range("other", 1, 5)], 1)
	case 2:
		h := m.Headers["DEK-Info"]
		m.Headers["DEK-Info"] = h[:len(h)-t.Range("cut", 1, 4)]
	case 3:
		h := []byte(m.Headers["DEK-Info"])
		h[len(h)-1-t.Uni("hex", 2*ivlen)] = pick(t, "digit", []byte("0189afAFgx "))
		m.Headers["DEK-Info"] = string(h)
	}
	t.samePEM(d+", damaged", m, pw)
	plain := &pem.Block{Type: a.Type, Bytes: data}
	if x509andr.IsEncryptedPEMBlock(plain) {
		t.Violate("IsEncryptedPEMBlock of a plain block is true")
	}
	if _, err := x509andr.DecryptPEMBlock(plain, pw); err == nil {
		t.Violate("DecryptPEMBlock of a plain block succeeds")
	}
}

func (t *T) samePEM(what string, b *pem.Block, pw []byte) {
	x, err := x509andr.DecryptPEMBlock(b, pw)
	y, gerr := x509.DecryptPEMBlock(b, pw)
	if (err == nil) != (gerr == nil) || !bytes.Equal(x, y) {
		t.Violate("%s (%v): %d bytes, %v; crypto/x509: %d bytes, %v", what, b.Headers, len(x), err, len(y), gerr)
	}
	if err == x509andr.IncorrectPasswordError != (gerr == x509.IncorrectPasswordError) {
		t.Violate("%s: %v; crypto/x509: %v", what, err, gerr)
	}
}

// ---- certificates ----

// parseTwo reads a certificate with the package and with crypto/x509 (nil if that does not accept it).
func (t *T) parseTwo(der []byte) (*x509andr.Certificate, *x509.Certificate, error) {
	a, _, err := t.parseBoth(der)
	g, gerr := x509.ParseCertificate(der)
	if gerr != nil {
		t.Note("crypto/x509: %v", gerr)
		g = nil
	}
	return a, g, err
}

func (t *T) genPkixName() pkix.Name {
	n := pkix.Name{CommonName: t.genPlain()}
	list := func(label string) []string {
		var l []string
		for k := pick(t, label, []int{0, 0, 1, 2}); k > 0; k-- {
			l = append(l, t.genPlain()+pick(t, "uni", []string{"", "", "é", "日本"}))
		}
		return l
	}
	if t.Pct("full", 60) {
		n.Country, n.Organization, n.OrganizationalUnit, n.Locality = list("c"), list("o"), list("ou"), list("l")
		n.Province, n.StreetAddress, n.PostalCode = list("st"), list("street"), list("zip")
		if t.Pct("sn", 30) {
			n.SerialNumber = t.genPlain()
		}
	}
	if t.Pct("extra", 20) {
		n.ExtraNames = []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 1}, Value: "a@example.com"}, {Type: asn1.ObjectIdentifier{2, 5, 4, 12}, Value: t.genPlain()}}
	}
	return n
}

func (t *T) genWhen(label string) time.Time {
	y := pick(t, label, []int{1950, 1970, 1999, 2000, 2015, 2030, 2049, 2050, 2051, 2200, 9999})
	w := time.Date(y, time.Month(t.Range(label+"m", 1, 12)), t.Range(label+"d", 1, 28), t.Uni(label+"h", 24), t.Uni(label+"mi", 60), t.Uni(label+"s", 60), 0, time.UTC)
	if t.Pct(label+"zone", 20) && y > 1950 && y < 9999 && y != 2049 && y != 2050 {
		w = w.In(time.FixedZone("", pick(t, label+"off", []int{3600, -30600})))
	}
	return w
}

var c30URLs = []string{"http://example.com/ca.crt", "ldap://ldap.example.com/cn=CA", "http://ocsp.example.org", "http://a.test/%20x?y=1"}

func some[V any](t *T, label string, s []V) []V {
	var r []V
	for k := pick(t, label, []int{0, 0, 1, 1, 2, 3}); k > 0; k-- {
		r = append(r, pick(t, label+".v", s))
	}
	return r
}

func (t *T) genIPs() []net.IP {
	return some(t, "ip", []net.IP{{1, 2, 3, 4}, {255, 255, 255, 255}, net.ParseIP("2001:db8::1"), net.ParseIP("::1"), net.IPv4(10, 0, 0, 1)})
}

func (t *T) genExtra(label string) []pkix.Extension {
	var r []pkix.Extension
	for k := pick(t, label, []int{0, 0, 0, 1, 2}); k > 0; k-- {
		r = append(r, pkix.Extension{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 55555, k, t.Uni(label+"id", 400)}, Critical: t.Pct(label+"crit", 15), Value: t.Bytes(label+"v", 0, 40)})
	}
	return r
}

// genTemplate draws a template that both packages can express.
func (t *T) genTemplate() *x509andr.Certificate {
	c := &x509andr.Certificate{SerialNumber: new(big.Int).SetBytes(cat([]byte{byte(t.Range("s0", 1, 255))}, t.Bytes("serial", 0, 18))), Subject: t.genPkixName(),
		NotBefore: t.genWhen("nb"), NotAfter: t.genWhen("na")}
	if t.Pct("ku", 60) {
		c.KeyUsage = x509andr.KeyUsage(1 + t.Uni("kuv", 511))
	}
	if t.Pct("eku", 40) {
		for _, i := range t.perm(12)[:t.Uni("nek", 5)] {
			c.ExtKeyUsage = append(c.ExtKeyUsage, x509andr.ExtKeyUsage(i))
		}
		if t.Pct("uek", 40) {
			c.UnknownExtKeyUsage = []asn1.ObjectIdentifier{{1, 3, 6, 1, 4, 1, 55555, t.Uni("ueko", 300)}}
		}
	}
	if t.Pct("bc", 60) {
		c.BasicConstraintsValid, c.IsCA = true, t.Pct("ca", 60)
		if c.IsCA {
			switch t.Uni("mpl", 4) {
			case 0:
				c.MaxPathLen = -1
			case 1:
				c.MaxPathLen = t.Range("mplv", 1, 300)
			case 2:
				c.MaxPathLenZero = true
			}
		} else if t.Pct("mplz", 30) { // pointless but possible
			c.MaxPathLenZero = true
		}
	}
	if t.Pct("ski", 50) {
		c.SubjectKeyId = t.Bytes("skiv", 1, 24)
	}
	if t.Pct("aki", 50) {
		c.AuthorityKeyId = t.Bytes("akiv", 1, 24)
	}
	if t.Pct("rest", 70) {
		c.OCSPServer, c.IssuingCertificateURL, c.CRLDistributionPoints = some(t, "ocsp", c30URLs), some(t, "iss", c30URLs), some(t, "crl", c30URLs)
		c.DNSNames, c.EmailAddresses, c.IPAddresses = some(t, "dnsn", []string{"example.com", "*.example.com", "a-b.c.test"}), some(t, "mail", []string{"a@example.com", "b.c@x.test"}), t.genIPs()
		c.PolicyIdentifiers = some(t, "pol", []asn1.ObjectIdentifier{{1, 2, 3}, {2, 23, 140, 1, 2, 1}, {2, 5, 29, 32, 0}})
		if len(c.PolicyIdentifiers) > 1 {
			c.PolicyIdentifiers = c.PolicyIdentifiers[:1]
		}
		c.PermittedDNSDomains, c.ExcludedDNSDomains = some(t, "perm", []string{"example.com", ".example.org", "test"}), some(t, "excl", []string{"bad.example.com", ".bad.test"})
		c.PermittedDNSDomainsCritical = len(c.PermittedDNSDomains)+len(c.ExcludedDNSDomains) > 0 && t.Pct("nccrit", 50)
	}
	c.ExtraExtensions = t.genExtra("xe")
	return c
}

func stdTemplate(c *x509andr.Certificate) *x509.Certificate {
	g := goCert(c)
	g.ExtraExtensions = c.ExtraExtensions
	return g
}

type c30key struct {
	name string
	priv crypto.Signer
	algs []x509andr.SignatureAlgorithm
}

func (t *T) genC30Key(label string) c30key {
	n := pick(t, label, []string{"rsa1024-a", "rsa1024-b", "rsa2048-a", "rsa1031-a", "ec224-a", "ec256-a", "ec256-b", "ec384-a", "ec521-a"})
	return c30keyOf(n)
}

func c30keyOf(n string) c30key {
	k := keyByName[n]
	if k.EC != nil {
		return c30key{n, k.EC, []x509andr.SignatureAlgorithm{0, 0, x509andr.ECDSAWithSHA1, x509andr.ECDSAWithSHA256, x509andr.ECDSAWithSHA384, x509andr.ECDSAWithSHA512}}
	}
	l := []x509andr.SignatureAlgorithm{0, 0, x509andr.SHA1WithRSA, x509andr.SHA256WithRSA, x509andr.SHA384WithRSA, x509andr.SHA512WithRSA, x509andr.SHA256WithRSAPSS, x509andr.SHA384WithRSAPSS}
	if k.RSA.N.BitLen() > 1100 {
		l = append(l, x509andr.SHA512WithRSAPSS)
	}
	return c30key{n, k.RSA, l}
}

// subjectDiff: the name is written as its RDN sequence and read back from it.
func subjectDiff(raw []byte, got, want pkix.Name) string {
	der, err := asn1.Marshal(want.ToRDNSequence())
	if err != nil {
		panic(err)
	}
	if !bytes.Equal(der, raw) {
		return fmt.Sprintf("subject %x instead of %x", raw, der)
	}
	var rdn pkix.RDNSequence
	if _, err := asn1.Unmarshal(der, &rdn); err != nil {
		panic(err)
	}
	var back pkix.Name
	back.FillFromRDNSequence(&rdn)
	return sameNames(got, back)
}

// checkFields compares a parsed certificate with the template it was made from.
func (t *T) checkFields(what string, g *x509.Certificate, c *x509andr.Certificate, pub interface{}) {
	var diff []string
	eq := func(what string, x, y interface{}) {
		if !reflect.DeepEqual(x, y) && !(reflect.ValueOf(x).Kind() == reflect.Slice && reflect.ValueOf(x).Len() == 0 && reflect.ValueOf(y).Len() == 0) {
			diff = append(diff, fmt.Sprintf("%s %v instead of %v", what, x, y))
		}
	}
	if g.SerialNumber.Cmp(c.SerialNumber) != 0 {
		eq("serial", g.SerialNumber, c.SerialNumber)
	}
	if !g.NotBefore.Equal(c.NotBefore) || !g.NotAfter.Equal(c.NotAfter) {
		eq("validity", []time.Time{g.NotBefore, g.NotAfter}, []time.Time{c.NotBefore, c.NotAfter})
	}
	if d := sameKeys(g.PublicKey, pub); d != "" {
		diff = append(diff, d)
	}
	eq("version", g.Version, 3)
	if d := subjectDiff(g.RawSubject, g.Subject, c.Subject); d != "" {
		diff = append(diff, d)
	}
	o := goCert(c)
	if len(c.DNSNames)+len(c.EmailAddresses)+len(c.IPAddresses) == 0 {
		o.DNSNames, o.EmailAddresses, o.IPAddresses = nil, nil, nil
	}
	if !c.BasicConstraintsValid {
		o.IsCA, o.MaxPathLen, o.MaxPathLenZero = false, g.MaxPathLen, g.MaxPathLenZero
	} else if c.MaxPathLen == 0 && !c.MaxPathLenZero {
		o.MaxPathLen = -1
	}
	o.UnhandledCriticalExtensions = nil
	for _, x := range c.ExtraExtensions {
		if x.Critical {
			o.UnhandledCriticalExtensions = append(o.UnhandledCriticalExtensions, x.Id)
		}
	}
	if d := diffExts(g, o, false); d != "" {
		diff = append(diff, d)
	}
	for _, x := range c.ExtraExtensions {
		found := false
		for _, y := range g.Extensions {
			found = found || x.Id.Equal(y.Id) && x.Critical == y.Critical && bytes.Equal(x.Value, y.Value)
		}
		if !found {
			diff = append(diff, fmt.Sprintf("extension %v is missing", x.Id))
		}
	}
	if len(diff) > 0 {
		t.Violate("%s: %s", what, strings.Join(diff, "; "))
	}
}

func c30Certs(t *T) {
	pk, sk := t.genC30Key("pkey"), t.genC30Key("skey")
	parent := &x509andr.Certificate{SerialNumber: big.NewInt(5), Subject: t.genPkixName(), NotBefore: time.Unix(1500000000, 0), NotAfter: time.Unix(1900000000, 0), BasicConstraintsValid: true, IsCA: true, MaxPathLen: -1,
		KeyUsage: x509andr.KeyUsageCertSign}
	if t.Pct("pski", 50) {
		parent.SubjectKeyId = t.Bytes("pskiv", 1, 20)
	}
	tmpl := t.genTemplate()
	tmpl.SignatureAlgorithm = pick(t, "alg", sk.algs)
	d := fmt.Sprintf("key %s signed by %s with %v, template %+v", pk.name, sk.name, tmpl.SignatureAlgorithm, *tmpl)
	if len(d) > 1500 {
		d = d[:1500]
	}
	t.Note("%s", d)
	t.Sample("key %s signed by %s with %v, %d extensions", pk.name, sk.name, tmpl.SignatureAlgorithm, len(tmpl.ExtraExtensions))
	pder, err := x509andr.CreateCertificate(&prng{1}, parent, parent, sk.priv.Public(), sk.priv)
	if err != nil {
		t.Violate("CreateCertificate of the issuer: %v", err)
	}
	pa, pg, err := t.parseTwo(pder)
	if err != nil || pg == nil {
		t.Violate("the issuer's certificate is not accepted: %v", err)
	}
	der, err := x509andr.CreateCertificate(&prng{2}, tmpl, pa, pk.priv.Public(), sk.priv)
	if err != nil {
		t.Violate("CreateCertificate: %v", err)
	}
	t.Attach("cert.der", der)
	t.NonTrivial(der)
	a, g, err := t.parseTwo(der)
	if err != nil {
		t.Violate("ParseCertificate of a certificate that the package made: %v", err)
	}
	if g == nil {
		_, err := x509.ParseCertificate(der)
		t.Violate("crypto/x509 does not accept a certificate that the package made: %v", err)
	}
	want := *tmpl
	if len(pa.SubjectKeyId) > 0 && !bytes.Equal(a.RawIssuer, a.RawSubject) {
		want.AuthorityKeyId = pa.SubjectKeyId
	}
	t.checkFields("read by crypto/x509", g, &want, pk.priv.Public())
	t.checkFields("read by the package", goCert(a), &want, pk.priv.Public())
	if !bytes.Equal(a.RawIssuer, pa.RawSubject) || !bytes.Equal(g.RawIssuer, pa.RawSubject) {
		t.Violate("the issuer is not the parent's subject")
	}
	if want := tmpl.SignatureAlgorithm; want != 0 && a.SignatureAlgorithm != want {
		t.Violate("signature algorithm %v instead of %v", a.SignatureAlgorithm, want)
	}
	sha1 := a.SignatureAlgorithm == x509andr.SHA1WithRSA || a.SignatureAlgorithm == x509andr.ECDSAWithSHA1
	t.Class("%v", a.SignatureAlgorithm)
	t.sameSignature("certificate", a, pa, g, pg, sha1, true)
	// with the roles exchanged
	st := stdTemplate(tmpl)
	st.SignatureAlgorithm = x509.SignatureAlgorithm(tmpl.SignatureAlgorithm)
	if sder, err := x509.CreateCertificate(&prng{3}, st, pg, pk.priv.Public(), sk.priv); err == nil {
		t.Attach("std.der", sder)
		sa, sg, err := t.parseTwo(sder)
		if err != nil || sg == nil {
			t.Violate("a certificate made by crypto/x509 is not accepted: %v", err)
		}
		if d := diffBasic(goCert(sa), sg) + diffExts(goCert(sa), sg, false); d != "" {
			t.Violate("a certificate made by crypto/x509 is read differently: %s", d)
		}
		t.sameSignature("certificate made by crypto/x509", sa, pa, sg, pg, sha1, true)
		t.Class("also made by crypto/x509")
	}
	// one alteration
	root := mustNode(der)
	what := ""
	switch t.Uni("alter", 5) {
	case 0:
		sig := root.kids[2].content
		sig[1+t.Uni("sat", len(sig)-1)] ^= 1 << t.Uni("bit", 8)
		what = "signature bit"
	case 1:
		root.kids[0].kids[1].content = intContent(new(big.Int).Add(tmpl.SerialNumber, big.NewInt(1)))
		what = "serial number"
	case 2:
		other := keyByName[pick(t, "okey", []string{"rsa1024-d", "ec256-c", "rsa2048-c"})]
		root.kids[0].kids[6] = mustNode(other.SPKI)
		what = "public key"
	case 3:
		v := root.kids[0].kids[4].kids[t.Uni("which", 2)]
		v.id, v.content = []byte{0x17}, []byte("330102030405Z")
		what = "validity"
	case 4: // a different algorithm of the same key type
		o := c30keyOf(sk.name).algs
		alg := pick(t, "oalg", o[2:])
		if alg == a.SignatureAlgorithm {
			root.kids[0].kids[1].content = intContent(new(big.Int).Add(tmpl.SerialNumber, big.NewInt(1)))
			what = "serial number"
			break
		}
		x := *tmpl
		x.SignatureAlgorithm = alg
		y, err := x509andr.CreateCertificate(&prng{2}, &x, pa, pk.priv.Public(), sk.priv)
		if err != nil {
			t.Violate("CreateCertificate: %v", err)
		}
		n := mustNode(y)
		root.kids[0].kids[2] = n.kids[1] // the one outside is not looked at
		root.kids[1] = n.kids[1]
		what = "algorithm"
	}
	bad := root.encode(nil)
	if bytes.Equal(bad, der) {
		return
	}
	ba, err := x509andr.ParseCertificate(bad)
	if err != nil {
		return
	}
	t.Class("altered %s", what)
	if ba.CheckSignatureFrom(pa) == nil {
		t.Attach("bad.der", bad)
		t.Violate("the signature of a certificate with an altered %s is valid", what)
	}
}

// sameSignature: the signature is judged alike by both packages.
func (t *T) sameSignature(what string, a, pa *x509andr.Certificate, g, pg *x509.Certificate, sha1, ok bool) {
	err := a.CheckSignatureFrom(pa)
	if (err == nil) != ok {
		t.Violate("%s: CheckSignatureFrom: %v", what, err)
	}
	if err := pa.CheckSignature(a.SignatureAlgorithm, a.RawTBSCertificate, a.Signature); (err == nil) != ok {
		t.Violate("%s: CheckSignature: %v", what, err)
	}
	if !sha1 {
		if gerr := g.CheckSignatureFrom(pg); (gerr == nil) != (err == nil) {
			t.Violate("%s: CheckSignatureFrom: %v, crypto/x509: %v", what, err, gerr)
		}
	}
}

// ---- certificate requests ----

func c30CSR(t *T) {
	k := t.genC30Key("key")
	tmpl := &x509andr.CertificateRequest{Subject: t.genPkixName(), SignatureAlgorithm: pick(t, "alg", k.algs), DNSNames: some(t, "dnsn", []string{"example.com", "*.example.com"}),
		EmailAddresses: some(t, "mail", []string{"a@example.com", "b@x.test"}), IPAddresses: t.genIPs(), ExtraExtensions: t.genExtra("xe")}
	for i := range tmpl.ExtraExtensions {
		tmpl.ExtraExtensions[i].Critical = false
	}
	d := fmt.Sprintf("%s, %v, SANs %v %v %v, %d extra", k.name, tmpl.SignatureAlgorithm, tmpl.DNSNames, tmpl.EmailAddresses, tmpl.IPAddresses, len(tmpl.ExtraExtensions))
	t.Note("%s", d)
	t.Sample("%s", d)
	der, err := x509andr.CreateCertificateRequest(&prng{4}, tmpl, k.priv)
	if err != nil {
		t.Violate("%s: CreateCertificateRequest: %v", d, err)
	}
	t.Attach("csr.der", der)
	t.NonTrivial(der)
	t.checkCSR("own", der, tmpl, k)
	st := &x509.CertificateRequest{Subject: tmpl.Subject, SignatureAlgorithm: x509.SignatureAlgorithm(tmpl.SignatureAlgorithm), DNSNames: tmpl.DNSNames, EmailAddresses: tmpl.EmailAddresses, IPAddresses: tmpl.IPAddresses,
		ExtraExtensions: tmpl.ExtraExtensions}
	if sder, err := x509.CreateCertificateRequest(&prng{5}, st, k.priv); err == nil {
		t.Attach("std.der", sder)
		t.checkCSR("crypto/x509's", sder, tmpl, k)
		t.Class("also made by crypto/x509")
	}
	t.Class("%v", tmpl.SignatureAlgorithm)
	// an altered request
	root := mustNode(der)
	what := "signature"
	if t.Pct("tbs", 50) {
		root.kids[0].kids[2] = mustNode(keyByName["rsa1024-d"].SPKI)
		what = "public key"
	} else {
		sig := root.kids[2].content
		sig[1+t.Uni("sat", len(sig)-1)] ^= 1 << t.Uni("bit", 8)
	}
	if r, err := x509andr.ParseCertificateRequest(root.encode(nil)); err == nil && r.CheckSignature() == nil {
		t.Violate("%s: a request with an altered %s is valid", d, what)
	}
}

func (t *T) checkCSR(what string, der []byte, tmpl *x509andr.CertificateRequest, k c30key) {
	a, err := x509andr.ParseCertificateRequest(der)
	if err != nil {
		t.Violate("%s request: ParseCertificateRequest: %v", what, err)
	}
	g, err := x509.ParseCertificateRequest(der)
	if err != nil {
		t.Violate("%s request: crypto/x509: %v", what, err)
	}
	if err := a.CheckSignature(); err != nil {
		t.Violate("%s request: CheckSignature: %v", what, err)
	}
	if a.SignatureAlgorithm != x509andr.SHA1WithRSA && a.SignatureAlgorithm != x509andr.ECDSAWithSHA1 {
		if err := g.CheckSignature(); err != nil {
			t.Violate("%s request: CheckSignature of crypto/x509: %v", what, err)
		}
	}
	var diff []string
	eq := func(what string, x, y interface{}) {
		if !reflect.DeepEqual(x, y) && !(reflect.ValueOf(x).Kind() == reflect.Slice && reflect.ValueOf(x).Len() == 0 && reflect.ValueOf(y).Len() == 0) {
			diff = append(diff, fmt.Sprintf("%s %v instead of %v", what, x, y))
		}
	}
	ips := func(l []net.IP) (o []string) {
		for _, x := range l {
			o = append(o, x.String())
		}
		return
	}
	if d := subjectDiff(a.RawSubject, a.Subject, tmpl.Subject); d != "" {
		diff = append(diff, d)
	}
	eq("DNS names", a.DNSNames, tmpl.DNSNames)
	eq("DNS names for crypto/x509", g.DNSNames, tmpl.DNSNames)
	eq("e-mail", a.EmailAddresses, tmpl.EmailAddresses)
	eq("e-mail for crypto/x509", g.EmailAddresses, tmpl.EmailAddresses)
	eq("IP", ips(a.IPAddresses), ips(tmpl.IPAddresses))
	eq("IP for crypto/x509", ips(g.IPAddresses), ips(tmpl.IPAddresses))
	eq("raw parts", []string{string(a.Raw), string(a.RawSubject), string(a.RawTBSCertificateRequest), string(a.RawSubjectPublicKeyInfo)}, []string{string(g.Raw), string(g.RawSubject), string(g.RawTBSCertificateRequest), string(g.RawSubjectPublicKeyInfo)})
	eq("signature", a.Signature, g.Signature)
	eq("algorithm", int(a.SignatureAlgorithm), int(g.SignatureAlgorithm))
	eq("version", a.Version, g.Version)
	if d := sameKeys(a.PublicKey, k.priv.Public()); d != "" {
		diff = append(diff, d)
	}
	if len(a.Extensions) != len(g.Extensions) {
		eq("extensions", a.Extensions, g.Extensions)
	}
	for _, x := range tmpl.ExtraExtensions {
		for who, l := range map[string][]pkix.Extension{"the package": a.Extensions, "crypto/x509": g.Extensions} {
			found := false
			for _, y := range l {
				found = found || x.Id.Equal(y.Id) && bytes.Equal(x.Value, y.Value)
			}
			if !found {
				diff = append(diff, fmt.Sprintf("%s does not find extension %v", who, x.Id))
			}
		}
	}
	if len(diff) > 0 {
		t.Violate("%s request: %s", what, strings.Join(diff, "; "))
	}
}

// ---- revocation lists ----

func c30CRL(t *T) {
	k := t.genC30Key("key")
	k.algs = nil
	name := pkix.Name{CommonName: t.genPlain(), Organization: []string{t.genPlain()}, Locality: []string{"x"}} // CreateCRL writes only what pkix.Name can hold
	tmpl := &x509andr.Certificate{SerialNumber: big.NewInt(5), Subject: name, NotBefore: time.Unix(1500000000, 0), NotAfter: time.Unix(1900000000, 0), BasicConstraintsValid: true, IsCA: true, MaxPathLen: -1,
		KeyUsage: x509andr.KeyUsageCRLSign | x509andr.KeyUsageCertSign}
	if t.Pct("ski", 80) {
		tmpl.SubjectKeyId = t.Bytes("skiv", 1, 20)
	}
	pder, err := x509andr.CreateCertificate(&prng{1}, tmpl, tmpl, k.priv.Public(), k.priv)
	if err != nil {
		t.Violate("CreateCertificate: %v", err)
	}
	pa, pg, err := t.parseTwo(pder)
	if err != nil || pg == nil {
		t.Violate("the issuer's certificate is not accepted: %v", err)
	}
	var rev []pkix.RevokedCertificate
	for n := pick(t, "n", []int{0, 0, 1, 2, 5, 20}); n > 0; n-- {
		r := pkix.RevokedCertificate{SerialNumber: new(big.Int).SetBytes(t.Bytes("rs", 1, 20)), RevocationTime: t.genWhen("rt")}
		if t.Pct("rx", 20) {
			r.Extensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 21}, Value: []byte{10, 1, 1}}}
		}
		rev = append(rev, r)
	}
	now, exp := t.genWhen("now"), t.genWhen("exp")
	d := fmt.Sprintf("%s, %d revoked, %v - %v", k.name, len(rev), now, exp)
	t.Note("%s", d)
	t.Sample("%s", d)
	der, err := pa.CreateCRL(&prng{6}, k.priv, rev, now, exp)
	if err != nil {
		t.Violate("%s: CreateCRL: %v", d, err)
	}
	t.Attach("list.crl", der)
	t.NonTrivial(der)
	t.Class("%s", k.name)
	form := "DER"
	in := der
	if t.Pct("pem", 50) {
		in = pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: der})
		form = "PEM"
	}
	l, err := x509andr.ParseCRL(in)
	if err != nil {
		t.Violate("%s: ParseCRL of the %s form: %v", d, form, err)
	}
	if err := pa.CheckCRLSignature(l); err != nil {
		t.Violate("%s: CheckCRLSignature: %v", d, err)
	}
	g, err := x509.ParseRevocationList(der)
	if err != nil {
		t.Violate("%s: crypto/x509: %v", d, err)
	}
	if err := g.CheckSignatureFrom(pg); err != nil {
		t.Violate("%s: crypto/x509: %v", d, err)
	}
	if !g.ThisUpdate.Equal(now) || !g.NextUpdate.Equal(exp) || !l.TBSCertList.ThisUpdate.Equal(now) || !l.TBSCertList.NextUpdate.Equal(exp) {
		t.Violate("%s: times %v - %v, crypto/x509 %v - %v", d, l.TBSCertList.ThisUpdate, l.TBSCertList.NextUpdate, g.ThisUpdate, g.NextUpdate)
	}
	if !bytes.Equal(g.RawIssuer, pa.RawSubject) {
		t.Violate("%s: another issuer", d)
	}
	check := func(who string, got []pkix.RevokedCertificate) {
		if len(got) != len(rev) {
			t.Violate("%s: %s finds %d revoked certificates", d, who, len(got))
		}
		for i, r := range got {
			if r.SerialNumber.Cmp(rev[i].SerialNumber) != 0 || !r.RevocationTime.Equal(rev[i].RevocationTime) || len(r.Extensions) != len(rev[i].Extensions) {
				t.Violate("%s: %s reads revoked certificate %d as %v, want %v", d, who, i, r, rev[i])
			}
		}
	}
	check("the package", l.TBSCertList.RevokedCertificates)
	check("crypto/x509", g.RevokedCertificates)
	// a list made by crypto/x509
	x := &x509.RevocationList{Number: big.NewInt(7), ThisUpdate: now, NextUpdate: exp}
	for _, r := range rev {
		x.RevokedCertificates = append(x.RevokedCertificates, r)
	}
	if sder, err := x509.CreateRevocationList(&prng{7}, x, pg, k.priv); err == nil {
		l, err := x509andr.ParseDERCRL(sder)
		if err != nil {
			t.Violate("%s: ParseDERCRL of a list made by crypto/x509: %v", d, err)
		}
		if err := pa.CheckCRLSignature(l); err != nil {
			t.Violate("%s: CheckCRLSignature of a list made by crypto/x509: %v", d, err)
		}
		check("the package", l.TBSCertList.RevokedCertificates)
		t.Class("also made by crypto/x509")
	}
	// altered lists
	root := mustNode(der)
	if len(rev) > 0 && t.Pct("tbs", 60) {
		e := root.find(func(n *node) bool {
			return len(n.kids) >= 2 && n.kids[0].id[0] == 2 && n.kids[1].id[0]|1 == 0x19-2|1 && n != root
		})
		for _, n := range root.kids[0].kids {
			if len(n.kids) > 0 && len(n.kids[0].kids) >= 2 && n.kids[0].kids[0].id[0] == 2 {
				e = n.kids[0]
			}
		}
		if e == nil {
			return
		}
		e.kids[0].content = intContent(new(big.Int).Add(rev[0].SerialNumber, big.NewInt(1)))
	} else {
		sig := root.kids[2].content
		sig[1+t.Uni("sat", len(sig)-1)] ^= 1 << t.Uni("bit", 8)
	}
	if l, err := x509andr.ParseDERCRL(root.encode(nil)); err == nil && pa.CheckCRLSignature(l) == nil {
		t.Violate("%s: an altered list is valid", d)
	}
}

// ---- chains ----

type c30node struct {
	name  string
	key   c30key
	tmpl  *x509andr.Certificate
	issue *c30node // nil: self-signed
	der   []byte
	a     *x509andr.Certificate
	g     *x509.Certificate
}

func (t *T) c30make(n *c30node) {
	parent, key := n.tmpl, n.key
	if n.issue != nil {
		parent, key = n.issue.tmpl, n.issue.key
	}
	der, err := x509andr.CreateCertificate(&prng{8}, n.tmpl, parent, n.key.priv.Public(), key.priv)
	if err != nil {
		t.Violate("CreateCertificate %s: %v", n.name, err)
	}
	n.der = der
	n.parse(t)
}

func (n *c30node) parse(t *T) {
	a, g, err := t.parseTwo(n.der)
	if err != nil || g == nil {
		t.Violate("certificate %s is not accepted: %v", n.name, err)
	}
	n.a, n.g = a, g
}

var chainKeys = []string{"ec256-a", "ec256-b", "ec256-c", "ec256-d", "ec256-e", "ec256-f", "rsa1024-a", "rsa1024-b", "ec384-a", "ec384-b"}

// c30Chains: a path of CAs with odd ones among them, look-alikes beside it; the verdict is that of crypto/x509.
func c30Chains(t *T) {
	now := time.Date(2020, 6, 1, 0, 0, 0, 0, time.UTC)
	depth := t.Range("depth", 0, 4) // CAs between root and leaf
	keys := t.perm(len(chainKeys))
	host := pick(t, "host", []string{"www.example.com", "a.b.example.com", "example.com", "bad.test"})
	var path []*c30node
	d := fmt.Sprintf("%d intermediates, host %s;", depth, host)
	for i := 0; i <= depth+1; i++ {
		n := &c30node{name: fmt.Sprintf("level %d", i), key: c30keyOf(chainKeys[keys[i]])}
		c := &x509andr.Certificate{SerialNumber: big.NewInt(int64(100 + i)), Subject: pkix.Name{CommonName: fmt.Sprintf("node %d", i), Organization: []string{"chain"}}, NotBefore: now.AddDate(-1, 0, 0), NotAfter: now.AddDate(1, 0, 0)}
		n.tmpl = c
		if t.Pct("same subject", 6) && i > 0 {
			c.Subject = path[i-1].tmpl.Subject
			d += fmt.Sprintf(" %d has the subject of %d", i, i-1)
		}
		leaf := i == depth+1
		if !leaf {
			c.BasicConstraintsValid, c.IsCA, c.MaxPathLen = true, true, -1
			if t.Pct("ku", 50) {
				c.KeyUsage = x509andr.KeyUsageCertSign | x509andr.KeyUsageCRLSign
			}
			if t.Pct("ski", 60) {
				c.SubjectKeyId = []byte{1, 2, byte(i)}
			}
			switch t.Uni("odd", 22) {
			case 0:
				c.IsCA, c.MaxPathLen = false, 0
				d += fmt.Sprintf(" %d is no CA", i)
			case 1:
				c.BasicConstraintsValid, c.IsCA, c.MaxPathLen = false, false, 0
				d += fmt.Sprintf(" %d has no basic constraints", i)
			case 2:
				c.KeyUsage = x509andr.KeyUsageDigitalSignature
				d += fmt.Sprintf(" %d may not sign certificates", i)
			case 3, 4, 5:
				c.MaxPathLen = t.Uni("mpl", 4)
				c.MaxPathLenZero = c.MaxPathLen == 0
				d += fmt.Sprintf(" %d has path length %d", i, c.MaxPathLen)
			case 6:
				c.PermittedDNSDomains = []string{pick(t, "perm", []string{"example.com", ".example.com", "other.test", "b.example.com", "ample.com"})}
				d += fmt.Sprintf(" %d permits %v", i, c.PermittedDNSDomains)
			case 7:
				c.ExcludedDNSDomains = []string{pick(t, "excl", []string{"example.com", ".example.com", "other.test", "b.example.com", "ample.com"})}
				d += fmt.Sprintf(" %d excludes %v", i, c.ExcludedDNSDomains)
			}
		} else {
			c.DNSNames = []string{host}
		}
		switch t.Uni("time", 20) {
		case 0:
			c.NotAfter = now.Add(-time.Duration(t.Uni("ago", 2)) * time.Second)
			d += fmt.Sprintf(" %d ended %v", i, c.NotAfter)
		case 1:
			c.NotBefore = now.Add(time.Duration(t.Uni("ahead", 2)) * time.Second)
			d += fmt.Sprintf(" %d begins %v", i, c.NotBefore)
		}
		if t.Pct("eku", 25) {
			c.ExtKeyUsage = some(t, "ekus", []x509andr.ExtKeyUsage{x509andr.ExtKeyUsageServerAuth, x509andr.ExtKeyUsageServerAuth, x509andr.ExtKeyUsageClientAuth, x509andr.ExtKeyUsageAny, x509andr.ExtKeyUsageCodeSigning})
			if t.Pct("ueku", 20) {
				c.UnknownExtKeyUsage = []asn1.ObjectIdentifier{{1, 2, 3, 4}}
			}
			d += fmt.Sprintf(" %d usages %v", i, c.ExtKeyUsage)
		}
		if i > 0 {
			n.issue = path[i-1]
		}
		t.c30make(n)
		path = append(path, n)
	}
	leaf := path[depth+1]
	// alter one certificate after it was signed
	if t.Pct("alter", 25) {
		i := t.Uni("which", len(path))
		n := path[i]
		root := mustNode(n.der)
		if t.Pct("sig", 50) {
			sig := root.kids[2].content
			sig[1+t.Uni("sat", len(sig)-1)] ^= 1 << t.Uni("bit", 8)
			d += fmt.Sprintf(" %d has an altered signature", i)
		} else {
			root.kids[0].kids[1].content = intContent(big.NewInt(999))
			d += fmt.Sprintf(" %d has an altered serial number", i)
		}
		n.der = root.encode(nil)
		if _, err := x509.ParseCertificate(n.der); err != nil {
			return
		}
		n.parse(t)
	}
	// look-alikes: the names of a CA with another key
	nodes := append([]*c30node{}, path[:depth+1]...)
	for k := t.Uni("alike", 3); k > 0; k-- {
		o := path[t.Uni("of", depth+1)]
		x := *o.tmpl
		if t.Pct("noski", 50) {
			x.SubjectKeyId = nil
		} else if x.SubjectKeyId != nil {
			x.SubjectKeyId = []byte{9, 9}
		}
		n := &c30node{name: "look-alike of " + o.name, key: c30keyOf(chainKeys[keys[9-k]]), tmpl: &x, issue: o.issue}
		t.c30make(n)
		nodes = append(nodes, n)
		d += " " + n.name
	}
	ar, gr, ai, gi := x509andr.NewCertPool(), x509.NewCertPool(), x509andr.NewCertPool(), x509.NewCertPool()
	for _, i := range t.perm(len(nodes)) {
		n := nodes[i]
		root := n == path[0]
		if n != path[0] && t.Pct("missing", 6) {
			d += " without " + n.name
			continue
		}
		if root && t.Pct("noroot", 8) || !root && t.Pct("trusted", 8) {
			root = !root
			d += fmt.Sprintf(" %s trusted=%v", n.name, root)
		}
		if root {
			ar.AddCert(n.a)
			gr.AddCert(n.g)
		} else {
			ai.AddCert(n.a)
			gi.AddCert(n.g)
		}
	}
	name := host
	if t.Pct("othername", 15) {
		name = pick(t, "asked", []string{"www.example.com", "other.test", "WWW.Example.COM"})
	}
	constrained := false
	for _, n := range nodes {
		constrained = constrained || len(n.tmpl.PermittedDNSDomains)+len(n.tmpl.ExcludedDNSDomains) > 0
	}
	if constrained {
		name = host // what is constrained: the name in the certificate or the one asked for; keep them equal
	}
	var usages []int
	for k := t.Uni("nu", 3); k > 0; k-- {
		usages = append(usages, pick(t, "usage", []int{1, 2, 3, 0}))
	}
	ao := x509andr.VerifyOptions{Roots: ar, Intermediates: ai, DNSName: name, CurrentTime: now}
	gopt := x509.VerifyOptions{Roots: gr, Intermediates: gi, DNSName: name, CurrentTime: now}
	for _, u := range usages {
		ao.KeyUsages = append(ao.KeyUsages, x509andr.ExtKeyUsage(u))
		gopt.KeyUsages = append(gopt.KeyUsages, x509.ExtKeyUsage(u))
	}
	d += fmt.Sprintf(" asked for %s, usages %v", name, usages)
	t.Note("%s", d)
	t.Sample("%s", d)
	for _, n := range append(nodes, leaf) {
		t.Attach(strings.ReplaceAll(n.name, " ", "-")+".der", n.der)
	}
	t.NonTrivial(leaf.der, d)
	ac, aerr := leaf.a.Verify(ao)
	gc, gerr := leaf.g.Verify(gopt)
	t.Class("depth %d valid=%v", depth, gerr == nil)
	if (aerr == nil) != (gerr == nil) {
		t.Violate("%s: Verify: %v; crypto/x509: %v", d, aerr, gerr)
	}
	if aerr == nil {
		show := func(ders [][]byte) (s string) {
			for _, b := range ders {
				for _, n := range append(nodes, leaf) {
					if bytes.Equal(b, n.der) {
						s += n.name + "; "
						break
					}
				}
			}
			return
		}
		as, gs := map[string]bool{}, map[string]bool{}
		for _, c := range ac {
			var l [][]byte
			for _, x := range c {
				l = append(l, x.Raw)
			}
			as[show(l)] = true
		}
		for _, c := range gc {
			var l [][]byte
			for _, x := range c {
				l = append(l, x.Raw)
			}
			gs[show(l)] = true
		}
		if !reflect.DeepEqual(as, gs) {
			t.Violate("%s: chains %v; crypto/x509: %v", d, as, gs)
		}
	}
}

// c30Hosts: names in certificates against names asked for.
func c30Hosts(t *T) {
	c := &x509andr.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "someone"}, NotBefore: time.Unix(1500000000, 0), NotAfter: time.Unix(1900000000, 0)}
	labels := []string{"a", "b", "www", "example", "com", "x-y", "A", "Example", "1"}
	host := func(label string, wild bool) string {
		var p []string
		for k := t.Range(label+"n", 1, 4); k > 0; k-- {
			p = append(p, pick(t, label, labels))
		}
		if wild && len(p) > 1 && t.Pct("wild", 40) { // "*" alone: crypto/x509 has since become stricter
			p[0] = "*"
		}
		return strings.Join(p, ".")
	}
	for k := t.Range("names", 1, 3); k > 0; k-- {
		c.DNSNames = append(c.DNSNames, host("n", true))
	}
	c.IPAddresses = t.genIPs()
	k := c30keyOf("ec256-a")
	der, err := x509andr.CreateCertificate(&prng{1}, c, c, k.priv.Public(), k.priv)
	if err != nil {
		t.Violate("CreateCertificate: %v", err)
	}
	a, g, err := t.parseTwo(der)
	if err != nil || g == nil {
		t.Class("unusual names")
		return
	}
	t.NonTrivial(der)
	t.Sample("names %v %v", c.DNSNames, c.IPAddresses)
	for i := 0; i < 8; i++ {
		h := host("h", false)
		switch t.Uni("hk", 6) {
		case 0:
			h = pick(t, "hip", []string{"1.2.3.4", "255.255.255.255", "2001:db8::1", "[2001:db8::1]", "[::1]", "10.0.0.1", "::ffff:1.2.3.4", "[1.2.3.4]", "1.2.3.5"})
		case 1, 2:
			h = pick(t, "derived", c.DNSNames)
			h = strings.Replace(h, "*", pick(t, "star", []string{"a", "www", "x-y"}), 1)
			switch t.Uni("change", 5) {
			case 0:
				h = strings.ToUpper(h)
			case 1:
				h = "a." + h
			case 2:
				h = h + "."
			case 3:
				if j := strings.IndexByte(h, '.'); j > 0 {
					h = h[j+1:]
				}
			}
		}
		t.Evals(1)
		aerr, gerr := a.VerifyHostname(h), g.VerifyHostname(h)
		t.Class("match=%v", gerr == nil)
		if (aerr == nil) != (gerr == nil) {
			t.Attach("cert.der", der)
			t.Violate("VerifyHostname(%q) with names %v %v: %v; crypto/x509: %v", h, c.DNSNames, c.IPAddresses, aerr, gerr)
		}
	}
}

func init() {
	register("C30", "a case counts if a key, PEM block, certificate, request, revocation list or chain was written and read back; distinct by its bytes",
		Sub{"keys", 4000, 60000, c30Keys},
		Sub{"pem", 10000, 150000, c30PEM},
		Sub{"certs", 6000, 100000, c30Certs},
		Sub{"csr", 4000, 60000, c30CSR},
		Sub{"crl", 4000, 40000, c30CRL},
		Sub{"chains", 10000, 150000, c30Chains},
		Sub{"pool", 4000, 60000, c30Pool},
		Sub{"hosts", 8000, 60000, c30Hosts})
}

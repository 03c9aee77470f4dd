package main

import (
	"bytes"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net"
	"reflect"
	"strings"
	"time"

	"github.com/avast/apkverifier/internal/x509andr"
)

// xcert is an X.509 certificate made from parts; its signature is not meant to verify.
type xcert struct {
	Serial, SigAlg, Issuer, NotBefore, NotAfter, Subject, SPKI []byte
	Version                                                    int // 1, 2 or 3
	IssuerID, SubjectID                                        []byte
	Exts                                                       [][]byte
	Sig                                                        []byte

	kind string // of the key
}

func (c *xcert) TBS() []byte {
	var ver, iid, sid, exts []byte
	if c.Version > 1 {
		ver = tlv(0xa0, dint(int64(c.Version-1)))
	}
	if c.IssuerID != nil {
		iid = tlv(0x81, []byte{0}, c.IssuerID)
	}
	if c.SubjectID != nil {
		sid = tlv(0x82, []byte{0}, c.SubjectID)
	}
	if len(c.Exts) > 0 {
		exts = tlv(0xa3, dseq(c.Exts...))
	}
	return dseq(ver, dintRaw(c.Serial), c.SigAlg, c.Issuer, dseq(c.NotBefore, c.NotAfter), c.Subject, c.SPKI, iid, sid, exts)
}

func (c *xcert) DER() []byte { return dseq(c.TBS(), c.SigAlg, dbits(c.Sig)) }

var nameOIDs = []string{oidCN, oidC, oidL, oidST, oidO, oidOU, "2.5.4.5", "2.5.4.9", "2.5.4.17", "1.2.840.113549.1.9.1", "0.9.2342.19200300.100.1.25", "2.5.4.3.1", "2.5.4.99", "2.5.4.42", "1.3"}

// genName draws a distinguished name over the string types that both parsers know.
func (t *T) genDN() Name {
	var n Name
	for k := pick(t, "rdns", []int{0, 1, 1, 2, 3, 5, 8}); k > 0; k-- {
		var r []nameAttr
		for j := pick(t, "avs", []int{1, 1, 1, 2, 3}); j > 0; j-- {
			a := nameAttr{OID: pick(t, "noid", nameOIDs)}
			switch t.Uni("ntype", 7) {
			case 0, 1:
				a.Tag, a.Val = 0x13, []byte(t.genPlain())
			case 2, 3:
				a.Tag, a.Val = 0x0c, []byte(t.genPlain()+pick(t, "nuni", []string{"", "ä", "日本", "\U0001f600", ", +\"\\<>;#", "\x00"}))
			case 4:
				a.Tag, a.Val = 0x16, []byte(t.genPlain()+pick(t, "nia5", []string{"", "@example.com", "_&*;"}))
			case 5:
				a.Tag = 0x1e
				for _, c := range []rune(t.genPlain() + pick(t, "nbmp", []string{"", "ž", "日", "\u0000"})) {
					a.Val = append(a.Val, byte(c>>8), byte(c))
				}
			case 6:
				if t.Pct("t61", 50) {
					a.Tag, a.Val = 0x14, []byte(t.genPlain()+pick(t, "nt61", []string{"", "\xe9"}))
				} else {
					a.Tag, a.Val = 0x12, []byte("0123 456")
				}
			}
			r = append(r, a)
		}
		n = append(n, r)
	}
	return n
}

func (t *T) genPlain() string {
	p := &prng{t.Seed("plain")}
	b := make([]byte, pick(t, "plainlen", []int{0, 1, 3, 10, 40, 130}))
	for i := range b {
		b[i] = printableSet[p.n(len(printableSet))]
	}
	return string(b)
}

func (t *T) genX509Time(label string) []byte {
	y := t.Range(label+"y", 1950, 2049)
	d := fmt.Sprintf("%02d%02d", t.Range(label+"m", 1, 12), t.Range(label+"d", 1, 28))
	h := fmt.Sprintf("%02d%02d%02d", t.Uni(label+"h", 24), t.Uni(label+"mi", 60), t.Uni(label+"s", 60))
	switch t.Uni(label+"form", 6) {
	case 0:
		return genTime(fmt.Sprintf("%04d%s%sZ", pick(t, label+"gy", []int{1, 1900, 1949, 1950, 2000, 2049, 2050, 2200, 9999}), d, h))
	case 1:
		return genTime(fmt.Sprintf("%04d%s%sZ", y, d, h))
	case 2:
		return utcTime(fmt.Sprintf("%02d%s%sZ", y%100, d, h[:4]))
	case 3:
		return utcTime(fmt.Sprintf("%02d%s%s%s", y%100, d, h, pick(t, label+"z", []string{"+0100", "-0830", "+0000"})))
	}
	return utcTime(fmt.Sprintf("%02d%s%sZ", y%100, d, h))
}

// genSPKI draws a public key; RSA moduli need not belong to a key pair.
func (t *T) genSPKI() (spki []byte, kind string, modulus []byte) {
	if t.Pct("rsaany", 35) {
		n := bulk(t.Seed("modseed"), pick(t, "modlen", []int{1, 16, 64, 128, 129, 256, 512}))
		n[len(n)-1] |= 1
		switch t.Uni("modtop", 4) {
		case 0:
			n[0] |= 0x80
		case 1:
			n[0] = 0xff
			if len(n) > 1 {
				n[1] &= 0x7f
			}
		case 2:
			n[0] = n[0]&0x7f | 1
		case 3:
			n[0] = 0x80
		}
		e := new(big.Int).SetInt64(pick(t, "rsae", []int64{3, 17, 65537, 1<<31 - 1}))
		return rsaSPKI(dbig(new(big.Int).SetBytes(n)), dbig(e), dnull()), "rsa", n
	}
	k := t.genKey("xkey")
	return k.SPKI, k.Kind, nil
}

func rsaSPKI(n, e, params []byte) []byte {
	return dseq(algID("1.2.840.113549.1.1.1", params), dbits(dseq(n, e)))
}

// genXSigAlg draws a signature algorithm identifier.
func (t *T) genXSigAlg() []byte {
	switch t.Uni("xsig", 8) {
	case 0, 1, 2:
		return algID(pick(t, "xrsa", []string{"1.2.840.113549.1.1.5", "1.2.840.113549.1.1.11", "1.2.840.113549.1.1.12", "1.2.840.113549.1.1.13", "1.2.840.113549.1.1.4", "1.3.14.3.2.29"}), dnull())
	case 3:
		return algID(pick(t, "xec", []string{"1.2.840.10045.4.1", "1.2.840.10045.4.3.2", "1.2.840.10045.4.3.3", "1.2.840.10045.4.3.4", "1.2.840.10045.4.3.1"}), nil)
	case 4:
		return algID(pick(t, "xdsa", []string{"1.2.840.10040.4.3", "2.16.840.1.101.3.4.3.2", "2.16.840.1.101.3.4.3.1"}), nil)
	case 5, 6: // RSASSA-PSS
		i := t.Uni("psshash", 3)
		h := algID([]string{"2.16.840.1.101.3.4.2.1", "2.16.840.1.101.3.4.2.2", "2.16.840.1.101.3.4.2.3"}[i], dnull())
		salt := []int64{32, 48, 64}[i]
		mh, trailer := h, []byte(nil)
		switch t.Uni("pssodd", 6) {
		case 0:
			salt++
		case 1:
			mh = algID("1.3.14.3.2.26", dnull())
		case 2:
			trailer = tlv(0xa3, dint(pick(t, "psstrail", []int64{1, 2})))
		}
		return algID("1.2.840.113549.1.1.10", dseq(tlv(0xa0, h), tlv(0xa1, algID("1.2.840.113549.1.1.8", mh)), tlv(0xa2, dint(salt)), trailer))
	}
	return algID(pick(t, "xodd", []string{"1.2.3.4", "1.2.840.113549.1.1.14", "2.5.8.1.1"}), pick(t, "xparams", [][]byte{nil, {5, 0}}))
}

// genExts draws extensions; known ones are well formed.
func (t *T) genExts() [][]byte {
	var out [][]byte
	seen := map[string]bool{}
	ext := func(oid string, critical bool, v []byte) {
		if seen[oid] {
			return
		}
		seen[oid] = true
		var c []byte
		if critical {
			c = dbool(true)
		}
		out = append(out, dseq(doid(oid), c, doct(v)))
	}
	crit := func() bool { return t.Pct("crit", 40) }
	uri := func() []byte { return tlv(0x86, []byte("http://example.com/"+t.genDNS())) }
	for n := t.Uni("exts", 7); n > 0; n-- {
		switch t.Uni("ext", 13) {
		case 0: // key usage
			b := []byte{byte(t.bits(8, "ku")), byte(t.bits(8, "ku2")) & 0x80}
			if b[1] == 0 || t.Pct("ku1", 50) {
				b = b[:1]
			}
			u := t.Uni("kuu", 8)
			b[len(b)-1] &^= 1<<u - 1
			ext("2.5.29.15", crit(), tlv(3, []byte{byte(u)}, b))
		case 1:
			var c []byte
			if t.Pct("ca", 60) {
				c = dbool(true)
				if t.Pct("pathlen", 60) {
					c = cat(c, dint(pick(t, "plen", []int64{0, 1, 5, 127, 128, 1000})))
				}
			}
			ext("2.5.29.19", crit(), dseq(c))
		case 2: // SAN
			var names [][]byte
			for k := t.Range("sans", 1, 4); k > 0; k-- {
				switch t.Uni("san", 5) {
				case 0:
					names = append(names, tlv(0x82, []byte(t.genDNS())))
				case 1:
					names = append(names, tlv(0x81, []byte("a@"+t.genDNS())))
				case 2:
					names = append(names, tlv(0x87, t.Bytes("ip4", 4, 4)))
				case 3:
					names = append(names, tlv(0x87, t.Bytes("ip6", 16, 16)))
				case 4:
					names = append(names, tlv(0xa4, t.genDN().DER()))
				}
			}
			ext("2.5.29.17", crit(), dseq(names...))
		case 3: // name constraints over DNS names
			sub := func(tag byte) []byte {
				var l [][]byte
				for k := t.Uni("nc", 3); k > 0; k-- {
					l = append(l, dseq(tlv(0x82, []byte(t.genDNS()))))
				}
				if len(l) == 0 {
					return nil
				}
				return tlv(tag, l...)
			}
			if v := cat(sub(0xa0), sub(0xa1)); len(v) > 0 {
				ext("2.5.29.30", crit(), dseq(v))
			}
		case 4: // CRL distribution points with at most one URI each
			var l [][]byte
			for k := t.Range("dps", 1, 3); k > 0; k-- {
				switch t.Uni("dp", 3) {
				case 0:
					l = append(l, dseq(tlv(0xa0, tlv(0xa0, uri()))))
				case 1:
					l = append(l, dseq(tlv(0x81, []byte{0, 0xff}), tlv(0xa2, tlv(0xa4, cnName("x").DER()))))
				case 2:
					l = append(l, dseq(tlv(0xa0, tlv(0xa0, tlv(0xa4, cnName("y").DER())))))
				}
			}
			ext("2.5.29.31", crit(), dseq(l...))
		case 5:
			ext("2.5.29.35", false, dseq(tlv(0x80, t.Bytes("aki", 1, 24))))
		case 6:
			var l [][]byte
			for k := t.Range("ekus", 1, 5); k > 0; k-- {
				l = append(l, doid(pick(t, "eku", []string{"2.5.29.37.0", "1.3.6.1.5.5.7.3.1", "1.3.6.1.5.5.7.3.2", "1.3.6.1.5.5.7.3.3", "1.3.6.1.5.5.7.3.4", "1.3.6.1.5.5.7.3.5", "1.3.6.1.5.5.7.3.6", "1.3.6.1.5.5.7.3.7",
					"1.3.6.1.5.5.7.3.8", "1.3.6.1.5.5.7.3.9", "1.3.6.1.4.1.311.10.3.3", "2.16.840.1.113730.4.1", "1.2.3.4", "1.3.6.1.5.5.7.3.10"})))
			}
			ext("2.5.29.37", crit(), dseq(l...))
		case 7:
			ext("2.5.29.14", false, doct(t.Bytes("ski", 0, 24)))
		case 8:
			var l [][]byte
			for _, k := range t.perm(4)[:t.Range("pols", 1, 4)] {
				var q []byte
				if t.Pct("qual", 30) {
					q = dseq(dseq(doid("1.3.6.1.5.5.7.2.1"), tlv(0x16, []byte("http://cps"))))
				}
				l = append(l, dseq(doid([]string{"2.5.29.32.0", "2.23.140.1.2.1", "1.2.3.4.5", "1.3.6.1.4.1.99999.1"}[k]), q))
			}
			ext("2.5.29.32", crit(), dseq(l...))
		case 9:
			var l [][]byte
			for k := t.Range("aias", 1, 3); k > 0; k-- {
				loc := uri()
				if t.Pct("aiadir", 20) {
					loc = tlv(0xa4, cnName("z").DER())
				}
				l = append(l, dseq(doid(pick(t, "aiam", []string{"1.3.6.1.5.5.7.48.1", "1.3.6.1.5.5.7.48.2", "1.3.6.1.5.5.7.48.3"})), loc))
			}
			ext("1.3.6.1.5.5.7.1.1", false, dseq(l...))
		default:
			ext(pick(t, "xoid", []string{"1.2.3.4", "2.5.29.99", "1.3.6.1.4.1.11129.2.4.2", "2.5.29.16", "2.5.29"}), crit(), t.Bytes("xval", 0, 200))
		}
	}
	return out
}

func (t *T) genDNS() string {
	return pick(t, "dns", []string{"example.com", "a.b.example.org", "localhost", "xn--bcher-kva.example", "a-1.test", "x.y"})
}

func (t *T) genXCert() *xcert {
	c := &xcert{SigAlg: t.genXSigAlg(), Issuer: t.genDN().DER(), Subject: t.genDN().DER(), NotBefore: t.genX509Time("nb"), NotAfter: t.genX509Time("na"),
		Version: pick(t, "version", []int{3, 3, 3, 1, 2}), Sig: t.Bytes("sig", 0, pick(t, "siglen", []int{4, 72, 128, 256, 600}))}
	sn := new(big.Int).SetBytes(bulk(t.Seed("serial"), pick(t, "seriallen", []int{0, 1, 2, 8, 9, 16, 20, 40})))
	c.Serial = intContent(sn)
	c.SPKI, c.kind, _ = t.genSPKI()
	if c.Version == 3 {
		c.Exts = t.genExts()
	}
	if c.Version > 1 && t.Pct("uid", 10) {
		c.IssuerID = t.Bytes("iid", 1, 9)
		if t.Pct("uid2", 50) {
			c.SubjectID = t.Bytes("sid", 1, 9)
		}
	}
	return c
}

// ---- comparison with crypto/x509 ----

func sameKeys(a, r interface{}) string {
	switch x := a.(type) {
	case *rsa.PublicKey:
		if y, ok := r.(*rsa.PublicKey); ok && x.E == y.E && x.N.Cmp(y.N) == 0 {
			return ""
		}
	case *ecdsa.PublicKey:
		if y, ok := r.(*ecdsa.PublicKey); ok && x.Curve == y.Curve && x.X.Cmp(y.X) == 0 && x.Y.Cmp(y.Y) == 0 {
			return ""
		}
	case *dsa.PublicKey:
		if y, ok := r.(*dsa.PublicKey); ok && x.P.Cmp(y.P) == 0 && x.Q.Cmp(y.Q) == 0 && x.G.Cmp(y.G) == 0 && x.Y.Cmp(y.Y) == 0 {
			return ""
		}
	case nil:
		if r == nil {
			return ""
		}
	}
	return fmt.Sprintf("public key %T %+v instead of %T %+v", a, a, r, r)
}

// sameNames compares names; T.61 strings keep their bytes in the tested parser.
func sameNames(a, r pkix.Name) string {
	strs := func(what string, x, y []string) string {
		if len(x) != len(y) {
			return fmt.Sprintf("%s %q instead of %q", what, x, y)
		}
		for i := range x {
			if x[i] != y[i] && unlatin(x[i]) != y[i] {
				return fmt.Sprintf("%s %q instead of %q", what, x, y)
			}
		}
		return ""
	}
	for _, p := range []struct {
		what string
		x, y []string
	}{
		{"country", a.Country, r.Country}, {"organization", a.Organization, r.Organization}, {"unit", a.OrganizationalUnit, r.OrganizationalUnit}, {"locality", a.Locality, r.Locality},
		{"province", a.Province, r.Province}, {"street", a.StreetAddress, r.StreetAddress}, {"postal code", a.PostalCode, r.PostalCode},
		{"serial", []string{a.SerialNumber}, []string{r.SerialNumber}}, {"CN", []string{a.CommonName}, []string{r.CommonName}},
	} {
		if d := strs(p.what, p.x, p.y); d != "" {
			return d
		}
	}
	if len(a.Names) != len(r.Names) {
		return fmt.Sprintf("%d names instead of %d", len(a.Names), len(r.Names))
	}
	for i := range a.Names {
		x, ok1 := a.Names[i].Value.(string)
		y, ok2 := r.Names[i].Value.(string)
		if !a.Names[i].Type.Equal(r.Names[i].Type) || ok1 != ok2 || x != y && unlatin(x) != y {
			return fmt.Sprintf("name %v instead of %v", a.Names[i], r.Names[i])
		}
	}
	return ""
}

// goCert copies the fields of the tested parser's certificate type; the kinds of extended key usage are numbered alike.
func goCert(c *x509andr.Certificate) *x509.Certificate {
	g := &x509.Certificate{Raw: c.Raw, RawTBSCertificate: c.RawTBSCertificate, RawSubjectPublicKeyInfo: c.RawSubjectPublicKeyInfo, RawSubject: c.RawSubject, RawIssuer: c.RawIssuer, Signature: c.Signature,
		SignatureAlgorithm: x509.SignatureAlgorithm(c.SignatureAlgorithm), PublicKeyAlgorithm: x509.PublicKeyAlgorithm(c.PublicKeyAlgorithm), PublicKey: c.PublicKey, Version: c.Version, SerialNumber: c.SerialNumber,
		Issuer: c.Issuer, Subject: c.Subject, NotBefore: c.NotBefore, NotAfter: c.NotAfter, KeyUsage: x509.KeyUsage(c.KeyUsage), Extensions: c.Extensions, UnhandledCriticalExtensions: c.UnhandledCriticalExtensions,
		UnknownExtKeyUsage: c.UnknownExtKeyUsage, BasicConstraintsValid: c.BasicConstraintsValid, IsCA: c.IsCA, MaxPathLen: c.MaxPathLen, MaxPathLenZero: c.MaxPathLenZero, SubjectKeyId: c.SubjectKeyId,
		AuthorityKeyId: c.AuthorityKeyId, OCSPServer: c.OCSPServer, IssuingCertificateURL: c.IssuingCertificateURL, DNSNames: c.DNSNames, EmailAddresses: c.EmailAddresses, IPAddresses: c.IPAddresses,
		PermittedDNSDomainsCritical: c.PermittedDNSDomainsCritical, PermittedDNSDomains: c.PermittedDNSDomains, ExcludedDNSDomains: c.ExcludedDNSDomains, CRLDistributionPoints: c.CRLDistributionPoints,
		PolicyIdentifiers: c.PolicyIdentifiers}
	for _, u := range c.ExtKeyUsage {
		g.ExtKeyUsage = append(g.ExtKeyUsage, x509.ExtKeyUsage(u))
	}
	return g
}

// diffBasic compares the fields that every parser must agree on.
func diffBasic(a, r *x509.Certificate) string {
	switch {
	case a.Version != r.Version:
		return fmt.Sprintf("version %d instead of %d", a.Version, r.Version)
	case a.SerialNumber == nil || a.SerialNumber.Cmp(r.SerialNumber) != 0:
		return fmt.Sprintf("serial number %v instead of %v", a.SerialNumber, r.SerialNumber)
	case !a.NotBefore.Equal(r.NotBefore) || !a.NotAfter.Equal(r.NotAfter):
		return fmt.Sprintf("validity %v - %v instead of %v - %v", a.NotBefore, a.NotAfter, r.NotBefore, r.NotAfter)
	case !bytes.Equal(a.Signature, r.Signature):
		return fmt.Sprintf("signature %x instead of %x", a.Signature, r.Signature)
	case a.SignatureAlgorithm != r.SignatureAlgorithm && !(a.SignatureAlgorithm == x509.MD2WithRSA && r.SignatureAlgorithm == x509.UnknownSignatureAlgorithm):
		return fmt.Sprintf("signature algorithm %v instead of %v", a.SignatureAlgorithm, r.SignatureAlgorithm)
	case a.PublicKeyAlgorithm != r.PublicKeyAlgorithm:
		return fmt.Sprintf("key algorithm %v instead of %v", a.PublicKeyAlgorithm, r.PublicKeyAlgorithm)
	}
	if d := sameKeys(a.PublicKey, r.PublicKey); d != "" {
		return d
	}
	if d := sameNames(a.Issuer, r.Issuer); d != "" {
		return "issuer: " + d
	}
	if d := sameNames(a.Subject, r.Subject); d != "" {
		return "subject: " + d
	}
	if r.Version != 3 {
		return "" // crypto/x509 does not look at extensions of older versions
	}
	if len(a.Extensions) != len(r.Extensions) {
		return fmt.Sprintf("%d extensions instead of %d", len(a.Extensions), len(r.Extensions))
	}
	for i, x := range a.Extensions {
		if y := r.Extensions[i]; !x.Id.Equal(y.Id) || x.Critical != y.Critical || !bytes.Equal(x.Value, y.Value) {
			return fmt.Sprintf("extension %v instead of %v", x, y)
		}
	}
	return ""
}

func diffRaw(a, r *x509.Certificate) string {
	for _, p := range []struct {
		what string
		x, y []byte
	}{{"Raw", a.Raw, r.Raw}, {"RawTBSCertificate", a.RawTBSCertificate, r.RawTBSCertificate}, {"RawSubjectPublicKeyInfo", a.RawSubjectPublicKeyInfo, r.RawSubjectPublicKeyInfo},
		{"RawSubject", a.RawSubject, r.RawSubject}, {"RawIssuer", a.RawIssuer, r.RawIssuer}} {
		if !bytes.Equal(p.x, p.y) {
			return fmt.Sprintf("%s %x instead of %x", p.what, p.x, p.y)
		}
	}
	return ""
}

// diffExts compares what the standard extensions say. forGo: converted certificates leave the usages out.
func diffExts(a, r *x509.Certificate, forGo bool) string {
	var diff []string
	eq := func(what string, x, y interface{}) {
		if !reflect.DeepEqual(x, y) && !(reflect.ValueOf(x).Kind() == reflect.Slice && reflect.ValueOf(x).Len() == 0 && reflect.ValueOf(y).Len() == 0) {
			diff = append(diff, fmt.Sprintf("%s %v instead of %v", what, x, y))
		}
	}
	eq("key usage", a.KeyUsage, r.KeyUsage)
	if !forGo {
		eq("extended key usage", a.ExtKeyUsage, r.ExtKeyUsage)
	}
	eq("unknown extended key usage", a.UnknownExtKeyUsage, r.UnknownExtKeyUsage)
	eq("basic constraints", a.BasicConstraintsValid, r.BasicConstraintsValid)
	eq("CA", a.IsCA, r.IsCA)
	eq("path length", a.MaxPathLen, r.MaxPathLen)
	eq("path length zero", a.MaxPathLenZero, r.MaxPathLenZero)
	eq("subject key id", a.SubjectKeyId, r.SubjectKeyId)
	eq("authority key id", a.AuthorityKeyId, r.AuthorityKeyId)
	eq("OCSP", a.OCSPServer, r.OCSPServer)
	eq("issuing certificate", a.IssuingCertificateURL, r.IssuingCertificateURL)
	eq("DNS names", a.DNSNames, r.DNSNames)
	eq("e-mail", a.EmailAddresses, r.EmailAddresses)
	ips := func(l []net.IP) (o []string) {
		for _, x := range l {
			o = append(o, x.String())
		}
		return
	}
	eq("IP", ips(a.IPAddresses), ips(r.IPAddresses))
	eq("permitted", a.PermittedDNSDomains, r.PermittedDNSDomains)
	eq("excluded", a.ExcludedDNSDomains, r.ExcludedDNSDomains)
	eq("constraints critical", a.PermittedDNSDomainsCritical, r.PermittedDNSDomainsCritical)
	eq("CRL", a.CRLDistributionPoints, r.CRLDistributionPoints)
	eq("policies", a.PolicyIdentifiers, r.PolicyIdentifiers)
	eq("unhandled", a.UnhandledCriticalExtensions, r.UnhandledCriticalExtensions)
	return strings.Join(diff, "; ")
}

// knownKey: the kinds of keys that the tested parser reports.
func knownKey(c *x509.Certificate) bool {
	return c.PublicKeyAlgorithm == x509.RSA || c.PublicKeyAlgorithm == x509.DSA || c.PublicKeyAlgorithm == x509.ECDSA
}

func init() {
	register("C18", "crypto/x509 accepts the certificate (standard, mutated) or its strict form (lenient); for framing: the certificate is accepted whole",
		Sub{"standard", 20000, 400000, c18standard},
		Sub{"mutated", 50000, 800000, c18mutated},
		Sub{"lenient", 20000, 400000, c18lenient},
		Sub{"framing", 6000, 100000, c18framing},
		Sub{"keys", 20000, 300000, c18keys},
	)
}

func (t *T) parseBoth(der []byte) (c *x509andr.Certificate, g *x509.Certificate, err error) {
	t.Guard("ParseCertificate", der, func() { c, err = x509andr.ParseCertificate(der) })
	g, gerr := x509andr.ParseCertificateForGo(der)
	if (err != nil) != (gerr != nil) {
		t.Violate("ParseCertificate: %v, ParseCertificateForGo: %v for %x", err, gerr, der)
	}
	if err == nil && (c == nil || g == nil) {
		t.Violate("no certificate and no error for %x", der)
	}
	if err == nil {
		if d := diffBasic(g, goCert(c)) + diffRaw(g, goCert(c)) + diffExts(g, goCert(c), true); d != "" {
			t.Violate("converted certificate of %x: %s", der, d)
		}
	}
	return
}

func c18standard(t *T) {
	x := t.genXCert()
	der := x.DER()
	t.Attach("cert.der", der)
	want, werr := x509.ParseCertificate(der)
	t.Class("%s v%d, reference: %v", x.kind, x.Version, errText(werr))
	if werr != nil {
		return
	}
	t.NonTrivial(der)
	c, _, err := t.parseBoth(der)
	if err != nil {
		t.Violate("certificate rejected (%v): %x", err, der)
		return
	}
	if d := diffBasic(goCert(c), want); d != "" {
		t.Violate("%s in %x", d, der)
	}
	if d := diffRaw(goCert(c), want); d != "" {
		t.Violate("%s in %x", d, der)
	}
	if d := diffExts(goCert(c), want, false); d != "" {
		t.Violate("extensions: %s in %x", d, der)
	}
	t.Sample("%x", der)
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	s := err.Error()
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func c18mutated(t *T) {
	x := t.genXCert()
	if t.Pct("plain", 60) {
		x.Exts = nil
		for n := t.Uni("pe", 3); n > 0; n-- {
			x.Exts = append(x.Exts, dseq(doid(fmt.Sprintf("1.2.3.%d", n)), doct(t.Bytes("pev", 0, 20))))
		}
	}
	root := mustNode(x.DER()).clone()
	var der []byte
	if t.Pct("whole", 30) {
		der = t.mutDER(x.DER(), 2)
	} else { // one part of the certificate proper
		tbs := root.kids[0]
		i := t.Uni("part", len(tbs.kids))
		part := t.mutDER(tbs.kids[i].encode(nil), 2)
		var c []byte
		for j, k := range tbs.kids {
			if j == i {
				c = append(c, part...)
			} else {
				c = append(c, k.encode(nil)...)
			}
		}
		der = dseq(tlv(0x30, c), root.kids[1].encode(nil), root.kids[2].encode(nil))
	}
	t.Attach("cert.der", der)
	want, werr := x509.ParseCertificate(der)
	c, _, err := t.parseBoth(der)
	t.Class("reference %v, tested %v", werr == nil, err == nil)
	if werr != nil {
		return
	}
	t.NonTrivial(der)
	if err != nil {
		if !wellFormedCert(der) {
			t.Class("malformed, but not in the parts that crypto/x509 looks at")
			return
		}
		t.Violate("certificate rejected (%v): %x", err, der)
		return
	}
	if want.SignatureAlgorithm >= x509.SHA256WithRSAPSS && want.SignatureAlgorithm <= x509.SHA512WithRSAPSS && c.SignatureAlgorithm == x509andr.UnknownSignatureAlgorithm {
		want.SignatureAlgorithm = x509.UnknownSignatureAlgorithm // RSASSA-PSS parameters in an unusual form
	}
	if knownKey(want) {
		if d := diffBasic(goCert(c), want); d != "" {
			t.Violate("%s in %x", d, der)
		}
	}
	if d := diffRaw(goCert(c), want); d != "" {
		t.Violate("%s in %x", d, der)
	}
}

// wellFormedCert checks the form of a certificate apart from the contents of extensions; crypto/x509 skips over
// some malformed parts (unique ids, extensions of old versions, data after the key).
func wellFormedCert(der []byte) bool {
	var c struct {
		TBS struct {
			Version  int `asn1:"optional,explicit,default:0,tag:0"`
			Serial   *big.Int
			Alg      pkix.AlgorithmIdentifier
			Issuer   pkix.RDNSequence
			Validity struct{ NotBefore, NotAfter time.Time }
			Subject  pkix.RDNSequence
			SPKI     asn1.RawValue
			ID       asn1.BitString   `asn1:"optional,tag:1"`
			ID2      asn1.BitString   `asn1:"optional,tag:2"`
			Exts     []pkix.Extension `asn1:"optional,explicit,tag:3"`
		}
		Alg pkix.AlgorithmIdentifier
		Sig asn1.BitString
	}
	if rest, err := asn1.Unmarshal(der, &c); err != nil || len(rest) > 0 || !wellFormedKey(c.TBS.SPKI.FullBytes) {
		return false
	}
	for _, e := range c.TBS.Exts {
		if strings.HasPrefix(e.Id.String(), "2.5.29.") || strings.HasPrefix(e.Id.String(), "1.3.6.1.5.5.7.1.") {
			return false
		}
	}
	return true
}

func wellFormedKey(spki []byte) bool {
	var k struct {
		Alg pkix.AlgorithmIdentifier
		Key asn1.BitString
	}
	if rest, err := asn1.Unmarshal(spki, &k); err != nil || len(rest) > 0 {
		return false
	}
	switch k.Alg.Algorithm.String() {
	case "1.2.840.113549.1.1.1":
		var n struct {
			N *big.Int
			E int
		}
		rest, err := asn1.Unmarshal(k.Key.RightAlign(), &n)
		return err == nil && len(rest) == 0
	case "1.2.840.10040.4.1":
		var y *big.Int
		var p struct{ P, Q, G *big.Int }
		rest, err := asn1.Unmarshal(k.Key.RightAlign(), &y)
		rest2, err2 := asn1.Unmarshal(k.Alg.Parameters.FullBytes, &p)
		return err == nil && len(rest) == 0 && err2 == nil && len(rest2) == 0
	case "1.2.840.10045.2.1":
		var o asn1.ObjectIdentifier
		rest, err := asn1.Unmarshal(k.Alg.Parameters.FullBytes, &o)
		return err == nil && len(rest) == 0
	}
	return true
}

// c18lenient: deviations that Android tolerates change no field; the raw sections are those of the input.
func c18lenient(t *T) {
	x := t.genXCert()
	spki, kind, modulus := t.genSPKI()
	for kind != "rsa" && t.Pct("rsaagain", 60) {
		spki, kind, modulus = t.genSPKI()
	}
	x.SPKI, x.kind = spki, kind
	strict := x.DER()
	want, werr := x509.ParseCertificate(strict)
	if werr != nil {
		t.Class("reference: %v", errText(werr))
		return
	}
	what := map[string]bool{}
	kinds := t.Range("lkinds", 1, 31)
	p := &prng{t.Seed("lseed")}
	reenc := false
	if modulus != nil && kinds&16 != 0 {
		// the key's own integers and parameters
		n, e := dbig(new(big.Int).SetBytes(modulus)), dbig(big.NewInt(int64(want.PublicKey.(*rsa.PublicKey).E)))
		params := dnull()
		if modulus[0] >= 0x80 && !(modulus[0] == 0xff && len(modulus) > 1 && modulus[1] >= 0x80) {
			n = dintRaw(modulus)
			what["modulus without sign octet"], reenc = true, true
		}
		if p.n(2) == 0 {
			params = [][]byte{nil, {0x30, 0}, {4, 1, 0}}[p.n(3)]
			what["RSA parameters"] = true
		}
		x.SPKI = rsaSPKI(n, e, params)
	}
	root := mustNode(x.DER()).clone()
	pss := map[*node]bool{} // algorithm parameters are compared as they are
	style := func(n *node, l int) (bool, int) {
		if pss[n] {
			return false, 0
		}
		if kinds&1 != 0 && p.n(3) == 0 {
			what["length"] = true
			return false, 1 + p.n([]int{2, 4, 100}[p.n(3)])
		}
		return false, 0
	}
	tbs := root.kids[0]
	first := 0
	if x.Version > 1 {
		first = 1
	}
	part := func(i int) *node { return tbs.kids[first+i] }
	for _, alg := range []*node{part(1), root.kids[1]} {
		if len(alg.kids) > 1 {
			alg.kids[1].walk(func(n *node) { pss[n] = true })
		}
	}
	// key bits, which hold another encoding
	key := part(5)
	if kinds&2 != 0 && x.kind == "rsa" {
		if k, rest, ok := parseNode(key.kids[1].content[1:]); ok && len(rest) == 0 {
			key.kids[1].content = cat([]byte{0}, k.clone().encode(style))
		}
	}
	unprintable := false
	if kinds&4 != 0 {
		for _, i := range []int{2, 4} {
			part(i).walk(func(n *node) {
				if n.id[0] == 0x13 && len(n.content) > 0 && p.n(2) == 0 {
					n.content = append([]byte(nil), n.content...)
					n.content[p.n(len(n.content))] = "\x00@_\n~#"[p.n(6)]
					what["PrintableString"], unprintable = true, true
				}
			})
		}
	}
	// the strict reading of the strings: UTF8String
	if unprintable {
		s := root.clone()
		for _, i := range []int{2, 4} {
			s.kids[0].kids[first+i].walk(func(n *node) {
				if n.id[0] == 0x13 {
					n.id = []byte{0x0c}
				}
			})
		}
		y := *x
		y.Issuer, y.Subject, y.SPKI = s.kids[0].kids[first+2].encode(nil), s.kids[0].kids[first+4].encode(nil), spki
		if want, werr = x509.ParseCertificate(y.DER()); werr != nil {
			t.Violate("harness: strict form %x rejected: %v", y.DER(), werr)
			return
		}
	}
	if kinds&8 != 0 {
		root.walk(func(n *node) {
			switch {
			case pss[n]:
			case n.id[0] == 6 && p.n(4) == 0:
				n.content = padOID(n.content, p)
				what["OID"] = true
			case p.n(6) == 0:
				tag := n.id[0] & 0x1f
				if tag < 0x1f {
					n.id = cat([]byte{n.id[0] | 0x1f}, bytes.Repeat([]byte{0x80}, p.n(3)), []byte{tag})
					what["tag"] = true
				}
			}
		})
	}
	// encode every part once so that the expected sections are known
	var sections [][]byte
	var body []byte
	for _, k := range tbs.kids {
		b := k.encode(style)
		sections = append(sections, b)
		body = append(body, b...)
	}
	tbsDER := lenientTLV(tbs.id, body, style)
	der := lenientTLV(root.id, cat(tbsDER, root.kids[1].encode(style), root.kids[2].encode(style)), style)
	if len(what) == 0 {
		return
	}
	var list []string
	for k := range what {
		list = append(list, k)
	}
	t.Class("%d kinds, re-encoded key %v", len(list), reenc)
	for _, k := range list {
		t.Class("%s", k)
	}
	t.NonTrivial(der)
	t.Attach("cert.der", der)
	t.Attach("strict.der", strict)
	c, _, err := t.parseBoth(der)
	if err != nil {
		t.Violate("lenient form (%v) rejected: %v; %x", list, err, der)
		return
	}
	g := goCert(c)
	if d := diffBasic(g, want); d != "" {
		t.Violate("lenient form (%v): %s; %x", list, d, der)
	}
	if !what["OID"] && !what["tag"] {
		if d := diffExts(g, want, false); d != "" {
			t.Violate("lenient form (%v): extensions: %s; %x", list, d, der)
		}
	}
	exp := &x509.Certificate{Raw: der, RawTBSCertificate: tbsDER, RawIssuer: sections[first+2], RawSubject: sections[first+4], RawSubjectPublicKeyInfo: sections[first+5]}
	if reenc {
		// the key is handed out in its proper form, with which the certificate can be compared with others
		exp.RawSubjectPublicKeyInfo = rsaSPKI(dbig(new(big.Int).SetBytes(modulus)), dbig(big.NewInt(int64(want.PublicKey.(*rsa.PublicKey).E))), dnull())
	}
	if d := diffRaw(g, exp); d != "" {
		t.Violate("lenient form (%v): %s", list, d)
	}
	t.Sample("%v: %x", list, der)
}

func lenientTLV(id, c []byte, style func(*node, int) (bool, int)) []byte {
	_, long := style(nil, len(c))
	if long == 0 {
		return cat(id, derLen(len(c)), c)
	}
	need := 1
	for m := len(c) >> 8; m > 0; m >>= 8 {
		need++
	}
	if long < need {
		long = need
	}
	lb := make([]byte, long)
	for i, v := long-1, len(c); i >= 0; i-- {
		lb[i] = byte(v)
		v >>= 8
	}
	return cat(id, []byte{0x80 | byte(long)}, lb, c)
}

// c18framing: whole certificates only; several ones in a row.
func c18framing(t *T) {
	var ders [][]byte
	var all []byte
	for n := t.Range("certs", 1, 4); n > 0; n-- {
		x := t.genXCert()
		d := x.DER()
		if _, err := x509.ParseCertificate(d); err != nil {
			t.Class("reference: %v", errText(err))
			return
		}
		ders = append(ders, d)
		all = append(all, d...)
	}
	t.NonTrivial(all)
	for _, f := range []func([]byte) ([][]byte, error){
		func(b []byte) (o [][]byte, err error) {
			cs, err := x509andr.ParseCertificates(b)
			for _, c := range cs {
				o = append(o, c.Raw)
			}
			return o, err
		},
		func(b []byte) (o [][]byte, err error) {
			cs, err := x509andr.ParseCertificatesForGo(b)
			for _, c := range cs {
				o = append(o, c.Raw)
			}
			return o, err
		},
	} {
		got, err := f(all)
		if err != nil || len(got) != len(ders) {
			t.Violate("%d certificates in a row: %d, %v", len(ders), len(got), err)
			return
		}
		for i := range got {
			if !bytes.Equal(got[i], ders[i]) {
				t.Violate("certificate %d of %d is %x instead of %x", i, len(ders), got[i], ders[i])
			}
		}
		// cut in the last one, or followed by something else
		cut := len(all) - t.Range("cut", 1, len(ders[len(ders)-1])-1)
		if got, err := f(all[:cut]); err == nil {
			t.Violate("%d certificates read from %d bytes of %d", len(got), cut, len(all))
		}
		tail := pick(t, "tail", [][]byte{{0}, {0x30}, {0x30, 0}, {5, 0}, {0, 0}, ders[0][:len(ders[0])-1]})
		if got, err := f(cat(all, tail)); err == nil {
			t.Violate("%d certificates read from %d followed by %x", len(got), len(ders), tail)
		}
	}
	one := ders[0]
	for _, b := range [][]byte{cat(one, []byte{0}), cat(one, one), one[:t.Uni("cut1", len(one))], cat([]byte{0}, one)} {
		if c, err := x509andr.ParseCertificate(b); err == nil {
			t.Violate("certificate read from altered bytes %x (subject %v)", b, c.Subject)
		}
		if c, err := x509andr.ParseCertificateForGo(b); err == nil {
			t.Violate("certificate read from altered bytes %x (subject %v)", b, c.Subject)
		}
	}
	// trailing data inside the parts
	x := t.genXCert()
	x.SPKI, x.kind, _ = t.genSPKI()
	junk := []byte{5, 0}
	y := *x
	where := ""
	switch t.Uni("inner", 2) {
	case 0:
		if x.kind != "rsa" && x.kind != "dsa" {
			return
		}
		k := mustNode(x.SPKI).clone()
		k.kids[1].content = cat(k.kids[1].content, junk)
		y.SPKI, where = k.encode(nil), "key"
	case 1:
		if x.kind == "rsa" {
			return
		}
		// the key point cut short
		k := mustNode(x.SPKI).clone()
		k.kids[1].content = k.kids[1].content[:len(k.kids[1].content)-1]
		y.SPKI, where = k.encode(nil), "cut key"
	}
	if c, err := x509andr.ParseCertificate(y.DER()); err == nil {
		t.Violate("certificate with %s accepted: %x", where, c.Raw)
	}
}

// c18keys: public keys.
func c18keys(t *T) {
	spki, kind, modulus := t.genSPKI()
	in, mut := spki, false
	if t.Pct("mut", 50) {
		in, mut = t.mutDER(spki, 2), true
	}
	t.Attach("spki.der", in)
	want, werr := x509.ParsePKIXPublicKey(in)
	var got interface{}
	var err error
	t.Guard("ParsePKIXPublicKey", in, func() { got, err = x509andr.ParsePKIXPublicKey(in) })
	t.Class("%s mutated %v reference %v", kind, mut, werr == nil)
	if !mut && werr == nil || mut && werr == nil {
		switch want.(type) {
		case *rsa.PublicKey, *dsa.PublicKey, *ecdsa.PublicKey:
		default:
			return
		}
		t.NonTrivial(in)
		if err != nil {
			if !wellFormedKey(in) {
				t.Class("malformed, but not in the parts that crypto/x509 looks at")
				return
			}
			t.Violate("key rejected (%v): %x", err, in)
			return
		}
		if d := sameKeys(got, want); d != "" {
			t.Violate("%s; %x", d, in)
		}
		return
	}
	if modulus != nil && modulus[0] >= 0x80 && !(modulus[0] == 0xff && len(modulus) > 1 && modulus[1] >= 0x80) {
		in = rsaSPKI(dintRaw(modulus), dint(65537), dnull())
		got, err = x509andr.ParsePKIXPublicKey(in)
		t.NonTrivial(in)
		k, ok := got.(*rsa.PublicKey)
		if err != nil || !ok || k.E != 65537 || k.N.Cmp(new(big.Int).SetBytes(modulus)) != 0 {
			t.Violate("RSA modulus %x without sign octet is read as %v (%v)", modulus, got, err)
		}
	}
}

package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"time"

	"github.com/avast/apkverifier/fullsailor/pkcs7"
)

var p7RSA = []string{"rsa1024-a", "rsa1024-b", "rsa1024-c", "rsa2048-a", "rsa2048-b", "rsa1031-a"}

// p7Extra is an additional signed attribute together with how it is read back.
type p7Extra struct {
	oid asn1.ObjectIdentifier
	val interface{}
}

func (t *T) genP7Extra(i int) p7Extra {
	x := p7Extra{oid: asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 99999, i, t.Uni("ex.oid", 300)}}
	switch t.Uni("ex.kind", 9) {
	case 0:
		x.val = t.genPrintable("ex.s")
	case 1:
		x.val = int(int64(t.bits(t.Range("ex.bits", 1, 63), "ex.i")))
	case 2:
		x.val = t.Bytes("ex.b", 0, 300)
	case 3:
		x.val = t.Pct("ex.bool", 50)
	case 4:
		x.val = asn1.ObjectIdentifier{2, 5, t.Uni("ex.o", 200), t.Uni("ex.o2", 40000)}
	case 5:
		x.val = time.Unix(int64(t.bits(30, "ex.t")), 0).UTC()
	case 6:
		x.val = pkix.AlgorithmIdentifier{Algorithm: asn1.ObjectIdentifier{1, 2, 3, t.Uni("ex.a", 9)}}
	case 7:
		x.val = []int{t.Uni("ex.l", 1000), -t.Uni("ex.l2", 1000)}
	default:
		x.val = new(big.Int).SetBytes(t.Bytes("ex.big", 0, 60))
	}
	return x
}

func (t *T) genPrintable(label string) string {
	const al = "ABCXYZabcxyz0189 '()+,-./:=?"
	b := t.Bytes(label, 0, 40)
	for i := range b {
		b[i] = al[int(b[i])%len(al)]
	}
	return string(b)
}

// readBack decodes the attribute of the given type into a fresh value of the same Go type.
func (x p7Extra) readBack(get func(asn1.ObjectIdentifier, interface{}) error) (interface{}, error) {
	p := reflect.New(reflect.TypeOf(x.val))
	err := get(x.oid, p.Interface())
	return p.Elem().Interface(), err
}

func (x p7Extra) same(v interface{}) bool {
	switch a := x.val.(type) {
	case *big.Int:
		b, ok := v.(*big.Int)
		return ok && b != nil && a.Cmp(b) == 0
	case time.Time:
		b, ok := v.(time.Time)
		return ok && a.Equal(b)
	case []byte:
		b, ok := v.([]byte)
		return ok && bytes.Equal(a, b)
	case pkix.AlgorithmIdentifier:
		b, ok := v.(pkix.AlgorithmIdentifier)
		return ok && a.Algorithm.Equal(b.Algorithm)
	}
	return reflect.DeepEqual(x.val, v)
}

type p7Made struct {
	key   *Key // signs
	cert  []byte
	extra []p7Extra
	wrong bool // the certificate belongs to another key
}

type p7Msg struct {
	content  []byte
	detached bool
	signers  []*p7Made
	certs    [][]byte // in the order they were added
	der      []byte
}

func (m *p7Msg) String() string {
	s := fmt.Sprintf("content %d bytes detached=%v certs=%d", len(m.content), m.detached, len(m.certs))
	for _, x := range m.signers {
		s += fmt.Sprintf(" {%s attrs=%d wrong=%v}", x.key.Name, len(x.extra), x.wrong)
	}
	return s
}

func mustGoCert(der []byte) *x509.Certificate {
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(fmt.Sprintf("harness certificate: %v", err))
	}
	return c
}

// genP7Content draws contents, often with lengths next to the borders of the length encodings.
func (t *T) genP7Content() []byte {
	switch t.Uni("content", 5) {
	case 0:
		n := pick(t, "edge", []int{0, 1, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537, 124, 125, 126, 252, 253, 254})
		if t.Pct("hugecontent", 1) {
			n = 1<<24 + t.Range("hcd", -40, 1)
		}
		return bulk(t.Seed("cseed"), n)
	case 1: // DER inside
		return doct(t.Bytes("inner", 0, 40))
	}
	return t.Bytes("c", 0, 3000)
}

// genP7Msg makes a message with the package's own functions.
func (t *T) genP7Msg(maxSigners int) *p7Msg {
	m := &p7Msg{content: t.genP7Content(), detached: t.Pct("detached", 40)}
	sd, err := pkcs7.NewSignedData(m.content)
	if err != nil {
		t.Violate("NewSignedData of %d bytes: %v", len(m.content), err)
	}
	n := 1
	if maxSigners > 1 && t.Pct("multi", 40) {
		n = t.Range("signers", 2, maxSigners)
	}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		for t.Pct("extracert", 25) {
			c := selfCert(keyByName[pick(t, "xk", []string{"rsa2048-c", "ec256-a", "ec384-a", "rsa1024-d"})], 60+len(m.certs))
			sd.AddCertificate(mustGoCert(c))
			m.certs = append(m.certs, c)
		}
		s := &p7Made{key: keyByName[pick(t, "key", p7RSA)]}
		s.cert = selfCert(s.key, i)
		if t.Pct("issued", 30) {
			s.cert = issuedCert(s.key, i, keyByName["ec256-f"], 0)
		}
		if used[string(s.cert)] {
			continue
		}
		used[string(s.cert)] = true
		for k := t.Uni("nextra", 4); k > 0; k-- {
			s.extra = append(s.extra, t.genP7Extra(k))
		}
		cfg := pkcs7.SignerInfoConfig{}
		for _, x := range s.extra {
			cfg.ExtraSignedAttributes = append(cfg.ExtraSignedAttributes, pkcs7.Attribute{Type: x.oid, Value: x.val})
		}
		if err := sd.AddSigner(mustGoCert(s.cert), s.key.RSA, cfg); err != nil {
			t.Violate("AddSigner with key %s: %v", s.key.Name, err)
		}
		m.certs = append(m.certs, s.cert)
		m.signers = append(m.signers, s)
	}
	if m.detached {
		sd.Detach()
	}
	if m.der, err = sd.Finish(); err != nil {
		t.Violate("Finish: %v", err)
	}
	m.der = append([]byte(nil), m.der...)
	return m
}

func (t *T) parseP7(what string, der []byte) *pkcs7.PKCS7 {
	t.Attach("message", der)
	p, err := pkcs7.Parse(der)
	if err != nil {
		t.Violate("%s: Parse: %v", what, err)
	}
	return p
}

func sameCertList(got []*x509.Certificate, want [][]byte) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !bytes.Equal(got[i].Raw, want[i]) {
			return false
		}
	}
	return true
}

// checkAttrs reads back everything the signer was given.
func (t *T) checkAttrs(m *p7Msg, s *p7Made, si *pkcs7.SignerInfo) {
	var ct asn1.ObjectIdentifier
	if err := si.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}, &ct); err != nil || ct.String() != oidPkcsData {
		t.Violate("content type attribute reads back as %v, %v", ct, err)
	}
	var md []byte
	if err := si.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &md); err != nil || !bytes.Equal(md, hashOf(crypto.SHA1, m.content)) {
		t.Violate("message digest attribute reads back as %x, %v", md, err)
	}
	var st time.Time
	if err := si.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 5}, &st); err != nil || time.Since(st) > time.Hour || time.Since(st) < -time.Hour {
		t.Violate("signing time attribute reads back as %v, %v", st, err)
	}
	if len(si.AuthenticatedAttributes) != 3+len(s.extra) {
		t.Violate("%d signed attributes, %d were supplied", len(si.AuthenticatedAttributes)-3, len(s.extra))
	}
	for _, x := range s.extra {
		v, err := x.readBack(si.UnmarshalSignedAttribute)
		if err != nil || !x.same(v) {
			t.Violate("signed attribute %v = %#v reads back as %#v, %v", x.oid, x.val, v, err)
		}
	}
	var dummy asn1.RawValue
	if err := si.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 99998, 1}, &dummy); err == nil {
		t.Violate("an attribute that is not there was read back")
	}
}

// signerFor finds the SignerInfo that names the signer's certificate.
func signerFor(l []pkcs7.SignerInfo, cert []byte) *pkcs7.SignerInfo {
	issuer, serial := issuerSerial(cert)
	for i := range l {
		if bytes.Equal(l[i].IssuerAndSerialNumber.IssuerName.FullBytes, issuer) && bytes.Equal(dbig(l[i].IssuerAndSerialNumber.SerialNumber), serial) {
			return &l[i]
		}
	}
	return nil
}

func c19Round(t *T) {
	m := t.genP7Msg(3)
	t.Note("%s", m)
	t.Sample("%s", m)
	t.NonTrivial(m.content, m.String())
	t.Class("signers %d detached %v", len(m.signers), m.detached)
	p := t.parseP7("own message", m.der)
	if p.ContentType.String() != oidPkcsData {
		t.Violate("content type %v", p.ContentType)
	}
	if !sameCertList(p.Certificates, m.certs) {
		t.Violate("%d certificates were added, %d parsed, or not the same", len(m.certs), len(p.Certificates))
	}
	if len(p.CRLs) != 0 {
		t.Violate("CRLs out of nowhere")
	}
	if m.detached {
		if len(p.Content) != 0 {
			t.Violate("detached message has content")
		}
		if len(m.content) > 0 {
			if err := p.Verify(); err == nil {
				t.Violate("a detached message verifies without its content")
			}
		}
		p.Content = m.content
	}
	if !bytes.Equal(p.Content, m.content) {
		t.Violate("content of %d bytes parsed as %d bytes", len(m.content), len(p.Content))
	}
	if err := p.Verify(); err != nil {
		t.Violate("untouched message does not verify: %v", err)
	}
	infos := p.GetSignerInfos()
	if len(infos) != len(m.signers) || len(p.Signers) != len(m.signers) {
		t.Violate("%d signers, parsed %d", len(m.signers), len(infos))
	}
	for _, s := range m.signers {
		si := signerFor(infos, s.cert)
		if si == nil {
			t.Violate("no signer info for the certificate of %s", s.key.Name)
		}
		t.checkAttrs(m, s, si)
		// what is signed are the attributes as a SET
		b, err := si.MarshalAuthenticatedAttributes()
		if err != nil {
			t.Violate("MarshalAuthenticatedAttributes: %v", err)
		}
		if err := rsa.VerifyPKCS1v15(&s.key.RSA.PublicKey, crypto.SHA1, hashOf(crypto.SHA1, b), si.EncryptedDigest); err != nil {
			t.Violate("the marshalled attributes are not what was signed: %v", err)
		}
	}
	// the first signer's attributes are what the message-level accessor reads
	for _, s := range m.signers {
		if si := signerFor(infos[:1], s.cert); si != nil {
			for _, x := range s.extra {
				v, err := x.readBack(p.UnmarshalSignedAttribute)
				if err != nil || !x.same(v) {
					t.Violate("message-level accessor: signed attribute %v = %#v reads back as %#v, %v", x.oid, x.val, v, err)
				}
			}
		}
	}
	if c := p.GetOnlySigner(); len(m.signers) == 1 {
		if c == nil || !bytes.Equal(c.Raw, m.signers[0].cert) {
			t.Violate("GetOnlySigner does not return the signer's certificate")
		}
	} else if c != nil {
		t.Violate("GetOnlySigner with %d signers returns a certificate", len(m.signers))
	}
	// nothing of this changes the message: it verifies again, and with another content it does not
	if err := p.Verify(); err != nil {
		t.Violate("second Verify: %v", err)
	}
	other := append([]byte(nil), m.content...)
	if len(other) == 0 || t.Pct("longer", 30) {
		other = append(other, byte(t.Uni("add", 256)))
	} else if t.Pct("shorter", 40) {
		other = other[:len(other)-1]
	} else {
		other[t.Uni("at", len(other))] ^= byte(1 << t.Uni("bit", 8))
	}
	p.Content = other
	if err := p.Verify(); err == nil {
		t.Violate("verifies with another content")
	}
	// the API refuses keys it cannot sign with
	if t.Pct("eckey", 10) {
		sd, _ := pkcs7.NewSignedData(m.content)
		k := keyByName["ec256-a"]
		if err := sd.AddSigner(mustGoCert(selfCert(k, 0)), k.EC, pkcs7.SignerInfoConfig{}); err == nil {
			t.Violate("AddSigner accepts an EC key")
		}
		der, err := sd.Finish()
		if err == nil {
			if q, err := pkcs7.Parse(der); err == nil && q.Verify() == nil {
				t.Violate("a message without signers verifies")
			}
		}
	}
}

// c19NoSigners: certificate bags.
func c19NoSigners(t *T) {
	var certs [][]byte
	var all []byte
	for i := t.Range("n", 1, 4); i > 0; i-- {
		c := selfCert(t.genKey("k"), 70+i)
		if t.Pct("big", 20) {
			c = issuedCert(keyByName["rsa2048-a"], i, keyByName["ec256-f"], 0)
		}
		certs = append(certs, c)
		all = append(all, c...)
	}
	t.NonTrivial(all)
	t.Sample("bag of %d certificates, %d bytes", len(certs), len(all))
	der, err := pkcs7.DegenerateCertificate(all)
	if err != nil {
		t.Violate("DegenerateCertificate: %v", err)
	}
	p := t.parseP7("certificate bag", der)
	t.Class("%d certificates", len(certs))
	if !sameCertList(p.Certificates, certs) || len(p.Content) != 0 || len(p.Signers) != 0 || p.GetOnlySigner() != nil {
		t.Violate("bag of %d certificates parsed as %d certificates, %d signers, %d bytes of content", len(certs), len(p.Certificates), len(p.Signers), len(p.Content))
	}
	if p.Verify() == nil {
		t.Violate("a certificate bag verifies")
	}
	p.Content = t.Bytes("c", 0, 20)
	if p.Verify() == nil {
		t.Violate("a certificate bag verifies as a detached signature")
	}
	if _, err := p.Decrypt(p.Certificates[0], keyByName["rsa2048-a"].RSA); err == nil {
		t.Violate("a certificate bag can be decrypted")
	}
	var x asn1.RawValue
	if p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &x) == nil {
		t.Violate("a certificate bag has signed attributes")
	}
}

// ---- messages of other producers ----

func p7Algs(k *Key) []v1Alg {
	var r []v1Alg
	for _, a := range v1AlgsFor(k) {
		if (a.Hash == crypto.SHA1 || a.Hash == crypto.SHA256) && a.plainDigest() && a.ID != "1.2.840.10045.2.1" && k.Kind != "dsa" {
			r = append(r, a)
		}
	}
	return r
}

func (t *T) genP7Foreign() *P7 {
	p := &P7{Content: t.genP7Content(), Attached: t.Pct("att", 60)}
	n := 1
	if t.Pct("multi", 40) {
		n = t.Range("n", 2, 4)
	}
	for i := 0; i < n; i++ {
		k := keyByName[pick(t, "key", []string{"rsa2048-a", "rsa2048-b", "rsa1024-a", "rsa1024-b", "ec256-a", "ec384-a", "ec521-a", "ec256-b", "ec224-a"})]
		c := selfCert(k, 80+i)
		if t.Pct("issued", 30) {
			c = issuedCert(k, 80+i, keyByName["rsa2048-d"], 0)
		}
		s := &P7Signer{Key: k, Alg: pick(t, "alg", p7Algs(k)), Cert: c, SignedAtt: t.Pct("attrs", 60), Params: t.Pct("params", 60)}
		if s.SignedAtt {
			s.NoType = t.Pct("notype", 20)
			if t.Pct("time", 50) {
				s.Attrs = append(s.Attrs, attrDER(oidSigningTime, utcTime("200102030405Z")))
			}
			for t.Pct("xattr", 30) {
				s.Attrs = append(s.Attrs, attrDER(fmt.Sprintf("1.3.6.1.4.1.99999.%d", len(s.Attrs)), doct(t.Bytes("xa", 0, 200))))
			}
		}
		if t.Pct("unauth", 25) {
			s.Unauth = append(s.Unauth, attrDER("1.2.840.113549.1.9.16.2.14", dseq(doct(t.Bytes("ts", 0, 60)))))
		}
		p.Signers = append(p.Signers, s)
		p.Certs = append(p.Certs, c)
	}
	for i := t.Uni("xcert", 3); i > 0; i-- {
		p.Certs = append(p.Certs, selfCert(keyByName["ec256-e"], 90+i))
	}
	q := make([][]byte, len(p.Certs))
	for i, j := range t.perm(len(p.Certs)) {
		q[i] = p.Certs[j]
	}
	p.Certs = q
	for i := t.Uni("crls", 4) - 1; i > 0; i-- {
		p.CRLs = append(p.CRLs, t.genCRL(i))
	}
	return p
}

// genCRL is a small certificate list; its revoked serials are 100*i+1..
func (t *T) genCRL(i int) []byte {
	k := keyByName["rsa1024-f"]
	alg := algID(sigOIDs["rsa"][crypto.SHA256], dnull())
	var rev []byte
	for j := 1; j <= i; j++ {
		rev = append(rev, dseq(dint(int64(100*i+j)), utcTime("200101000000Z"))...)
	}
	issuer, _ := issuerSerial(selfCert(k, 0))
	tbs := dseq(dint(1), alg, issuer, utcTime("200101000000Z"), utcTime("300101000000Z"), dseq(rev))
	return dseq(tbs, alg, dbits(k.SignHash(crypto.SHA256, tbs)))
}

func p7Str(p *P7) string {
	s := fmt.Sprintf("content %d bytes attached=%v certs=%d crls=%d", len(p.Content), p.Attached, len(p.Certs), len(p.CRLs))
	for _, x := range p.Signers {
		s += fmt.Sprintf(" {%s %s+%s attrs=%v+%d unauth=%d}", x.Key.Name, x.Alg.Digest, x.Alg.ID, x.SignedAtt, len(x.Attrs), len(x.Unauth))
	}
	return s
}

func (t *T) checkForeign(p *P7, q *pkcs7.PKCS7) {
	if p.Attached && !bytes.Equal(q.Content, p.Content) || !p.Attached && len(q.Content) != 0 {
		t.Violate("content of %d bytes (attached %v) parsed as %d bytes", len(p.Content), p.Attached, len(q.Content))
	}
	if !sameCertList(q.Certificates, p.Certs) {
		t.Violate("%d certificates, parsed %d, or not the same", len(p.Certs), len(q.Certificates))
	}
	if len(q.CRLs) != len(p.CRLs) {
		t.Violate("%d CRLs, parsed %d", len(p.CRLs), len(q.CRLs))
	}
	for _, c := range q.CRLs {
		rc := c.TBSCertList.RevokedCertificates
		for j, r := range rc {
			if r.SerialNumber.Int64() != int64(100*len(rc)+j+1) {
				t.Violate("revoked certificate %v in a list of %d", r.SerialNumber, len(rc))
			}
		}
	}
	infos := q.GetSignerInfos()
	if len(infos) != len(p.Signers) {
		t.Violate("%d signers, parsed %d", len(p.Signers), len(infos))
	}
	for i, s := range p.Signers {
		want := mustNode(s.DER(p.Content))
		si := &infos[i]
		issuer, serial := issuerSerial(s.Cert)
		if !bytes.Equal(si.IssuerAndSerialNumber.IssuerName.FullBytes, issuer) || !bytes.Equal(dbig(si.IssuerAndSerialNumber.SerialNumber), serial) {
			t.Violate("signer %d: issuer and serial number differ", i)
		}
		if si.DigestAlgorithm.Algorithm.String() != s.Alg.Digest || si.DigestEncryptionAlgorithm.Algorithm.String() != s.Alg.ID || si.Version != 1 {
			t.Violate("signer %d: version %d, algorithms %v and %v", i, si.Version, si.DigestAlgorithm.Algorithm, si.DigestEncryptionAlgorithm.Algorithm)
		}
		var attrs, un []*node
		for _, k := range want.kids {
			switch k.id[0] {
			case 0xa0:
				attrs = k.kids
			case 0xa1:
				un = k.kids
			}
		}
		cmp := func(what string, got []pkcs7.SignerAttribute, w []*node) {
			if len(got) != len(w) {
				t.Violate("signer %d: %d %s attributes, parsed %d", i, len(w), what, len(got))
			}
			for j := range w {
				if got[j].Type.String() != oidStr(w[j].kids[0]) || !bytes.Equal(got[j].Value.FullBytes, w[j].kids[1].encode(nil)) {
					t.Violate("signer %d: %s attribute %d differs", i, what, j)
				}
			}
		}
		cmp("signed", si.AuthenticatedAttributes, attrs)
		cmp("unsigned", si.UnauthenticatedAttributes, un)
	}
}

func oidStr(n *node) string {
	var o asn1.ObjectIdentifier
	if _, err := asn1.Unmarshal(n.encode(nil), &o); err != nil {
		return err.Error()
	}
	return o.String()
}

func c19Foreign(t *T) {
	p := t.genP7Foreign()
	bad := ""
	if t.Pct("bad", 50) {
		s := p.Signers[t.Uni("which", len(p.Signers))]
		switch t.Uni("badkind", 5) {
		case 0:
			s.FlipBit = 1 + t.Uni("flip", 8*64)
			bad = "signature bit"
		case 1:
			if s.SignedAtt {
				s.BadDigest = true
				bad = "message digest attribute"
			}
		case 2: // the named certificate is not there
			var l [][]byte
			for _, c := range p.Certs {
				if !bytes.Equal(c, s.Cert) {
					l = append(l, c)
				}
			}
			p.Certs = l
			bad = "certificate missing"
		case 3: // signed with another key
			for _, n := range []string{"rsa2048-c", "ec256-c"} {
				if k := keyByName[n]; k.Kind == s.Key.Kind && k != s.Key && k.v1Fits(s.Alg) {
					s.Key = k
					bad = "another key signed"
				}
			}
		case 4: // a digest that is not the signature's
			if s.SignedAtt && s.Key.Kind == "rsa" && s.Alg.ID != "1.2.840.113549.1.1.1" {
				s.Alg.Digest = map[string]string{"1.3.14.3.2.26": "2.16.840.1.101.3.4.2.1", "2.16.840.1.101.3.4.2.1": "1.3.14.3.2.26"}[s.Alg.Digest]
				bad = "declared digest algorithm is another than the digest's"
			}
		}
	}
	der := p.DER()
	t.Note("%s %s", p7Str(p), bad)
	t.Sample("%s %s", p7Str(p), bad)
	t.NonTrivial(der)
	t.Class("foreign, bad=%v %s", bad != "", bad)
	q := t.parseP7("foreign message", der)
	if bad == "" {
		t.checkForeign(p, q)
	}
	if !p.Attached {
		q.Content = p.Content
	}
	err := q.Verify()
	if bad == "" && err != nil {
		t.Violate("a correct message does not verify: %v", err)
	}
	if bad != "" && err == nil {
		t.Violate("verifies in spite of: %s", bad)
	}
	if bad == "" {
		t.forge(&q.Content)
		if err := q.Verify(); err == nil {
			t.Violate("verifies with another content")
		}
	}
}

func (t *T) forge(c *[]byte) {
	o := append([]byte(nil), *c...)
	switch {
	case len(o) == 0 || t.Pct("longer", 30):
		o = append(o, byte(t.Uni("add", 256)))
	case t.Pct("cut", 30):
		o = o[:t.Uni("cutat", len(o))]
	default:
		o[t.Uni("at", len(o))] ^= byte(1 << t.Uni("bit", 8))
	}
	*c = o
}

// c19Tamper: nothing but what was signed by the signers' keys ever verifies.
func c19Tamper(t *T) {
	var der, content []byte
	var keys map[string]bool // SPKI of the signers
	sets := map[string]bool{}
	detached := false
	if t.Pct("own", 50) {
		m := t.genP7Msg(2)
		der, content, detached = m.der, m.content, m.detached
		keys = map[string]bool{}
		for _, s := range m.signers {
			keys[string(s.key.SPKI)] = true
		}
	} else {
		p := t.genP7Foreign()
		der, content, detached = p.DER(), p.Content, !p.Attached
		keys = map[string]bool{}
		for _, s := range p.Signers {
			keys[string(s.Key.SPKI)] = true
		}
	}
	q := t.parseP7("untouched message", der)
	for _, si := range q.GetSignerInfos() {
		sets[attrSet(si.AuthenticatedAttributes)] = true
	}
	if detached {
		q.Content = content
	}
	if err := q.Verify(); err != nil {
		t.Violate("untouched message does not verify: %v", err)
	}
	what := ""
	mut := func() []byte {
		root := mustNode(der)
		sd := root.kids[1].kids[0]
		sis := sd.kids[len(sd.kids)-1]
		switch t.Uni("tk", 8) {
		case 0:
			what = "bytes"
			return t.mutBytes(der, 2)
		case 1, 2:
			what = "elements"
			return t.mutDER(der, 2)
		case 3: // one element of a signer
			what = "signer element"
			si := sis.kids[t.Uni("si", len(sis.kids))]
			k := t.Uni("sik", len(si.kids))
			sub, rest, ok := parseNode(t.mutDER(si.kids[k].encode(nil), 1))
			if !ok || len(rest) > 0 {
				return nil
			}
			si.kids[k] = sub
		case 4: // attributes: drop, repeat, swap a value
			what = "attributes"
			si := sis.kids[t.Uni("si", len(sis.kids))]
			for _, k := range si.kids {
				if k.id[0] == 0xa0 && len(k.kids) > 0 {
					i := t.Uni("ai", len(k.kids))
					switch t.Uni("am", 3) {
					case 0:
						k.kids = append(k.kids[:i:i], k.kids[i+1:]...)
					case 1:
						k.kids = append(k.kids, k.kids[i])
					case 2:
						j := t.Uni("aj", len(k.kids))
						k.kids[i].kids[1], k.kids[j].kids[1] = k.kids[j].kids[1], k.kids[i].kids[1]
					}
				}
			}
		case 5: // no signed attributes at all
			what = "attributes removed"
			si := sis.kids[t.Uni("si", len(sis.kids))]
			for i, k := range si.kids {
				if k.id[0] == 0xa0 {
					si.kids = append(si.kids[:i:i], si.kids[i+1:]...)
					break
				}
			}
		case 6: // no signers, or one of them twice
			what = "signer list"
			if t.Pct("none", 50) {
				sis.kids = nil
			} else {
				sis.kids = append(sis.kids, sis.kids[t.Uni("si", len(sis.kids))])
			}
		case 7: // another certificate with the same issuer and serial number
			what = "certificate exchanged"
			for _, k := range sd.kids {
				if k.id[0] != 0xa0 || len(k.kids) == 0 {
					continue
				}
				i := t.Uni("ci", len(k.kids))
				tbs := k.kids[i].kids[0]
				at := 5
				if tbs.kids[0].id[0] == 0xa0 {
					at = 6
				}
				o := keyByName[pick(t, "ok", []string{"rsa2048-c", "rsa1024-d", "ec256-c"})]
				tbs.kids[at] = mustNode(o.SPKI)
			}
		}
		return root.encode(nil)
	}
	x := mut()
	if x == nil || bytes.Equal(x, der) {
		return
	}
	t.Note("changed: %s", what)
	t.Attach("message", x)
	t.NonTrivial(x)
	t.Sample("%d bytes, changed: %s", len(x), what)
	var p *pkcs7.PKCS7
	var err error
	t.Guard("pkcs7.Parse", x, func() { p, err = pkcs7.Parse(x) })
	if err != nil {
		t.Class("%s: parse error", what)
		return
	}
	if detached {
		p.Content = content
	}
	t.Guard("Verify", x, func() { err = p.Verify() })
	if err != nil {
		t.Class("%s: does not verify", what)
		return
	}
	t.Class("%s: still verifies", what)
	if !bytes.Equal(p.Content, content) {
		t.Violate("changed message (%s) verifies with another content", what)
	}
	infos := p.GetSignerInfos()
	if len(infos) == 0 {
		t.Violate("changed message (%s) verifies without signers", what)
	}
	for _, si := range infos {
		if !sets[attrSet(si.AuthenticatedAttributes)] {
			t.Violate("changed message (%s) verifies with other signed attributes", what)
		}
		ok := false
		for _, c := range p.Certificates {
			if bytes.Equal(c.RawIssuer, si.IssuerAndSerialNumber.IssuerName.FullBytes) && c.SerialNumber.Cmp(si.IssuerAndSerialNumber.SerialNumber) == 0 {
				ok = knownPub(keys, c.PublicKey)
				break
			}
		}
		if !ok {
			t.Violate("changed message (%s) verifies with the certificate of another key", what)
		}
	}
}

func knownPub(keys map[string]bool, pub interface{}) bool {
	for _, k := range keyByName {
		if !keys[string(k.SPKI)] {
			continue
		}
		switch p := pub.(type) {
		case *rsa.PublicKey:
			if k.RSA != nil && k.RSA.PublicKey.Equal(p) {
				return true
			}
		case *ecdsa.PublicKey:
			if k.EC != nil && k.EC.PublicKey.Equal(p) {
				return true
			}
		}
	}
	return false
}

// attrSet: the attributes as a set, without order and repetition.
func attrSet(a []pkcs7.SignerAttribute) string {
	var l []string
	for _, x := range a {
		l = append(l, x.Type.String()+"="+string(x.Value.FullBytes))
	}
	sort.Strings(l)
	return fmt.Sprintf("%q", l)
}

func init() {
	register("C19", "a case is a SignedData message made with the package (or by an independent encoder), parsed, read back and verified as made, with other content, or after a change to any element; non-trivial when the message differs from every earlier one (content and signers, or the changed bytes)",
		Sub{"round", 1500, 30000, c19Round},
		Sub{"bag", 600, 6000, c19NoSigners},
		Sub{"foreign", 3000, 60000, c19Foreign},
		Sub{"tamper", 6000, 150000, c19Tamper},
		Sub{"wild", 12000, 300000, c19Wild},
	)
}

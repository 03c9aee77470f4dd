package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/avast/apkverifier"
)

// c20Algs: signature algorithms in ascending preference.
var c20Algs = func() []struct {
	alg x509.SignatureAlgorithm
	der []byte
} {
	pss := func(hash string, n int64) []byte {
		h := algID(hash, dnull())
		return algID("1.2.840.113549.1.1.10", dseq(tlv(0xa0, h), tlv(0xa1, algID("1.2.840.113549.1.1.8", h)), tlv(0xa2, dint(n))))
	}
	type e = struct {
		alg x509.SignatureAlgorithm
		der []byte
	}
	return []e{
		{x509.UnknownSignatureAlgorithm, algID("1.3.6.1.4.1.99999.7", nil)},
		{x509.MD5WithRSA, algID("1.2.840.113549.1.1.4", dnull())},
		{x509.SHA1WithRSA, algID("1.2.840.113549.1.1.5", dnull())},
		{x509.SHA256WithRSA, algID("1.2.840.113549.1.1.11", dnull())},
		{x509.SHA384WithRSA, algID("1.2.840.113549.1.1.12", dnull())},
		{x509.SHA512WithRSA, algID("1.2.840.113549.1.1.13", dnull())},
		{x509.DSAWithSHA1, algID("1.2.840.10040.4.3", nil)},
		{x509.DSAWithSHA256, algID("2.16.840.1.101.3.4.3.2", nil)},
		{x509.ECDSAWithSHA1, algID("1.2.840.10045.4.1", nil)},
		{x509.ECDSAWithSHA256, algID("1.2.840.10045.4.3.2", nil)},
		{x509.ECDSAWithSHA384, algID("1.2.840.10045.4.3.3", nil)},
		{x509.ECDSAWithSHA512, algID("1.2.840.10045.4.3.4", nil)},
		{x509.SHA256WithRSAPSS, pss("2.16.840.1.101.3.4.2.1", 32)},
		{x509.SHA384WithRSAPSS, pss("2.16.840.1.101.3.4.2.2", 48)},
		{x509.SHA512WithRSAPSS, pss("2.16.840.1.101.3.4.2.3", 64)},
	}
}()

// c20Name draws a name and says how it has to be described.
func (t *T) c20Name() (der []byte, text string) {
	type kind struct{ oid, abbr string }
	kinds := []kind{{oidC, "C"}, {oidST, "ST"}, {oidL, "L"}, {oidO, "O"}, {oidOU, "OU"}, {oidCN, "CN"}}
	vals := map[string][]string{}
	var n Name
	for i := t.Uni("nattr", 8); i > 0; i-- {
		a := nameAttr{Tag: pick(t, "ntag", []byte{0x13, 0x0c})}
		v := t.genPrintable("nv")
		if len(v) > 20 {
			v = v[:20]
		}
		if a.Tag == 0x0c && t.Pct("uni", 30) {
			v += pick(t, "nu", []string{"ž", "日本", ", CN=x", ";", "\"", "é"})
		}
		a.Val = []byte(v)
		if t.Pct("other", 20) { // kinds that are not described
			a.OID = pick(t, "ooid", []string{"2.5.4.5", "2.5.4.9", "2.5.4.17", "2.5.4.12", "1.3.6.1.4.1.99999.3"})
		} else {
			k := pick(t, "nkind", kinds)
			a.OID = k.oid
			if k.abbr == "CN" {
				vals["CN"] = []string{v}
			} else {
				vals[k.abbr] = append(vals[k.abbr], v)
			}
		}
		n = append(n, []nameAttr{a})
	}
	var parts []string
	for _, k := range kinds {
		if v := vals[k.abbr]; len(v) > 0 && !(k.abbr == "CN" && v[0] == "") {
			parts = append(parts, k.abbr+"="+strings.Join(v, ";"))
		}
	}
	return n.DER(), strings.Join(parts, ", ")
}

type c20Cert struct {
	der             []byte
	cert            *x509.Certificate
	alg             x509.SignatureAlgorithm
	serial          *big.Int
	from, to        time.Time
	issuer, subject string
}

func (t *T) c20Time(label string) (der []byte, when time.Time) {
	when = time.Unix(int64(t.Range(label+".day", -5000, 30000))*86400+int64(t.Uni(label+".sec", 86400)), 0).UTC()
	if y := when.Year(); y >= 2050 || t.Pct(label+".gen", 20) {
		return genTime(when.Format("20060102150405Z")), when
	}
	return utcTime(when.Format("060102150405Z")), when
}

func (t *T) genC20Cert() *c20Cert {
	c := &c20Cert{}
	a := pick(t, "alg", c20Algs)
	c.alg = a.alg
	c.serial = new(big.Int).SetBytes(t.Bytes("serial", 1, 20))
	if c.serial.Sign() == 0 {
		c.serial.SetInt64(1)
	}
	if t.Pct("negserial", 15) {
		c.serial.Neg(c.serial)
	}
	iss, it := t.c20Name()
	subDER, st := iss, it
	if t.Pct("issued", 60) {
		subDER, st = t.c20Name()
	}
	c.issuer, c.subject = it, st
	nb, from := t.c20Time("from")
	na, to := t.c20Time("to")
	c.from, c.to = from, to
	k := keyByName[pick(t, "key", []string{"rsa1024-a", "ec256-a", "rsa2048-a"})]
	tbs := dseq(tlv(0xa0, dint(2)), dbig(c.serial), a.der, iss, dseq(nb, na), subDER, k.SPKI)
	c.der = dseq(tbs, a.der, dbits(t.Bytes("sig", 1, 64)))
	cert, err := x509.ParseCertificate(c.der)
	if err != nil {
		t.Fatalf("harness: certificate: %v", err)
	}
	if cert.SignatureAlgorithm != c.alg {
		t.Fatalf("harness: algorithm %v instead of %v", cert.SignatureAlgorithm, c.alg)
	}
	c.cert = cert
	return c
}

// checkInfo compares a description with the certificate as it was made.
func (t *T) checkInfo(ci *apkverifier.CertInfo, c *c20Cert) {
	a, b, d := md5.Sum(c.der), sha1.Sum(c.der), sha256.Sum256(c.der)
	if ci.Md5 != hex.EncodeToString(a[:]) || ci.Sha1 != hex.EncodeToString(b[:]) || ci.Sha256 != hex.EncodeToString(d[:]) {
		t.Violate("digests %s %s %s are not those of the certificate (sha1 %x)", ci.Md5, ci.Sha1, ci.Sha256, b)
	}
	if !ci.ValidFrom.Equal(c.from) || !ci.ValidTo.Equal(c.to) {
		t.Violate("validity %v..%v instead of %v..%v", ci.ValidFrom, ci.ValidTo, c.from, c.to)
	}
	if ci.SerialNumber == nil || ci.SerialNumber.Cmp(c.serial) != 0 {
		t.Violate("serial number %v instead of %v", ci.SerialNumber, c.serial)
	}
	if ci.SignatureAlgorithm != c.alg.String() {
		t.Violate("algorithm %s instead of %s", ci.SignatureAlgorithm, c.alg)
	}
	if ci.Issuer != c.issuer || ci.Subject != c.subject {
		t.Violate("issuer %q subject %q instead of %q and %q", ci.Issuer, ci.Subject, c.issuer, c.subject)
	}
	s := ci.String()
	for _, p := range []string{ci.Sha1, c.from.Format(time.RFC3339), c.to.Format(time.RFC3339), c.subject, c.issuer} {
		i := strings.Index(s, p)
		if i < 0 {
			t.Violate("description %q lacks %q (or it is not where it belongs)", ci.String(), p)
		}
		s = s[i+len(p):]
	}
}

func c20Case(t *T) {
	n := pick(t, "n", []int{0, 1, 1, 2, 2, 3, 4, 5, 8, 13, 20, 30})
	distinct := t.Pct("distinct", 50) && n <= len(c20Algs)
	var leaves []*c20Cert
	used := map[x509.SignatureAlgorithm]bool{}
	var chains [][]*x509.Certificate
	var key []byte
	for len(leaves) < n {
		c := t.genC20Cert()
		if distinct && used[c.alg] {
			continue
		}
		used[c.alg] = true
		leaves = append(leaves, c)
		ch := []*x509.Certificate{c.cert}
		for k := t.Uni("more", 4); k > 1; k-- { // further certificates do not count
			ch = append(ch, t.genC20Cert().cert)
		}
		chains = append(chains, ch)
		key = append(key, c.der...)
	}
	t.Note("%d chains, distinct algorithms: %v", n, distinct)
	t.Sample("%d chains, distinct algorithms: %v", n, distinct)
	t.NonTrivial(key, n)
	t.Class("%d chains, distinct %v", n, distinct)
	best := x509.SignatureAlgorithm(-1)
	for _, c := range leaves {
		if c.alg > best {
			best = c.alg
		}
	}
	nbest := 0
	for _, c := range leaves {
		if c.alg == best {
			nbest++
		}
	}
	var first *x509.Certificate
	for round := 0; round < 4; round++ {
		list := make([][]*x509.Certificate, n)
		for i, j := range t.perm(n) {
			list[i] = append([]*x509.Certificate(nil), chains[j]...)
		}
		ci, c := apkverifier.PickBestApkCert(list)
		if n == 0 {
			if ci != nil || c != nil {
				t.Violate("a certificate out of an empty list")
			}
			if ci, c := apkverifier.PickBestApkCert([][]*x509.Certificate{}); ci != nil || c != nil {
				t.Violate("a certificate out of an empty list")
			}
			return
		}
		if ci == nil || c == nil {
			t.Violate("nothing picked out of %d chains", n)
		}
		var made *c20Cert
		for _, l := range leaves {
			if bytes.Equal(l.der, c.Raw) {
				made = l
			}
		}
		if made == nil {
			t.Violate("the picked certificate is no leaf of the given chains")
		}
		if made.alg != best {
			t.Violate("picked a leaf with %v, there is one with %v", made.alg, best)
		}
		if first == nil {
			first = c
		} else if nbest == 1 && c != first {
			t.Violate("the choice depends on the order of the chains")
		}
		t.checkInfo(ci, made)
	}
	// descriptions of any certificate, also into a used CertInfo
	var re apkverifier.CertInfo
	for i := 0; i < 3 && i < n; i++ {
		l := leaves[t.Uni("leaf", n)]
		t.checkInfo(apkverifier.NewCertInfo(l.cert), l)
		re.Fill(l.cert)
		t.checkInfo(&re, l)
	}
}

// c20APK: what is picked from a verified APK is one of its signers.
func c20APK(t *T) {
	b := t.genBlockAPK(zipOpts{maxEntries: 1, maxSize: 60})
	min, max := t.genRange(b)
	scheme, chains := b.expect(min, max)
	apk := b.Bytes()
	v := t.mustAccept("signed APK", apk, min, max, scheme, chains)
	t.NonTrivial(apk, min, max)
	t.Sample("scheme %d, %d signers", scheme, len(chains))
	t.Class("scheme %d, %d signers", scheme, len(chains))
	ci, c := apkverifier.PickBestApkCert(v.Res.SignerCerts)
	if ci == nil || c == nil {
		t.Violate("nothing picked")
	}
	var algs []int
	ok := false
	for _, ch := range chains {
		x, err := x509.ParseCertificate(ch[0])
		if err != nil { // only the lenient parser reads it
			return
		}
		algs = append(algs, int(x.SignatureAlgorithm))
		if bytes.Equal(x.Raw, c.Raw) {
			ok = true
		}
	}
	sort.Ints(algs)
	if !ok || int(c.SignatureAlgorithm) != algs[len(algs)-1] {
		t.Violate("picked %s with %v, the signers are %s", certID(c.Raw), c.SignatureAlgorithm, fmt.Sprint(algs))
	}
	sum := sha256.Sum256(c.Raw)
	if ci.Sha256 != hex.EncodeToString(sum[:]) {
		t.Violate("description of another certificate")
	}
}

func init() {
	register("C20", "a case is a list of chains of generated certificates (names, serials, validity, signature algorithm drawn; described by our own model), given in several orders, or the chains of a verified APK; non-trivial when the list or APK differs from every earlier one",
		Sub{"pick", 10000, 60000, c20Case},
		Sub{"apk", 800, 5000, c20APK},
	)
}

package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"fmt"
	"sort"

	"github.com/avast/apkverifier/fullsailor/pkcs7"
)

// refVerifyP7 says whether every signer of a SignedData message (DER, strictly encoded) signed the content: "" or why not, or what
// the reference leaves open.
func refVerifyP7(der, content []byte) (bad, open string) {
	p, why := refCMS(der)
	if p == nil {
		return "", why
	}
	if len(p.infos) == 0 {
		return "no signers", ""
	}
	for i := range p.infos {
		b, o := refP7Info(p, &p.infos[i], content)
		if b != "" && bad == "" {
			bad = fmt.Sprintf("signer %d: %s", i, b)
		}
		if o != "" && open == "" {
			open = fmt.Sprintf("signer %d: %s", i, o)
		}
	}
	return
}

func refP7Info(p *refP7, x *refInfo, content []byte) (bad, open string) {
	var cert *x509.Certificate
	for _, c := range p.certs {
		is, sn := issuerSerial(c.Raw)
		if !bytes.Equal(is, x.issuer) && refName(is) == refName(x.issuer) {
			open = "issuer written in another way"
		}
		if bytes.Equal(is, x.issuer) && bytes.Equal(sn, x.serial) {
			cert = c
			break
		}
	}
	if cert == nil {
		return "no certificate of the signer", open
	}
	hash := refDigestOIDs[x.digest]
	if hash != crypto.SHA1 && hash != crypto.SHA256 {
		open = "digest algorithm " + x.digest
		if hash == 0 {
			return
		}
	}
	data := [][]byte{content}
	if x.attrs != nil && len(x.list) == 0 {
		return "", "empty signed attributes"
	}
	if len(x.list) > 0 {
		v, n := x.attribute(oidMessageDigest)
		switch {
		case n == 0:
			return "no message digest", open
		case n > 1:
			return "", "several message digests"
		case v.id[0] != 4:
			return "message digest is no octet string", open
		case !bytes.Equal(v.content, hashOf(hash, content)):
			return "message digest", open
		}
		data = [][]byte{x.attrs}
		l := make([]*node, len(x.list))
		copy(l, x.list)
		sort.SliceStable(l, func(i, j int) bool { return bytes.Compare(l[i].encode(nil), l[j].encode(nil)) < 0 })
		var s []byte
		for _, k := range l {
			s = append(s, k.encode(nil)...)
		}
		if s = tlv(0x31, s); !bytes.Equal(s, x.attrs) {
			data = append(data, s)
		}
	}
	h := crypto.Hash(0)
	if x.enc == "1.2.840.113549.1.1.1" {
		h = hash
		if cert.PublicKeyAlgorithm != x509.RSA {
			return "not an RSA key", open
		}
	}
	for kind, m := range sigOIDs {
		for g, o := range m {
			if o == x.enc && kind != "dsa" {
				h = g
				if (kind == "rsa") != (cert.PublicKeyAlgorithm == x509.RSA) {
					return "key of another kind", open
				}
			}
		}
	}
	switch h {
	case 0, crypto.MD5, crypto.SHA224:
		return "", "signature algorithm " + x.enc
	}
	ok := 0
	for _, d := range data {
		dg := hashOf(h, d)
		switch k := cert.PublicKey.(type) {
		case *rsa.PublicKey:
			if rsa.VerifyPKCS1v15(k, h, dg, x.sig) == nil {
				ok++
			}
		case *ecdsa.PublicKey:
			if ecdsa.VerifyASN1(k, dg, x.sig) {
				ok++
			}
		default:
			return "", "key"
		}
	}
	if ok == 0 {
		return "signature", open
	}
	if ok != len(data) {
		return "", "attributes out of order"
	}
	if h != hash && open == "" {
		open = "hash of the signature algorithm is not the digest algorithm's"
	}
	return "", open
}

// c19Wild: messages whose parts are freely combined; the reference judges the bytes.
func c19Wild(t *T) {
	rate := pick(t, "rate", []int{0, 1, 3, 6, 10})
	odd := ""
	rare := func(what string) bool {
		if rate > 0 && t.Pct(what, rate) {
			odd += " " + what
			return true
		}
		return false
	}
	keys := []string{"rsa2048-a", "rsa2048-b", "rsa1024-a", "ec256-a", "ec384-a", "ec256-b"}
	content := t.genP7Content()
	other := append([]byte{1}, content...)
	n := 1 + t.Uni("n", 3)
	if rare("nosigners") {
		n = 0
	}
	var infos, certs, digests [][]byte
	for i := 0; i < n; i++ {
		k := keyByName[pick(t, "key", keys)]
		v := 80 + t.Uni("version", 3)
		cert := selfCert(k, v)
		if t.Pct("issued", 30) {
			cert = issuedCert(k, v, keyByName["rsa2048-d"], 0)
		}
		alg := pick(t, "alg", p7Algs(k))
		if rare("otheralg") {
			alg = pick(t, "anyalg", v1AlgsFor(k))
		}
		issuer, serial := issuerSerial(cert)
		if rare("serial") {
			serial = dint(int64(t.Uni("sn", 5)) - 2)
		}
		if rare("issuer") {
			issuer = cnName("nobody").DER()
		}
		data := content
		if rare("otherdata") {
			data = other
		}
		var attrs []byte
		signed := data
		if t.Pct("attrs", 60) {
			dg := hashOf(alg.Hash, data)
			if rare("othercontent") {
				dg = hashOf(alg.Hash, other)
			}
			if rare("otherhash") {
				dg = hashOf(pick(t, "oh", []crypto.Hash{crypto.SHA1, crypto.SHA256, crypto.SHA384, crypto.SHA512}), data)
			}
			switch {
			case rare("cut"):
				dg = dg[:t.Uni("cutat", len(dg))]
			case rare("longer"):
				dg = append(dg, t.Bytes("more", 1, 20)...)
			case rare("digestbit"):
				dg[t.Uni("db", len(dg))] ^= 1 << t.Uni("bit", 8)
			}
			val := doct(dg)
			if rare("digesttag") {
				val[0] = pick(t, "dt", []byte{3, 12, 0x24, 0x80})
			}
			var list [][]byte
			if !rare("nodigest") {
				list = append(list, attrDER(oidMessageDigest, val))
			}
			if rare("twodigests") {
				list = append(list, attrDER(oidMessageDigest, doct(hashOf(alg.Hash, content))))
			}
			if rare("twovalues") {
				list = append(list, attrDER(oidMessageDigest, doct(dg), doct(hashOf(alg.Hash, other))))
			}
			if !t.Pct("notype", 20) {
				list = append(list, attrDER(oidContentType, doid(oidPkcsData)))
			}
			if t.Pct("time", 40) {
				list = append(list, attrDER(oidSigningTime, utcTime("200102030405Z")))
			}
			for t.Pct("xattr", 25) {
				list = append(list, attrDER(fmt.Sprintf("1.2.840.113549.1.9.%d", pick(t, "xo", []int{1, 2, 6, 14, 15, 52})), doct(t.Bytes("xa", 0, 40))))
			}
			signed = dsetSorted(list...)
			attrs = append([]byte{0xa0}, signed[1:]...)
			switch {
			case rare("unsorted"):
				p := t.perm(len(list))
				l := make([][]byte, len(list))
				for a, b := range p {
					l[a] = list[b]
				}
				attrs = tlv(0xa0, l...)
			case rare("attrsdropped"):
				attrs = nil
			case rare("attradded"):
				attrs = append([]byte{0xa0}, dsetSorted(append(list, attrDER("1.2.840.113549.1.9.7", doct([]byte("x"))))...)[1:]...)
			case rare("attrremoved") && len(list) > 1:
				j := t.Uni("ar", len(list))
				attrs = append([]byte{0xa0}, dsetSorted(append(list[:j:j], list[j+1:]...)...)[1:]...)
			}
			switch {
			case rare("signedtag"):
				signed = attrs
			case rare("signedcontent"):
				signed = data
			}
		}
		sk, sh := k, alg.Hash
		if rare("otherkey") {
			sk = keyByName[pick(t, "ok", keys)]
		}
		if rare("othersighash") {
			sh = pick(t, "sh", []crypto.Hash{crypto.SHA1, crypto.SHA256})
		}
		sig := sk.SignHash(sh, signed)
		switch {
		case rare("sigbit"):
			sig[t.Uni("sb", len(sig))] ^= 1 << t.Uni("sbit", 8)
		case rare("sigcut"):
			sig = sig[:t.Uni("sc", len(sig))]
		case rare("siglonger"):
			sig = append(sig, 0)
		case rare("sigzero"):
			sig = append([]byte{0}, sig...)
		}
		da, ea := alg.Digest, alg.ID
		if rare("digestoid") {
			da = pick(t, "do", []string{"1.3.14.3.2.26", "2.16.840.1.101.3.4.2.1", "2.16.840.1.101.3.4.2.3", "1.2.840.113549.2.5", "1.2.3"})
		}
		if rare("encoid") {
			ea = pick(t, "eo", []string{"1.2.840.113549.1.1.1", sigOIDs["rsa"][crypto.SHA1], sigOIDs["rsa"][crypto.SHA256], sigOIDs["ec"][crypto.SHA256], sigOIDs["ec"][crypto.SHA1], "1.2.840.10045.2.1", "1.2.3"})
		}
		var dp, ep []byte
		if t.Pct("params", 50) {
			dp = dnull()
		}
		if k.Kind == "rsa" {
			ep = dnull()
		}
		var un []byte
		if t.Pct("unauth", 15) {
			un = tlv(0xa1, attrDER("1.2.840.113549.1.9.16.2.14", dseq(doct(t.Bytes("ts", 0, 40)))))
			if rare("unauthdigest") {
				un = tlv(0xa1, attrDER(oidMessageDigest, doct(hashOf(alg.Hash, content))))
			}
		}
		infos = append(infos, dseq(dint(1), dseq(issuer, serial), algID(da, dp), attrs, algID(ea, ep), doct(sig), un))
		digests = append(digests, algID(da, dp))
		if !rare("nocert") {
			certs = append(certs, cert)
		}
		if rare("imitation") { // the same issuer and serial number, another key
			o := mustNode(cert)
			tbs := o.kids[0]
			at := 5
			if tbs.kids[0].id[0] == 0xa0 {
				at = 6
			}
			tbs.kids[at] = mustNode(keyByName[pick(t, "ik", keys)].SPKI)
			c := o.encode(nil)
			if t.Pct("before", 50) {
				certs = append([][]byte{c}, certs...)
			} else {
				certs = append(certs, c)
			}
		}
	}
	for i := t.Uni("xcert", 3); i > 0; i-- {
		certs = append(certs, selfCert(keyByName[pick(t, "xk", append(keys, "ec256-e"))], 80+t.Uni("xv", 4)))
	}
	p := t.perm(len(certs))
	if rate == 0 || t.Pct("shuffle", 50) {
		l := make([][]byte, len(certs))
		for a, b := range p {
			l[a] = certs[b]
		}
		certs = l
	}
	attached := t.Pct("att", 60)
	ci := dseq(doid(oidPkcsData))
	given := content
	if attached {
		if rare("attachedother") {
			given = other
		}
		ci = dseq(doid(oidPkcsData), tlv(0xa0, doct(given)))
	} else if rare("givenother") {
		given = other
	}
	var cb []byte
	if len(certs) > 0 {
		cb = tlv(0xa0, certs...)
	}
	der := dseq(doid(oidPkcsSignedData), tlv(0xa0, dseq(dint(1), dsetSorted(digests...), ci, cb, dset(infos...))))
	t.Note("%d signers, attached %v, odd:%s", n, attached, odd)
	t.Attach("message", der)
	bad, open := refVerifyP7(der, given)
	var q *pkcs7.PKCS7
	var err error
	t.Guard("pkcs7.Parse", der, func() { q, err = pkcs7.Parse(der) })
	if err != nil {
		t.Class("wild: parse error, reference: bad=%v open=%v", bad != "", open != "")
		if bad == "" && open == "" {
			t.Violate("a correct message does not parse: %v", err)
		}
		return
	}
	if !attached {
		q.Content = given
	}
	t.Guard("Verify", der, func() { err = q.Verify() })
	switch {
	case open != "":
		t.Class("wild: left open, %s", verb(err))
		if bad != "" && err == nil {
			t.Class("wild: left open but bad")
		}
		return
	case bad != "":
		t.Class("wild: %s", bad[bytes.IndexByte([]byte(bad), ':')+1:])
		if err == nil {
			t.Violate("verifies in spite of: %s", bad)
		}
	default:
		t.Class("wild: correct, %d signers, odd=%v", n, odd != "")
		if err != nil {
			t.Violate("a correct message does not verify: %v", err)
		}
	}
	t.NonTrivial(der, given)
	t.Sample("%d signers, attached %v, odd:%s, reference: %q", n, attached, odd, bad)
}

func verb(err error) string {
	if err != nil {
		return "rejected"
	}
	return "accepted"
}

package main

import (
	"bytes"
	"compress/flate"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"math/big"
	"path"
	"sort"
	"strconv"
	"strings"
)

// A reference implementation of JAR signatures as Android verifies them, and of the rules by which they count beside a
// signing block. It reads the bytes of the APK; it judges only plain ZIP files, manifests with one kind of line end and
// DER messages, and says so otherwise.

type refFile struct {
	name string
	data []byte
}

// refZip lists the files of a ZIP in the order of its central directory.
func refZip(apk []byte) (files []refFile, why string) {
	le := binary.LittleEndian
	eocd := -1
	for c := 0; c <= 0xffff && len(apk)-22-c >= 0; c++ {
		p := len(apk) - 22 - c
		if le.Uint32(apk[p:]) == 0x06054b50 && int(le.Uint16(apk[p+20:])) == c {
			eocd = p
			break
		}
	}
	if eocd < 0 {
		return nil, "no end record"
	}
	p, end, n := int(le.Uint32(apk[eocd+16:])), 0, int(le.Uint16(apk[eocd+10:]))
	end = p + int(le.Uint32(apk[eocd+12:]))
	if p >= eocd || end != eocd || le.Uint32(apk[eocd+4:]) != 0 || le.Uint16(apk[eocd+8:]) != uint16(n) {
		return nil, "end record"
	}
	seen := map[string]bool{}
	for ; n > 0; n-- {
		if end-p < 46 || le.Uint32(apk[p:]) != 0x02014b50 {
			return nil, "central directory"
		}
		h := apk[p:]
		flags, method, crc := le.Uint16(h[8:]), le.Uint16(h[10:]), le.Uint32(h[16:])
		cs, us := int(le.Uint32(h[20:])), int(le.Uint32(h[24:]))
		nl, xl, cl := int(le.Uint16(h[28:])), int(le.Uint16(h[30:])), int(le.Uint16(h[32:]))
		off := int(le.Uint32(h[42:]))
		if p+46+nl+xl+cl > end || flags&^0x808 != 0 || off+30 > eocd {
			return nil, "central directory entry"
		}
		name := string(h[46 : 46+nl])
		p += 46 + nl + xl + cl
		l := apk[off:]
		if le.Uint32(l) != 0x04034b50 || le.Uint16(l[8:]) != method || le.Uint16(l[6:]) != flags {
			return nil, "local header"
		}
		lnl, lxl := int(le.Uint16(l[26:])), int(le.Uint16(l[28:]))
		if off+30+lnl+lxl+cs > eocd || string(l[30:30+lnl]) != name {
			return nil, "local header"
		}
		if flags&8 == 0 && (le.Uint32(l[14:]) != crc || int(le.Uint32(l[18:])) != cs || int(le.Uint32(l[22:])) != us) {
			return nil, "local header"
		}
		d := l[30+lnl+lxl : 30+lnl+lxl+cs]
		if flags&8 != 0 {
			if !bytes.HasPrefix(l[30+lnl+lxl+cs:], cat([]byte("PK\x07\x08"), u32(crc), u32(uint32(cs)), u32(uint32(us)))) {
				return nil, "data descriptor"
			}
		}
		for x := h[46+nl : 46+nl+xl]; len(x) >= 4; {
			n := 4 + int(le.Uint16(x[2:]))
			if le.Uint16(x) == 1 || n > len(x) {
				return nil, "extra data"
			}
			x = x[n:]
		}
		switch method {
		case 0:
			if cs != us {
				return nil, "sizes"
			}
		case 8:
			r := flate.NewReader(bytes.NewReader(d))
			x, err := io.ReadAll(io.LimitReader(r, int64(us)+1))
			if err != nil || len(x) != us {
				return nil, "compressed data"
			}
			d = x
		default:
			return nil, "method"
		}
		if crc32.ChecksumIEEE(d) != crc {
			return nil, "checksum"
		}
		clean := path.Clean(name)
		if seen[clean] || strings.TrimSuffix(name, "/") != clean || strings.HasPrefix(clean, "/") || strings.HasPrefix(clean, "..") || strings.ContainsAny(name, "\\\x00") {
			return nil, "names"
		}
		seen[clean] = true
		files = append(files, refFile{name, d})
	}
	if p != end {
		return nil, "central directory"
	}
	return files, ""
}

// refMF is a manifest or signature file.
type refMF struct {
	raw     []byte
	main    map[string]string
	mainEnd int
	order   []string
	entries map[string]map[string]string
	chunks  map[string][]byte
	dup     bool
	bad     string
	unsure  string
}

func refManifest(raw []byte) *refMF {
	m := &refMF{raw: raw, main: map[string]string{}, entries: map[string]map[string]string{}, chunks: map[string][]byte{}}
	loneCR, lf := false, false
	for i, c := range raw {
		if c == '\r' && (i+1 == len(raw) || raw[i+1] != '\n') {
			loneCR = true
		}
		lf = lf || c == '\n'
	}
	switch {
	case loneCR && lf:
		m.unsure = "line ends"
		return m
	}
	ended := len(raw) == 0 || raw[len(raw)-1] == '\n' || raw[len(raw)-1] == '\r'
	type header struct{ k, v string }
	type section struct {
		h          []header
		start, end int
	}
	var secs []section
	cur := section{}
	blank := true
	open := false
	for p := 0; p < len(raw); {
		q := p
		for q < len(raw) && raw[q] != '\n' && raw[q] != '\r' {
			q++
		}
		line := string(raw[p:q])
		next := q + 1
		if q == len(raw) {
			next = q
		} else if raw[q] == '\r' && next < len(raw) && raw[next] == '\n' {
			next++
		}
		switch {
		case line == "":
			if len(secs) == 0 && !open {
				m.unsure = "starts with a blank line"
				return m
			}
			blank = true
			cur.end = next
			p = next
			continue
		case line[0] == ' ' && !blank:
			h := &cur.h[len(cur.h)-1]
			h.v += line[1:]
			if strings.IndexByte(line, 0) >= 0 {
				m.bad = "NUL"
			}
		default:
			if blank && open {
				secs = append(secs, cur)
				cur = section{start: p}
			}
			i := strings.IndexByte(line, ':')
			if i < 0 {
				if bytes.IndexByte(raw[q:], ':') < 0 {
					m.unsure = "no header"
				} else {
					m.bad = "no header"
				}
				return m
			}
			k := line[:i]
			if i+1 >= len(line) || line[i+1] != ' ' {
				if i+1 < len(line) || m.bad == "" {
					m.bad = "separator"
				}
				return m
			}
			if len(k) == 0 || len(k) > 70 || strings.Trim(k, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_") != "" {
				m.bad = "name"
				return m
			}
			for j := 0; j < len(k); j++ {
				if !strings.ContainsRune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_", rune(k[j])) {
					m.bad = "name"
					return m
				}
			}
			if strings.IndexByte(line, 0) >= 0 {
				m.bad = "NUL"
				return m
			}
			cur.h = append(cur.h, header{strings.ToLower(k), line[i+2:]})
			open = true
		}
		blank = false
		cur.end = next
		p = next
	}
	if open {
		secs = append(secs, cur)
	}
	if n := len(secs) - 1; !ended && n >= 0 {
		// the last header does not count
		l := &secs[n]
		if l.h = l.h[:len(l.h)-1]; len(l.h) == 0 && n > 0 {
			secs = secs[:n]
		}
	}
	for i, s := range secs {
		if i == 0 {
			for _, h := range s.h {
				m.main[h.k] = h.v
			}
			m.mainEnd = s.end
			continue
		}
		if s.h[0].k != "name" {
			m.bad = "section without a name"
			return m
		}
		n := s.h[0].v
		e := m.entries[n]
		if e == nil {
			e = map[string]string{}
			m.entries[n] = e
			m.order = append(m.order, n)
		} else {
			m.dup = true
		}
		for _, h := range s.h[1:] {
			e[h.k] = h.v
		}
		m.chunks[n] = raw[s.start:s.end]
	}
	return m
}

const (
	refOK = iota
	refBad
	refUnknown // no digest of a known algorithm
	refUnsure
)

var refHashes = map[string]crypto.Hash{"sha1": crypto.SHA1, "sha-256": crypto.SHA256, "sha-384": crypto.SHA384, "sha-512": crypto.SHA512}

// refDigest compares the digests the platforms look at with those of data.
func refDigest(e map[string]string, suffix string, min, max int32, data ...[]byte) int {
	var use []string
	if min < 18 {
		l := strings.ToLower(e["digest-algorithms"])
		if l == "" {
			l = "sha sha1"
		}
		for _, a := range strings.Split(l, " ") {
			if _, ok := e[a+suffix]; ok && (min >= 9 || a != "sha-384" && a != "sha-512") {
				use = append(use, a)
			}
		}
	}
	if max >= 18 {
		for _, a := range []string{"sha-512", "sha-384", "sha-256", "sha1"} {
			if _, ok := e[a+suffix]; ok {
				use = append(use, a)
				break
			}
		}
	}
	if len(use) == 0 {
		return refUnknown
	}
	r := refOK
	for _, a := range use {
		h, ok := refHashes[a]
		if !ok {
			return refUnsure
		}
		d, err := base64.StdEncoding.DecodeString(e[a+suffix])
		if err != nil {
			r = refBad
			continue
		}
		match := false
		for _, x := range data {
			match = match || bytes.Equal(d, hashOf(h, x))
		}
		if !match {
			r = refBad
		}
	}
	return r
}

// refP7 is the part of a SignedData message that counts.
type refP7 struct {
	certs []*x509.Certificate
	infos []refInfo
	ctype string
}

type refInfo struct {
	issuer, serial []byte
	digest, enc    string
	attrs          []byte // as a SET, nil if absent
	list           []*node
	sig            []byte
}

func refOID(n *node) string {
	var o asn1.ObjectIdentifier
	if _, err := asn1.Unmarshal(n.encode(nil), &o); err != nil {
		return ""
	}
	return o.String()
}

// refBER reads BER without constructed strings.
func refBER(b []byte, depth int) (n *node, rest []byte, ok bool) {
	if len(b) < 2 || b[0]&0x1f == 0x1f || depth > 40 {
		return nil, nil, false
	}
	n = &node{id: b[:1:1], constr: b[0]&0x20 != 0}
	if n.constr && b[0] < 0x80 && b[0] != 0x30 && b[0] != 0x31 {
		return nil, nil, false
	}
	l, b := int(b[1]), b[2:]
	if l == 0x80 {
		for n.constr && len(b) >= 2 {
			if b[0] == 0 && b[1] == 0 {
				return n, b[2:], true
			}
			k, r, ok := refBER(b, depth+1)
			if !ok {
				return nil, nil, false
			}
			n.kids, b = append(n.kids, k), r
		}
		return nil, nil, false
	}
	if l > 0x80 {
		k := l & 0x7f
		if k > 4 || k > len(b) {
			return nil, nil, false
		}
		l = 0
		for _, c := range b[:k] {
			l = l<<8 | int(c)
		}
		b = b[k:]
	}
	if l > len(b) {
		return nil, nil, false
	}
	c, rest := b[:l:l], b[l:]
	if !n.constr {
		n.content = c
		return n, rest, true
	}
	for len(c) > 0 {
		k, r, ok := refBER(c, depth+1)
		if !ok {
			return nil, nil, false
		}
		n.kids, c = append(n.kids, k), r
	}
	return n, rest, true
}

func refCMS(b []byte) (p *refP7, why string) {
	root, rest, ok := refBER(b, 0)
	if !ok || len(rest) > 0 || root == nil {
		return nil, "not BER"
	}
	var form struct {
		Type asn1.ObjectIdentifier
		SD   struct {
			Version int
			Digests []pkix.AlgorithmIdentifier `asn1:"set"`
			Content struct {
				Type asn1.ObjectIdentifier
				Data []byte `asn1:"explicit,optional,tag:0"`
			}
			Certs asn1.RawValue          `asn1:"optional,tag:0"`
			CRLs  []pkix.CertificateList `asn1:"optional,tag:1"`
			Infos []struct {
				Version int
				ID      struct {
					Issuer pkix.RDNSequence
					Serial *big.Int
				}
				Digest pkix.AlgorithmIdentifier
				Attrs  []struct {
					Type   asn1.ObjectIdentifier
					Values []asn1.RawValue `asn1:"set"`
				} `asn1:"optional,tag:0,set"`
				Enc   pkix.AlgorithmIdentifier
				Sig   []byte
				Other []struct {
					Type   asn1.ObjectIdentifier
					Values []asn1.RawValue `asn1:"set"`
				} `asn1:"optional,tag:1,set"`
			} `asn1:"set"`
		} `asn1:"explicit,tag:0"`
	}
	if rest, err := asn1.Unmarshal(root.encode(nil), &form); err != nil || len(rest) > 0 {
		return nil, "not strictly encoded"
	}
	is := func(n *node, tag byte) bool { return len(n.id) == 1 && n.id[0] == tag }
	if !is(root, 0x30) || len(root.kids) != 2 || refOID(root.kids[0]) != oidPkcsSignedData || !is(root.kids[1], 0xa0) || len(root.kids[1].kids) != 1 {
		return nil, "not a SignedData message"
	}
	sd := root.kids[1].kids[0]
	if !is(sd, 0x30) || len(sd.kids) < 4 {
		return nil, "SignedData"
	}
	p = &refP7{}
	k := sd.kids
	if !is(k[0], 2) || !is(k[1], 0x31) || !is(k[2], 0x30) || len(k[2].kids) < 1 {
		return nil, "SignedData"
	}
	p.ctype = refOID(k[2].kids[0])
	i := 3
	if is(k[i], 0xa0) {
		for _, c := range k[i].kids {
			x, err := x509.ParseCertificate(c.encode(nil))
			if err != nil {
				return nil, "certificate: " + err.Error()
			}
			p.certs = append(p.certs, x)
		}
		i++
	}
	if i < len(k) && is(k[i], 0xa1) {
		i++
	}
	if i != len(k)-1 || !is(k[i], 0x31) {
		return nil, "SignerInfos"
	}
	for _, s := range k[i].kids {
		if !is(s, 0x30) || len(s.kids) < 5 {
			return nil, "SignerInfo"
		}
		q := s.kids
		if !is(q[0], 2) || !is(q[1], 0x30) || len(q[1].kids) != 2 || !is(q[2], 0x30) || len(q[2].kids) < 1 {
			return nil, "SignerInfo"
		}
		x := refInfo{issuer: q[1].kids[0].encode(nil), serial: q[1].kids[1].encode(nil), digest: refOID(q[2].kids[0])}
		j := 3
		if is(q[j], 0xa0) {
			x.list = q[j].kids
			x.attrs = cat(q[j].encode(nil))
			x.attrs[0] = 0x31
			j++
		}
		if j+1 >= len(q) || !is(q[j], 0x30) || len(q[j].kids) < 1 || !is(q[j+1], 4) {
			return nil, "SignerInfo"
		}
		x.enc, x.sig = refOID(q[j].kids[0]), q[j+1].content
		if j += 2; j < len(q) && (j != len(q)-1 || !is(q[j], 0xa1)) {
			return nil, "SignerInfo"
		}
		p.infos = append(p.infos, x)
	}
	return p, ""
}

// attribute returns the value of a signed attribute.
func (x *refInfo) attribute(oid string) (v *node, n int) {
	for _, a := range x.list {
		if len(a.kids) == 2 && refOID(a.kids[0]) == oid {
			n++
			if len(a.kids[1].kids) != 1 {
				n = 2
				continue
			}
			v = a.kids[1].kids[0]
		}
	}
	return
}

// refV1 is what JAR signatures say.
type refV1 struct {
	bad, unsure string
	chains      [][][]byte
}

func (r *refV1) fail(format string, a ...interface{}) {
	if r.bad == "" {
		r.bad = fmt.Sprintf(format, a...)
	}
}
func (r *refV1) dunno(format string, a ...interface{}) {
	if r.unsure == "" {
		r.unsure = fmt.Sprintf(format, a...)
	}
}

var refDigestOIDs = map[string]crypto.Hash{"1.2.840.113549.2.5": crypto.MD5, "1.3.14.3.2.26": crypto.SHA1, "2.16.840.1.101.3.4.2.4": crypto.SHA224,
	"2.16.840.1.101.3.4.2.1": crypto.SHA256, "2.16.840.1.101.3.4.2.2": crypto.SHA384, "2.16.840.1.101.3.4.2.3": crypto.SHA512}

// signer judges one SignedData message over a signature file.
func (r *refV1) signer(p *refP7, sf []byte, min, max int32) (chain [][]byte, why string) {
	infos := p.infos
	if len(infos) == 0 {
		return nil, "no SignerInfo"
	}
	if min < 24 {
		infos = infos[:1]
	}
	var first *x509.Certificate
	hard := ""
	for _, x := range infos {
		c, why, fatal := r.info(p, x, sf, max)
		if fatal && hard == "" {
			hard = why
		}
		if why != "" {
			continue
		}
		if first == nil {
			first = c
		}
	}
	if hard != "" && first != nil {
		r.dunno("one SignerInfo is odd (%s), another is fine", hard)
	}
	if first == nil {
		return nil, "no valid SignerInfo"
	}
	chain = [][]byte{first.Raw}
	if refName(first.RawIssuer) == refName(first.RawSubject) && !bytes.Equal(first.RawIssuer, first.RawSubject) {
		r.dunno("issuer and subject written in two ways")
	}
	for c := first; !bytes.Equal(c.RawIssuer, c.RawSubject); {
		var up *x509.Certificate
		for _, y := range p.certs {
			if !bytes.Equal(y.RawSubject, c.RawIssuer) && refName(y.RawSubject) == refName(c.RawIssuer) {
				r.dunno("subject written in another way")
			}
			if bytes.Equal(y.RawSubject, c.RawIssuer) {
				up = y
				break
			}
		}
		if up == nil {
			break
		}
		chain = append(chain, up.Raw)
		if len(chain) > len(p.certs) {
			r.dunno("circle of issuers")
			break
		}
		c = up
	}
	return chain, ""
}

// refName is a name without what may not matter when names are compared.
func refName(der []byte) string {
	n, _, ok := parseNode(der)
	if !ok {
		return "?"
	}
	var l []string
	n.walk(func(k *node) {
		if !k.constr && k.id[0] != 6 {
			l = append(l, strings.Join(strings.Fields(strings.ToLower(string(k.content))), " "))
		}
	})
	sort.Strings(l)
	return strings.Join(l, "\x00")
}

func (r *refV1) info(p *refP7, x refInfo, sf []byte, max int32) (cert *x509.Certificate, why string, fatal bool) {
	for _, c := range p.certs {
		is, sn := issuerSerial(c.Raw)
		if !bytes.Equal(is, x.issuer) && refName(is) == refName(x.issuer) {
			r.dunno("issuer written in another way")
		}
		if bytes.Equal(sn, x.serial) && bytes.Equal(is, x.issuer) {
			cert = c
			break
		}
	}
	if cert == nil {
		return nil, "no certificate of the signer", true
	}
	if len(cert.UnhandledCriticalExtensions) > 0 {
		r.dunno("critical extensions")
	}
	var alg *v1Alg
	for i := range v1Algs {
		if v1Algs[i].Digest == x.digest && v1Algs[i].ID == x.enc {
			alg = &v1Algs[i]
		}
	}
	if alg == nil {
		if refDigestOIDs[x.digest] != 0 && x.enc != "" {
			for _, a := range v1Algs {
				if a.ID == x.enc { // a pair that others take for something else
					r.dunno("algorithms %s and %s", x.digest, x.enc)
				}
			}
		}
		return nil, "algorithm", true
	}
	data := sf
	if len(x.list) > 0 {
		if !bytes.Equal(dsetSorted(encodeAll(x.list)...), x.attrs) {
			r.dunno("order of the signed attributes")
		}
		if max >= 24 {
			ct, n := x.attribute(oidContentType)
			if n == 0 {
				return nil, "no content type", true
			}
			if n > 1 || refOID(ct) == "" {
				r.dunno("content type attributes")
				return nil, "content type", true
			}
			if refOID(ct) != p.ctype {
				return nil, "content type", false
			}
		}
		md, n := x.attribute(oidMessageDigest)
		if n == 0 {
			return nil, "no message digest", true
		}
		if n > 1 || !bytes.Equal(md.id, []byte{4}) {
			r.dunno("message digest attributes")
			return nil, "message digest", true
		}
		h := refDigestOIDs[x.digest]
		if h == 0 {
			return nil, "digest algorithm of the attributes", true
		}
		if !bytes.Equal(md.content, hashOf(h, sf)) {
			return nil, "message digest", false
		}
		data = x.attrs
	} else if x.attrs != nil {
		r.dunno("no signed attributes in their set")
	}
	sum := hashOf(alg.Hash, data)
	good := false
	switch k := cert.PublicKey.(type) {
	case *rsa.PublicKey:
		if k.N.BitLen() < 1024 || k.N.BitLen() > 8192 {
			r.dunno("size of the key")
		}
		s := x.sig
		if n := (k.N.BitLen() + 7) / 8; len(s) < n {
			s = append(make([]byte, n-len(s)), s...)
		}
		good = alg.Kind == "rsa" && rsa.VerifyPKCS1v15(k, alg.Hash, sum, s) == nil
	case *ecdsa.PublicKey, *dsa.PublicKey:
		var rs []*big.Int
		rest, err := asn1.Unmarshal(x.sig, &rs)
		if err != nil || len(rs) < 2 {
			if len(x.sig) > 0 {
				r.dunno("form of the signature")
			}
			break
		}
		if len(rest) > 0 || len(rs) > 2 {
			r.dunno("superfluous data in the signature")
		}
		if e, ok := k.(*ecdsa.PublicKey); ok {
			good = alg.Kind == "ec" && ecdsa.Verify(e, sum, rs[0], rs[1])
			break
		}
		d := k.(*dsa.PublicKey)
		if n := d.Q.BitLen() / 8; n < len(sum) {
			sum = sum[:n]
		}
		good = alg.Kind == "dsa" && dsa.Verify(d, sum, rs[0], rs[1])
	default:
		r.dunno("kind of key")
	}
	if !good {
		return nil, "signature", false
	}
	return cert, "", false
}

func encodeAll(l []*node) (r [][]byte) {
	for _, n := range l {
		r = append(r, n.encode(nil))
	}
	return
}

// refJar judges the JAR signatures of the files.
func refJar(files []refFile, hasBlock bool, min, max int32) *refV1 {
	r := &refV1{}
	byName := map[string][]byte{}
	has := map[string]bool{}
	for _, f := range files {
		byName[f.name] = f.data
		has[f.name] = true
	}
	if !has["META-INF/MANIFEST.MF"] {
		r.fail("no MANIFEST.MF")
		return r
	}
	mf := refManifest(byName["META-INF/MANIFEST.MF"])
	if mf.dup {
		mf.bad = "duplicate sections"
	}
	if mf.bad != "" {
		r.fail("MANIFEST.MF: %s", mf.bad)
	}
	if mf.unsure != "" {
		r.dunno("MANIFEST.MF: %s", mf.unsure)
	}
	type sig struct {
		name  string
		sf    *refMF
		chain [][]byte
		valid bool
	}
	var sigs []*sig
	used := map[string]bool{}
	for _, f := range files {
		i := strings.LastIndexByte(f.name, '.')
		if !strings.HasPrefix(f.name, "META-INF/") || i < 0 {
			continue
		}
		if e := f.name[i:]; e != ".RSA" && e != ".DSA" && e != ".EC" {
			continue
		}
		base := f.name[:i]
		if !has[base+".SF"] || used[base] {
			continue
		}
		used[base] = true
		s := &sig{name: f.name, sf: refManifest(byName[base+".SF"])}
		sigs = append(sigs, s)
		if s.sf.bad != "" {
			r.fail("%s.SF: %s", base, s.sf.bad)
		}
		if s.sf.unsure != "" {
			r.dunno("%s.SF: %s", base, s.sf.unsure)
		}
		p, why := refCMS(f.data)
		if why != "" {
			r.dunno("%s: %s", f.name, why)
			continue
		}
		if s.chain, why = r.signer(p, s.sf.raw, min, max); why != "" {
			r.fail("%s: %s", f.name, why)
		}
	}
	if len(sigs) == 0 {
		r.fail("no signatures")
	}
	if len(sigs) > 10 {
		r.fail("%d signers", len(sigs))
	}
	if r.bad != "" || r.unsure != "" {
		return r
	}
	valid := 0
	for _, s := range sigs {
		if ids, ok := s.sf.main["x-android-apk-signed"]; ok && !hasBlock && max >= 24 {
			for _, id := range strings.Split(ids, ",") {
				n, err := strconv.Atoi(strings.TrimSpace(id))
				if err == nil && (n == 2 || n == 3 && max >= 28) {
					r.fail("signed by scheme %d", n)
				}
			}
		}
		if _, ok := s.sf.main["signature-version"]; !ok {
			continue
		}
		valid++
		s.valid = true
		tool := strings.Contains(s.sf.main["created-by"], "signtool")
		if !tool {
			switch refDigest(s.sf.main, "-digest-manifest-main-attributes", min, max, mf.raw[:mf.mainEnd]) {
			case refBad:
				r.fail("digest of the main attributes")
			case refUnsure:
				r.dunno("digest algorithms of the main attributes")
			}
		}
		suffix := "-digest-manifest"
		if tool {
			suffix = "-digest"
		}
		whole := refDigest(s.sf.main, suffix, min, max, mf.raw)
		if whole == refUnsure {
			r.dunno("digest algorithms of the manifest")
		}
		if whole == refOK {
			continue
		}
		if len(s.sf.order) == 0 {
			r.fail("nothing covers the manifest")
		}
		for _, n := range s.sf.order {
			c, ok := mf.chunks[n]
			if !ok {
				r.fail("%s is not in the manifest", n)
			}
			if tool {
				c = signtoolCut(c)
			}
			switch refDigest(s.sf.entries[n], "-digest", min, max, c) {
			case refUnsure:
				r.dunno("digest algorithms of an entry")
			case refBad, refUnknown:
				r.fail("digest of the manifest's section %s", n)
			}
		}
	}
	if valid == 0 {
		r.fail("no signature file has a version")
	}
	for _, n := range mf.order {
		if !has[n] {
			r.fail("%s is in the manifest only", n)
		}
	}
	if !has["AndroidManifest.xml"] && !has["BundleConfig.pb"] {
		r.fail("no AndroidManifest.xml")
	}
	set := func(l [][][]byte) map[string]int {
		m := map[string]int{}
		for _, c := range l {
			m[string(cat(encodeLens(c)...))]++
		}
		return m
	}
	for _, f := range files {
		if strings.HasPrefix(f.name, "META-INF/") || strings.HasSuffix(f.name, "/") {
			continue
		}
		e, ok := mf.entries[f.name]
		if !ok {
			r.fail("%s is not in the manifest", f.name)
			continue
		}
		switch refDigest(e, "-digest", min, max, f.data) {
		case refUnsure:
			r.dunno("digest algorithms of a file")
		case refBad, refUnknown:
			r.fail("digest of %s", f.name)
		}
		var by [][][]byte
		for _, s := range sigs {
			if _, ok := s.sf.entries[f.name]; ok && s.valid {
				by = append(by, s.chain)
			}
		}
		if len(by) == 0 {
			r.fail("%s is not signed", f.name)
		}
		if r.chains == nil {
			r.chains = by
			continue
		}
		a, b := set(r.chains), set(by)
		if len(r.chains) != len(by) || len(a) != len(b) {
			r.fail("signers of %s", f.name)
		}
		for c, n := range a {
			if b[c] == 0 {
				r.fail("signers of %s", f.name)
			} else if b[c] != n {
				r.dunno("the same signers, but not as often")
			}
		}
	}
	return r
}

func encodeLens(c [][]byte) (r [][]byte) {
	for _, x := range c {
		r = append(r, lp(x))
	}
	return
}

// refAPK is the verdict on a whole APK.
type refAPK struct {
	bad, unsure string
	scheme      int
	chains      [][][]byte
	v1          bool // JAR signatures were looked at
}

func (v *refAPK) String() string {
	switch {
	case v.unsure != "":
		return "not judged: " + v.unsure
	case v.bad != "":
		return "rejected: " + v.bad
	}
	return fmt.Sprintf("scheme %d %s", v.scheme, chainStr(v.chains))
}

// refVerifyAPK judges an APK for the platforms from min (or that of the manifest) to max.
func refVerifyAPK(apk []byte, min, max int32) *refAPK {
	v := &refAPK{}
	files, why := refZip(apk)
	if why != "" {
		v.unsure = "ZIP: " + why
		return v
	}
	info := manifestInfo{Min: 1, Sandbox: 1}
	known := true
	for _, f := range files {
		if f.name == "AndroidManifest.xml" {
			info, known = manifestInfoOf(f.data)
		}
	}
	if !known && (min == anyMin || max >= 26) {
		v.unsure = "AndroidManifest.xml"
		return v
	}
	if max < 26 && min != anyMin {
		info = manifestInfo{}
	}
	if min == anyMin {
		min = info.Min
	}
	if min > max {
		v.bad = "empty range"
		return v
	}
	b := refVerify(apk, min, max)
	switch {
	case b.none != "":
		v.scheme = 1
	case b.bad != "":
		v.bad = b.bad
		return v
	case b.unsure != "":
		v.unsure = b.unsure
		return v
	default:
		v.scheme, v.chains = b.scheme, b.chains
		if min >= 24 {
			return v
		}
	}
	if max >= 26 && info.Sandbox > 1 && v.scheme < 2 {
		v.bad = "sandbox version"
	} else if info.Target >= 30 && max >= info.Target && v.scheme < 2 {
		v.bad = "target version"
	}
	v.v1 = true
	r := refJar(files, b.none == "", min, max)
	if v.bad == "" {
		v.bad, v.unsure = r.bad, r.unsure
	}
	if v.bad != "" {
		v.unsure = ""
	}
	if r.unsure != "" {
		v.unsure = r.unsure
	}
	if v.chains == nil {
		v.chains = r.chains
	}
	if v.bad == "" && bytes.HasPrefix(apk, []byte("dex\n")) {
		v.bad = "a DEX file"
	}
	return v
}

// compareAPK compares the library with the reference.
func (t *T) compareAPK(what string, apk []byte, min, max int32) *refAPK {
	want := refVerifyAPK(apk, min, max)
	d := fmt.Sprintf("%s <%d;%d>: want %s", what, min, max, want)
	t.Attach("apk", apk)
	v := verify(apk, min, max)
	switch {
	case want.unsure != "":
	case want.bad != "":
		if v.Err == nil {
			t.Violate("%s; accepted with scheme %d and %s", d, v.Scheme, chainStr(v.Certs))
		}
	case v.Err != nil:
		t.Violate("%s; rejected: %v", d, v.Err)
	case v.Scheme != want.scheme || !chainsEqual(v.Certs, want.chains):
		t.Violate("%s; scheme %d and %s", d, v.Scheme, chainStr(v.Certs))
	}
	return want
}

package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/des"
	"crypto/rsa"
	"crypto/x509"
	"fmt"
	"math/big"

	"github.com/avast/apkverifier/fullsailor/pkcs7"
)

const (
	oidEnveloped = "1.2.840.113549.1.7.3"
	oidDES       = "1.3.14.3.2.7"
	oid3DES      = "1.2.840.113549.3.7"
	oidAES128    = "2.16.840.1.101.3.4.1.2"
	oidAES256    = "2.16.840.1.101.3.4.1.42"
	oidAES128GCM = "2.16.840.1.101.3.4.1.6"
)

var envRSA = []string{"rsa1024-a", "rsa1024-b", "rsa1024-c", "rsa1024-d", "rsa2048-a", "rsa2048-b", "rsa1031-a", "rsa1024-e"}

// envCert is a certificate whose issuer and serial number are often close to those of others.
type envCert struct {
	key    *Key
	issuer int
	serial *big.Int
	der    []byte
	cert   *x509.Certificate
}

func (c *envCert) String() string { return fmt.Sprintf("%s/%d/%v", c.key.Name, c.issuer, c.serial) }

func envMake(k *Key, issuer int, serial *big.Int) *envCert {
	c := &envCert{key: k, issuer: issuer, serial: serial}
	c.der = cached(fmt.Sprintf("env/%s/%d/%v", k.Name, issuer, serial), func() []byte {
		s := defaultCert(k, "envelope", 1)
		s.Serial = intContent(serial)
		n := cnName(fmt.Sprintf("issuer %d", issuer/2))
		if issuer%2 == 1 { // the same text in another encoding
			n[2][0].Tag = 0x13
		}
		if issuer >= 4 { // an issuer that is a prefix of another
			n = n[:2]
		}
		s.Issuer = n.DER()
		s.SignKey = keyByName["rsa1024-f"]
		return s.DER()
	})
	c.cert = mustGoCert(c.der)
	return c
}

func (t *T) genEnvCert() *envCert {
	serials := []int64{1, 2, 127, 128, 255, 256, 65537, 1 << 40}
	n := big.NewInt(pick(t, "serial", serials))
	switch t.Uni("skind", 8) {
	case 0:
		n = new(big.Int).SetBytes(bytes.Repeat([]byte{0xff}, t.Range("sl", 1, 20)))
	case 1:
		n = new(big.Int).Lsh(n, 64)
	}
	return envMake(keyByName[pick(t, "key", envRSA)], t.Uni("issuer", 5), n)
}

func (c *envCert) same(d *envCert) bool {
	return bytes.Equal(c.cert.RawIssuer, d.cert.RawIssuer) && c.serial.Cmp(d.serial) == 0
}

// genEnvCerts draws n certificates with distinct identities.
func (t *T) genEnvCerts(n int) []*envCert {
	var r []*envCert
	for tries := 0; len(r) < n && tries < 8*n; tries++ {
		c := t.genEnvCert()
		dup := false
		for _, d := range r {
			dup = dup || c.same(d)
		}
		if !dup {
			r = append(r, c)
		}
	}
	return r
}

// genPlainText draws contents, among them ones that look like padding.
func (t *T) genPlainText() []byte {
	b := t.genP7Content()
	switch t.Uni("tail", 5) {
	case 0:
		n := t.Range("tn", 1, 16)
		b = cat(b, bytes.Repeat([]byte{byte(n)}, n))
	case 1:
		b = cat(b, make([]byte, t.Range("zeros", 1, 17)))
	case 2:
		b = b[:len(b)-len(b)%pick(t, "align", []int{8, 16})]
	case 3:
		if len(b) > 40 {
			b = b[:t.Uni("short", 40)]
		}
	}
	return b
}

// ---- reference model of the content encryption ----

func unpadRef(b []byte, n int) ([]byte, bool) {
	if len(b) == 0 || len(b)%n != 0 {
		return nil, false
	}
	p := int(b[len(b)-1])
	if p < 1 || p > n {
		return nil, false
	}
	for i := len(b) - p; i < len(b); i++ {
		if int(b[i]) != p {
			return nil, false
		}
	}
	return b[:len(b)-p], true
}

func envBlock(alg string, key []byte) (cipher.Block, error) {
	switch alg {
	case oidDES:
		return des.NewCipher(key)
	case oid3DES:
		return des.NewTripleDESCipher(key)
	}
	return aes.NewCipher(key)
}

// decryptRef is what a message with these parts means.
func decryptRef(alg string, key, iv, ct []byte) ([]byte, bool) {
	b, err := envBlock(alg, key)
	if err != nil {
		return nil, false
	}
	if alg == oidAES128GCM {
		g, err := cipher.NewGCM(b)
		if err != nil || len(iv) != g.NonceSize() {
			return nil, false
		}
		pt, err := g.Open(nil, iv, ct, nil)
		return pt, err == nil
	}
	if len(iv) != b.BlockSize() || len(ct)%b.BlockSize() != 0 {
		return nil, false
	}
	pt := make([]byte, len(ct))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(pt, ct)
	return unpadRef(pt, b.BlockSize())
}

// ---- messages made by the harness ----

type envRecipient struct {
	issuer []byte
	serial *big.Int
	enc    []byte
}

type envMsg struct {
	recips []envRecipient
	alg    string
	iv     []byte
	ct     []byte
	split  []int // lengths of the parts, nil: primitive
}

func (m *envMsg) recipient(c *envCert) *envRecipient {
	for i := range m.recips {
		if r := &m.recips[i]; bytes.Equal(r.issuer, c.cert.RawIssuer) && r.serial.Cmp(c.serial) == 0 {
			return r
		}
	}
	return nil
}

func (m *envMsg) DER() []byte {
	var rs [][]byte
	for _, r := range m.recips {
		rs = append(rs, dseq(dint(0), dseq(r.issuer, dbig(r.serial)), algID("1.2.840.113549.1.1.1", dnull()), doct(r.enc)))
	}
	ct := tlv(0x80, m.ct)
	if m.split != nil {
		var parts [][]byte
		b := m.ct
		for _, n := range m.split {
			if n > len(b) {
				n = len(b)
			}
			parts = append(parts, doct(b[:n]))
			b = b[n:]
		}
		if len(b) > 0 || len(parts) == 0 {
			parts = append(parts, doct(b))
		}
		ct = tlv(0xa0, parts...)
	}
	return dseq(doid(oidEnveloped), tlv(0xa0, dseq(dint(0), dset(rs...), dseq(doid(oidPkcsData), algID(m.alg, doct(m.iv)), ct))))
}

// gcmNonce finds the nonce in the parameters, and the function that writes it back after a change.
func gcmNonce(p *node) (func(), *node) {
	inner := p
	if !p.constr {
		n, _, ok := parseNode(p.content)
		if !ok {
			return nil, nil
		}
		inner = n
	}
	x := inner.find(func(n *node) bool { return !n.constr && (n.id[0] == 0x84 || n.id[0] == 4) })
	return func() {
		if inner != p {
			p.content = inner.encode(nil)
		}
	}, x
}

// envParts reads a message written by the package.
func (t *T) envParts(der []byte) *envMsg {
	root, rest, ok := parseNode(der)
	bad := func(what string) {
		t.Attach("message.p7", der)
		t.Violate("Encrypt wrote a malformed message: %s", what)
	}
	if !ok || len(rest) != 0 || len(root.kids) != 2 || !bytes.Equal(root.kids[0].encode(nil), doid(oidEnveloped)) || len(root.kids[1].kids) != 1 {
		bad("outer structure")
	}
	env := root.kids[1].kids[0]
	if len(env.kids) != 3 || len(env.kids[2].kids) != 3 || len(env.kids[2].kids[1].kids) != 2 {
		bad("EnvelopedData")
	}
	m := &envMsg{}
	for _, r := range env.kids[1].kids {
		if len(r.kids) != 4 || len(r.kids[1].kids) != 2 {
			bad("RecipientInfo")
		}
		m.recips = append(m.recips, envRecipient{r.kids[1].kids[0].encode(nil), new(big.Int).SetBytes(r.kids[1].kids[1].content), r.kids[3].content})
	}
	eci := env.kids[2]
	m.alg = oidStr(eci.kids[1].kids[0])
	p := eci.kids[1].kids[1]
	m.iv = p.content
	if m.alg == oidAES128GCM {
		_, x := gcmNonce(p)
		if x == nil {
			bad("GCM parameters")
		}
		m.iv = x.content
	}
	m.ct = eci.kids[2].content
	for _, k := range eci.kids[2].kids {
		m.ct = cat(m.ct, k.content)
	}
	return m
}

func (t *T) parseEnv(what string, der []byte) *pkcs7.PKCS7 {
	in := append([]byte(nil), der...)
	q, err := pkcs7.Parse(in)
	if err != nil {
		t.Attach("message.p7", der)
		t.Violate("%s: Parse: %v", what, err)
	}
	if !bytes.Equal(in, der) {
		t.Violate("%s: Parse changed the caller's bytes", what)
	}
	return q
}

func (t *T) checkDecrypt(what string, q *pkcs7.PKCS7, c *envCert, want []byte) {
	got, err := q.Decrypt(c.cert, c.key.RSA)
	if err != nil {
		t.Violate("%s: decryption for recipient %v failed: %v", what, c, err)
	}
	if !bytes.Equal(got, want) {
		t.Violate("%s: decryption for recipient %v returned %d bytes instead of the %d encrypted ones", what, c, len(got), len(want))
	}
}

var envAlgs = []int{pkcs7.EncryptionAlgorithmDESCBC, pkcs7.EncryptionAlgorithmAES128GCM}

// encrypt runs Encrypt with the given algorithm on a slice of a larger buffer and checks that the buffer is left alone.
func (t *T) encrypt(alg int, content []byte, certs []*envCert) ([]byte, error) {
	room := pick(t, "room", []int{0, 1, 7, 8, 40})
	buf := bulk(7, len(content)+room)
	copy(buf, content)
	keep := append([]byte(nil), buf...)
	var xs []*x509.Certificate
	for _, c := range certs {
		xs = append(xs, c.cert)
	}
	old := pkcs7.ContentEncryptionAlgorithm
	pkcs7.ContentEncryptionAlgorithm = alg
	defer func() { pkcs7.ContentEncryptionAlgorithm = old }()
	der, err := pkcs7.Encrypt(buf[:len(content)], xs)
	if !bytes.Equal(buf, keep) {
		t.Violate("Encrypt of the first %d bytes of a buffer changed the buffer (%d bytes)", len(content), len(buf))
	}
	if pkcs7.ContentEncryptionAlgorithm != alg {
		t.Violate("Encrypt changed ContentEncryptionAlgorithm")
	}
	return der, err
}

func algName(alg int) string {
	if alg == pkcs7.EncryptionAlgorithmAES128GCM {
		return "GCM"
	}
	return "DES"
}

func c27RoundTrip(t *T) {
	certs := t.genEnvCerts(t.Range("nc", 1, 5))
	n := t.Range("recipients", 1, len(certs))
	recips, others := certs[:n], certs[n:]
	content := t.genPlainText()
	alg := pick(t, "alg", envAlgs)
	d := fmt.Sprintf("%s, %d bytes, recipients %v", algName(alg), len(content), recips)
	t.Note("%s, others %v", d, others)
	t.Sample("%s", d)
	t.NonTrivial(content, d)
	t.Class("%s, %d recipients", algName(alg), n)
	der, err := t.encrypt(alg, content, recips)
	if err != nil {
		t.Violate("Encrypt: %v", err)
	}
	// what other implementations make of the message
	m := t.envParts(der)
	if len(m.recips) != n {
		t.Violate("%d recipients in the message instead of %d", len(m.recips), n)
	}
	for i, c := range recips {
		r := m.recipient(c)
		if r == nil {
			t.Violate("recipient %d is not named in the message by the issuer and serial number of its certificate", i)
		}
		key, err := rsa.DecryptPKCS1v15(nil, c.key.RSA, r.enc)
		if err != nil {
			t.Violate("the content key of recipient %d is not encrypted to its public key: %v", i, err)
		}
		got, ok := decryptRef(m.alg, key, m.iv, m.ct)
		if !ok || !bytes.Equal(got, content) {
			t.Violate("decrypting the message of recipient %d independently does not give the content", i)
		}
	}
	// every message has fresh secrets
	der2, err := t.encrypt(alg, content, recips)
	if err != nil {
		t.Violate("second Encrypt: %v", err)
	}
	m2 := t.envParts(der2)
	r2 := m2.recipient(recips[0])
	if r2 == nil {
		t.Violate("recipient 0 is missing in the second message")
	}
	k1, _ := rsa.DecryptPKCS1v15(nil, recips[0].key.RSA, m.recipient(recips[0]).enc)
	k2, _ := rsa.DecryptPKCS1v15(nil, recips[0].key.RSA, r2.enc)
	if bytes.Equal(k1, k2) {
		t.Violate("two messages use the same content key")
	}
	if bytes.Equal(m.iv, m2.iv) {
		t.Violate("two messages use the same IV or nonce")
	}
	// reading
	q := t.parseEnv("message", der)
	for i := 0; i < 2; i++ {
		for _, k := range t.perm(n) {
			t.checkDecrypt("message", q, recips[k], content)
		}
	}
	if q.Verify() == nil {
		t.Violate("an encrypted message passes signature verification")
	}
	for _, c := range others {
		if got, err := q.Decrypt(c.cert, c.key.RSA); err == nil {
			t.Violate("a certificate that is not a recipient (%v) decrypts the message: %d bytes", c, len(got))
		}
		// the right key does not help without the certificate
		if got, err := q.Decrypt(c.cert, recips[0].key.RSA); err == nil {
			t.Violate("a certificate that is not a recipient (%v) decrypts the message with a recipient's key: %d bytes", c, len(got))
		}
		if c.key != recips[0].key {
			if got, err := q.Decrypt(recips[0].cert, c.key.RSA); err == nil && (alg == pkcs7.EncryptionAlgorithmAES128GCM || len(content) > 0 && bytes.Equal(got, content)) {
				t.Violate("another key decrypts the message of %v", recips[0])
			}
		}
	}
	if t.Pct("eckey", 10) {
		if _, err := q.Decrypt(recips[0].cert, keyByName["ec256-a"].EC); err == nil {
			t.Violate("an EC key decrypts the message")
		}
	}
	if t.Pct("ber", 40) { // a copy in BER
		style, what := t.berStyle(mustNode(der))
		ber := mustNode(der).encode(style)
		q := t.parseEnv("BER form ("+what+")", ber)
		for _, c := range recips {
			t.checkDecrypt("BER form ("+what+")", q, c, content)
		}
	}
}

// damage changes ciphertext bytes; it never returns the same bytes.
func (t *T) damage(b []byte) ([]byte, string) {
	o := append([]byte(nil), b...)
	switch t.Uni("dmg", 7) {
	case 0:
		if len(o) > 0 {
			return o[:t.Uni("cut", len(o))], "truncated"
		}
	case 1:
		return cat(o, t.Bytes("more", 1, 33)), "extended"
	case 2:
		if len(o) >= 32 { // blocks swapped
			n := len(o) / 16
			i, j := t.Uni("i", n), t.Uni("j", n)
			copy(o[16*i:16*i+16], b[16*j:])
			copy(o[16*j:16*j+16], b[16*i:])
			if !bytes.Equal(o, b) {
				return o, "blocks swapped"
			}
		}
	case 3:
		if len(o) > 8 {
			n := pick(t, "drop", []int{1, 8, 16})
			if n <= len(o) {
				i := t.Uni("at", len(o)-n+1)
				return append(o[:i:i], o[i+n:]...), "part removed"
			}
		}
	case 4: // the end, where the padding or the tag is
		if len(o) > 0 {
			i := len(o) - 1 - t.Uni("back", min(len(o), 32))
			o[i] ^= byte(1 + t.Uni("x", 255))
			return o, "end changed"
		}
	}
	if len(o) == 0 {
		return []byte{1}, "byte added"
	}
	for k := t.Range("flips", 1, 3); k > 0; k-- {
		o[t.Uni("at", len(o))] ^= 1 << t.Uni("bit", 8)
	}
	if bytes.Equal(o, b) {
		o[0] ^= 1
	}
	return o, "bits changed"
}

// c27Tamper changes the ciphertext, the IV or the encrypted key of messages made by the package.
func c27Tamper(t *T) {
	c := t.genEnvCert()
	content := t.genPlainText()
	if len(content) > 300 && t.Pct("small", 80) {
		content = content[:t.Uni("smalln", 300)]
	}
	alg := pick(t, "alg", []int{pkcs7.EncryptionAlgorithmDESCBC, pkcs7.EncryptionAlgorithmAES128GCM, pkcs7.EncryptionAlgorithmAES128GCM})
	der, err := t.encrypt(alg, content, []*envCert{c})
	if err != nil {
		t.Violate("Encrypt: %v", err)
	}
	m := t.envParts(der)
	key, err := rsa.DecryptPKCS1v15(nil, c.key.RSA, m.recips[0].enc)
	if err != nil {
		t.Violate("the content key is not encrypted to the recipient: %v", err)
	}
	root := mustNode(der)
	for i := 0; i < 6; i++ {
		w := root.clone()
		eci := w.kids[1].kids[0].kids[2]
		ct, iv := m.ct, m.iv
		var what string
		if t.Pct("iv", 25) {
			iv = append([]byte(nil), iv...)
			if t.Pct("ivlen", 25) {
				iv, what = t.damage(iv)
				what = "IV " + what
			} else {
				iv[t.Uni("at", len(iv))] ^= 1 << t.Uni("bit", 8)
				what = "IV bit"
			}
			p := eci.kids[1].kids[1]
			if alg == pkcs7.EncryptionAlgorithmAES128GCM {
				write, x := gcmNonce(p)
				x.content = iv
				write()
			} else {
				p.content = iv
			}
		} else {
			ct, what = t.damage(ct)
			x := eci.kids[2]
			if x.constr {
				x.kids = []*node{{id: []byte{4}, content: ct}}
				if t.Pct("split", 20) && len(ct) > 1 {
					k := t.Uni("splitat", len(ct))
					x.kids = []*node{{id: []byte{4}, content: ct[:k]}, {id: []byte{4}, content: ct[k:]}}
				}
			} else {
				x.content = ct
			}
		}
		msg := w.encode(nil)
		t.NonTrivial(key, ct, iv)
		t.Evals(1)
		t.Class("%s %s", algName(alg), what)
		want, ok := decryptRef(m.alg, key, iv, ct)
		if alg == pkcs7.EncryptionAlgorithmAES128GCM && ok {
			t.Violate("harness: damaged GCM message is authentic")
		}
		d := fmt.Sprintf("%s, content %d bytes, %s", algName(alg), len(content), what)
		t.Note("%s", d)
		if i == 0 {
			t.Sample("%s", d)
		}
		t.compareDecrypt(d, msg, c, want, ok)
	}
}

// compareDecrypt checks the outcome of Parse and Decrypt of a message against the model.
func (t *T) compareDecrypt(what string, msg []byte, c *envCert, want []byte, ok bool) {
	var q *pkcs7.PKCS7
	var got []byte
	var err error
	t.Guard(what, msg, func() {
		if q, err = pkcs7.Parse(append([]byte(nil), msg...)); err == nil {
			got, err = q.Decrypt(c.cert, c.key.RSA)
		}
	})
	if ok && err != nil {
		t.Attach("message.p7", msg)
		t.Violate("%s: decryption failed: %v", what, err)
	}
	if !ok && err == nil {
		t.Attach("message.p7", msg)
		t.Violate("%s: a damaged message was decrypted to %d bytes", what, len(got))
	}
	if ok && !bytes.Equal(got, want) {
		t.Attach("message.p7", msg)
		t.Violate("%s: decrypted to %d bytes instead of %d: %s", what, len(got), len(want), firstDiff(string(want), string(got)))
	}
}

// c27Foreign decrypts messages of other producers with all the ciphers, with right and wrong padding.
func c27Foreign(t *T) {
	certs := t.genEnvCerts(t.Range("nc", 1, 4))
	n := t.Range("recipients", 1, len(certs))
	alg := pick(t, "alg", []string{oidDES, oid3DES, oidAES128, oidAES256})
	klen := map[string]int{oidDES: 8, oid3DES: 24, oidAES128: 16, oidAES256: 32}[alg]
	key := bulk(t.Seed("key"), klen)
	b, _ := envBlock(alg, key)
	bs := b.BlockSize()
	content := t.genPlainText()
	pad := bs - len(content)%bs
	plain := cat(content, bytes.Repeat([]byte{byte(pad)}, pad))
	what := "right padding"
	switch t.Uni("padding", 8) {
	case 0: // the last octet
		plain[len(plain)-1] = byte(pick(t, "last", []int{0, 1, bs - 1, bs, bs + 1, 0x80, 0xff, 2, len(plain) & 0xff}))
		what = "last octet"
	case 1: // one octet of it
		plain[len(plain)-1-t.Uni("back", pad)] ^= byte(1 + t.Uni("x", 255))
		what = "one octet"
	case 2: // more than a block
		k := bs + 1 + t.Uni("k", bs)
		plain = cat(content[:len(content)-len(content)%bs], bytes.Repeat([]byte{byte(k)}, 2*bs))
		what = "longer than a block"
	case 3: // lengths other implementations put in the last octet only
		for i := len(plain) - pad; i < len(plain)-1; i++ {
			plain[i] = byte(t.Uni("any", 256))
		}
		what = "random octets"
	}
	m := &envMsg{alg: alg, iv: bulk(t.Seed("iv"), bs)}
	m.ct = make([]byte, len(plain))
	cipher.NewCBCEncrypter(b, m.iv).CryptBlocks(m.ct, plain)
	switch t.Uni("form", 12) {
	case 0:
		m.iv = m.iv[:t.Uni("ivlen", len(m.iv))]
		what += ", short IV"
	case 1:
		m.iv = cat(m.iv, t.Bytes("ivmore", 1, 9))
		what += ", long IV"
	case 2:
		m.ct = nil
		what += ", empty"
	case 3:
		m.ct = m.ct[:t.Uni("cut", len(m.ct))]
		what += ", truncated"
	case 4:
		key = cat(key, []byte{1})
		if t.Pct("shortkey", 50) {
			key = key[:len(key)-2]
		}
		what += ", wrong key length"
	}
	if t.Pct("constr", 60) {
		m.split = []int{}
		for k := t.Uni("parts", 6); k > 0; k-- {
			m.split = append(m.split, pick(t, "part", []int{0, 1, 5, 8, 16, 100, 127, 128, 1000}))
		}
	}
	for _, i := range t.perm(len(certs))[:n] {
		c := certs[i]
		enc, err := rsa.EncryptPKCS1v15(&prng{t.Seed("pk")}, &c.key.RSA.PublicKey, key)
		if err != nil {
			panic(err)
		}
		m.recips = append(m.recips, envRecipient{c.cert.RawIssuer, c.serial, enc})
	}
	msg := m.DER()
	form := "DER"
	if t.Pct("ber", 40) {
		style, how := t.berStyle(mustNode(msg))
		msg = mustNode(msg).encode(style)
		form = how
	}
	want, ok := decryptRef(alg, key, m.iv, m.ct)
	d := fmt.Sprintf("%s, content %d bytes, %s, split %v, %s, recipients %d of %v", alg, len(content), what, m.split, form, n, certs)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(msg)
	t.Class("%s %s ok=%v", alg, what, ok)
	for _, c := range certs {
		t.compareDecrypt(fmt.Sprintf("%s, for %v", d, c), msg, c, want, ok && m.recipient(c) != nil)
	}
}

func (p *prng) Read(b []byte) (int, error) {
	copy(b, p.bytes(len(b)))
	return len(b), nil
}

// c27Refuse covers the requests that cannot be served.
func c27Refuse(t *T) {
	content := t.genPlainText()
	ok := t.genEnvCert()
	t.NonTrivial(content, ok.String())
	// a recipient without an RSA key
	ec := keyByName[pick(t, "ec", []string{"ec256-a", "ec384-a", "ec521-a", "dsa1024q160-a"})]
	bad := &envCert{key: ec, serial: big.NewInt(5), cert: mustGoCert(selfCert(ec, 1))}
	recips := []*envCert{ok}
	at := t.Uni("at", 2)
	recips = append(recips[:at:at], append([]*envCert{bad}, recips[at:]...)...)
	alg := pick(t, "alg", envAlgs)
	if _, err := t.encrypt(alg, content, recips); err == nil {
		t.Violate("Encrypt to a %s key succeeded", ec.Kind)
	}
	// an unknown algorithm
	unknown := pick(t, "unknown", []int{-1, 2, 3, 100})
	if _, err := t.encrypt(unknown, content, []*envCert{ok}); err != pkcs7.ErrUnsupportedEncryptionAlgorithm {
		t.Violate("Encrypt with algorithm number %d: %v", unknown, err)
	}
	// a signed message is not an encrypted one
	m := t.genP7Msg(1)
	q := t.parseP7("signed", m.der)
	s := m.signers[0]
	if _, err := q.Decrypt(mustGoCert(s.cert), s.key.RSA); err != pkcs7.ErrNotEncryptedContent {
		t.Violate("Decrypt of a signed message: %v", err)
	}
	// content encryption algorithms that are not supported
	key := bulk(3, 16)
	enc, _ := rsa.EncryptPKCS1v15(&prng{9}, &ok.key.RSA.PublicKey, key)
	e := &envMsg{alg: pick(t, "oid", []string{"2.16.840.1.101.3.4.1.22", "2.16.840.1.101.3.4.1.1", "1.2.840.113549.3.4", "1.3.14.3.2.6"}), iv: bulk(4, 16), ct: bulk(5, 32),
		recips: []envRecipient{{ok.cert.RawIssuer, ok.serial, enc}}}
	t.compareDecrypt("unsupported content encryption "+e.alg, e.DER(), ok, nil, false)
	t.Class("%s", algName(alg))
	t.Sample("refused: %s recipient, algorithm %d, cipher %s", ec.Name, unknown, e.alg)
}

func init() {
	register("C27", "a case counts if a content was encrypted for at least one recipient, or a message was damaged or made by the harness; distinct by content, recipients and message bytes",
		Sub{"roundtrip", 1600, 60000, c27RoundTrip},
		Sub{"tamper", 1200, 60000, c27Tamper},
		Sub{"foreign", 2400, 90000, c27Foreign},
		Sub{"refuse", 200, 5000, c27Refuse})
}

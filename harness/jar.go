package main

import (
	"bytes"
	"crypto"
	"encoding/base64"
	"fmt"
	"strings"
)

// ---- JAR manifest writer ----

type mfAttr struct{ K, V string }

type mfLayout struct {
	EOL   string // "\r\n", "\n", "\r"; "mix" alternates CRLF and LF
	Width int    // bytes per line without the line end; 0 = 70
	Blank int    // additional blank lines after each section
	Seed  uint64 // for "mix"
}

type mfSection []mfAttr

type mfDoc struct {
	Main    mfSection
	Entries []mfSection
	Layout  mfLayout
	NoFinal bool // the last section ends without a blank line
}

func (l *mfLayout) eol(p *prng) string {
	switch l.EOL {
	case "":
		return "\r\n"
	case "mix":
		if p.n(2) == 0 {
			return "\n"
		}
		return "\r\n"
	}
	return l.EOL
}

func (s mfSection) encode(l *mfLayout, p *prng, blank bool) []byte {
	var b bytes.Buffer
	w := l.Width
	if w == 0 {
		w = 70
	}
	for _, a := range s {
		line := a.K + ": " + a.V
		// the header name and ": " cannot be folded
		first := w
		if m := len(a.K) + 2; first < m {
			first = m
		}
		if len(line) <= first {
			b.WriteString(line + l.eol(p))
			continue
		}
		b.WriteString(line[:first] + l.eol(p))
		for line = line[first:]; len(line) > 0; {
			n := w - 1
			if n < 1 {
				n = 1
			}
			if n > len(line) {
				n = len(line)
			}
			b.WriteString(" " + line[:n] + l.eol(p))
			line = line[n:]
		}
	}
	if blank {
		b.WriteString(l.eol(p))
		for i := 0; i < l.Blank; i++ {
			b.WriteString(l.eol(p))
		}
	}
	return b.Bytes()
}

// Encode returns the file and its sections (main, then entries).
func (d *mfDoc) Encode() ([]byte, [][]byte) {
	p := &prng{d.Layout.Seed}
	var secs [][]byte
	secs = append(secs, d.Main.encode(&d.Layout, p, !(d.NoFinal && len(d.Entries) == 0)))
	for i, e := range d.Entries {
		secs = append(secs, e.encode(&d.Layout, p, !(d.NoFinal && i == len(d.Entries)-1)))
	}
	return cat(secs...), secs
}

func (d *mfDoc) clone() *mfDoc {
	c := *d
	c.Main = append(mfSection(nil), d.Main...)
	c.Entries = nil
	for _, e := range d.Entries {
		c.Entries = append(c.Entries, append(mfSection(nil), e...))
	}
	return &c
}

// v1 digests
var v1Hash = map[string]crypto.Hash{"SHA1": crypto.SHA1, "SHA-256": crypto.SHA256, "SHA-384": crypto.SHA384, "SHA-512": crypto.SHA512}
var v1Names = []string{"SHA1", "SHA-256", "SHA-384", "SHA-512"}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// ---- PKCS#7 ----

type v1Alg struct {
	Kind       string
	Hash       crypto.Hash
	Digest, ID string
}

var v1Algs = func() []v1Alg {
	d := map[crypto.Hash]string{crypto.SHA1: "1.3.14.3.2.26", crypto.SHA224: "2.16.840.1.101.3.4.2.4", crypto.SHA256: "2.16.840.1.101.3.4.2.1",
		crypto.SHA384: "2.16.840.1.101.3.4.2.2", crypto.SHA512: "2.16.840.1.101.3.4.2.3"}
	var r []v1Alg
	for _, h := range []crypto.Hash{crypto.SHA1, crypto.SHA224, crypto.SHA256, crypto.SHA384, crypto.SHA512} {
		r = append(r, v1Alg{"rsa", h, d[h], "1.2.840.113549.1.1.1"}, v1Alg{"rsa", h, d[h], sigOIDs["rsa"][h]})
		r = append(r, v1Alg{"ec", h, d[h], "1.2.840.10045.2.1"}, v1Alg{"ec", h, d[h], sigOIDs["ec"][h]})
		if h == crypto.SHA1 || h == crypto.SHA224 || h == crypto.SHA256 {
			r = append(r, v1Alg{"dsa", h, d[h], "1.2.840.10040.4.1"}, v1Alg{"dsa", h, d[h], sigOIDs["dsa"][h]})
		}
	}
	r = append(r, v1Alg{"rsa", crypto.SHA1, "1.3.14.3.2.29", "1.2.840.113549.1.1.1"},
		v1Alg{"rsa", crypto.MD5, "1.2.840.113549.2.5", "1.2.840.113549.1.1.1"},
		v1Alg{"rsa", crypto.MD5, "1.2.840.113549.2.5", "1.2.840.113549.1.1.4"},
		v1Alg{"rsa", crypto.MD5, "1.3.14.3.2.25", "1.2.840.113549.1.1.4"},
		v1Alg{"rsa", crypto.MD5, "1.3.14.3.2.3", "1.2.840.113549.1.1.4"})
	return r
}()

// plainDigest: the digest identifier names a digest, not one of the historic signature identifiers.
func (a v1Alg) plainDigest() bool {
	return !strings.HasPrefix(a.Digest, "1.3.14.3.2.") || a.Digest == "1.3.14.3.2.26"
}

func (k *Key) v1Fits(a v1Alg) bool {
	if a.Kind != k.Kind {
		return false
	}
	return k.Kind != "rsa" || (k.RSA.N.BitLen()+7)/8 >= a.Hash.Size()+19+11
}

func v1AlgsFor(k *Key) []v1Alg {
	var r []v1Alg
	for _, a := range v1Algs {
		if k.v1Fits(a) {
			r = append(r, a)
		}
	}
	return r
}

// defaultV1Alg is SHA-256 (SHA-1 where it does not fit).
func defaultV1Alg(k *Key) v1Alg {
	for _, a := range v1Algs {
		if a.Hash == crypto.SHA256 && k.v1Fits(a) {
			return a
		}
	}
	panic("no v1 alg")
}

const (
	oidPkcsData       = "1.2.840.113549.1.7.1"
	oidPkcsSignedData = "1.2.840.113549.1.7.2"
	oidContentType    = "1.2.840.113549.1.9.3"
	oidMessageDigest  = "1.2.840.113549.1.9.4"
	oidSigningTime    = "1.2.840.113549.1.9.5"
)

func attrDER(oid string, vals ...[]byte) []byte { return dseq(doid(oid), dset(vals...)) }

// certInfo pulls issuer and serial out of a certificate.
func issuerSerial(cert []byte) (issuer, serial []byte) {
	tbs := mustNode(cert).kids[0]
	i := 0
	if tbs.kids[0].id[0] == 0xa0 {
		i = 1
	}
	return tbs.kids[i+2].encode(nil), tbs.kids[i].encode(nil)
}

func spkiOf(cert []byte) []byte {
	tbs := mustNode(cert).kids[0]
	i := 0
	if tbs.kids[0].id[0] == 0xa0 {
		i = 1
	}
	return tbs.kids[i+5].encode(nil)
}

// P7Signer is one SignerInfo.
type P7Signer struct {
	Key       *Key
	Alg       v1Alg
	Cert      []byte // identifies issuer and serial
	SignedAtt bool
	Attrs     [][]byte // extra signed attributes (DER)
	NoType    bool     // leave out the content type attribute
	BadType   bool     // wrong content type attribute
	BadDigest bool     // wrong message digest attribute
	BadSig    bool
	Unauth    [][]byte
	Params    bool // NULL parameters on the digest algorithm
	TrimZeros bool
	FlipBit   int // 1 + bit of the signature to flip
	Odd       func(signed []byte) []byte
}

func (p *P7Signer) DER(content []byte) []byte {
	issuer, serial := issuerSerial(p.Cert)
	var attrs []byte
	signed := content
	if p.SignedAtt {
		ct := oidPkcsData
		if p.BadType {
			ct = oidPkcsSignedData
		}
		dg := hashOf(p.Alg.Hash, content)
		if p.BadDigest {
			dg[0] ^= 1
		}
		list := [][]byte{attrDER(oidMessageDigest, doct(dg))}
		if !p.NoType {
			list = append(list, attrDER(oidContentType, doid(ct)))
		}
		list = append(list, p.Attrs...)
		signed = dsetSorted(list...)
		attrs = append([]byte{0xa0}, signed[1:]...)
	}
	sig := p.Key.SignHash(p.Alg.Hash, signed)
	if p.BadSig {
		sig[len(sig)-1] ^= 1
	}
	if p.Odd != nil {
		sig = p.Odd(signed)
	}
	if p.FlipBit > 0 {
		b := (p.FlipBit - 1) % (8 * len(sig))
		sig[b/8] ^= 1 << (b % 8)
	}
	if p.TrimZeros {
		for len(sig) > 0 && sig[0] == 0 {
			sig = sig[1:]
		}
	}
	var un []byte
	if len(p.Unauth) > 0 {
		un = tlv(0xa1, p.Unauth...)
	}
	var params []byte
	if p.Params {
		params = dnull()
	}
	encParams := []byte(nil)
	if p.Key.Kind == "rsa" {
		encParams = dnull()
	}
	return dseq(dint(1), dseq(issuer, serial), algID(p.Alg.Digest, params), attrs, algID(p.Alg.ID, encParams), doct(sig), un)
}

// P7 is a SignedData message.
type P7 struct {
	Content  []byte // what is signed
	Attached bool
	Certs    [][]byte
	Signers  []*P7Signer
	CRLs     [][]byte
	Raw      []RawInfo // SignerInfos made elsewhere
}

// RawInfo is a SignerInfo that is put first (0) or last (1).
type RawInfo struct {
	At  int
	DER []byte
}

func (p *P7) DER() []byte {
	var da, si [][]byte
	seen := map[string]bool{}
	for _, s := range p.Signers {
		var params []byte
		if s.Params {
			params = dnull()
		}
		if d := algID(s.Alg.Digest, params); !seen[string(d)] {
			seen[string(d)] = true
			da = append(da, d)
		}
		si = append(si, s.DER(p.Content))
	}
	for _, r := range p.Raw {
		if r.At == 0 {
			si = append([][]byte{r.DER}, si...)
		} else {
			si = append(si, r.DER)
		}
	}
	ci := dseq(doid(oidPkcsData))
	if p.Attached {
		ci = dseq(doid(oidPkcsData), tlv(0xa0, doct(p.Content)))
	}
	var certs, crls []byte
	if len(p.Certs) > 0 {
		certs = tlv(0xa0, p.Certs...)
	}
	if len(p.CRLs) > 0 {
		crls = tlv(0xa1, p.CRLs...)
	}
	return dseq(doid(oidPkcsSignedData), tlv(0xa0, dseq(dint(1), dsetSorted(da...), ci, certs, crls, dset(si...))))
}

// ---- v1 signing ----

type JarSigner struct {
	Base, Ext string
	Key       *Key
	Alg       v1Alg
	Attrs     bool
	Chain     [][]byte // expected chain, signer first
	Extra     [][]byte // unrelated certificates
	Order     []int    // order of all certificates in the message
	Digests   []string // digests in the .SF
	Whole     bool     // whole-manifest digest
	MainAttr  bool
	NoEntryDg bool // .SF entries carry no digests (only useful with Whole)
	Signtool  bool
	ApkSigned string
	NoVersion bool
	Main      []mfAttr
	Layout    mfLayout
	NoFinal   bool
	BER       func([]byte) []byte
	P7        func(*P7)
	OmitSF    map[string]bool // entries left out of the .SF

	Doc   *mfDoc
	SF    []byte
	Block []byte
}

func (s *JarSigner) sfName() string    { return "META-INF/" + s.Base + ".SF" }
func (s *JarSigner) blockName() string { return "META-INF/" + s.Base + s.Ext }

type JarAPK struct {
	Zip       *ZipSpec // content only
	MFDigests []string
	MFLayout  mfLayout
	MFNoFinal bool
	MFMain    []mfAttr // additional main attributes
	ExtraAttr func(name string) []mfAttr
	Signers   []*JarSigner
	First     bool // META-INF files come first

	Doc  *mfDoc
	MF   []byte
	Secs [][]byte
}

// MakeMF writes MANIFEST.MF for the entries as they are.
func (j *JarAPK) MakeMF() {
	d := &mfDoc{Layout: j.MFLayout, NoFinal: j.MFNoFinal}
	d.Main = append(mfSection{{"Manifest-Version", "1.0"}}, j.MFMain...)
	for _, e := range j.Zip.Entries {
		if strings.HasPrefix(e.Name, "META-INF/") || strings.HasSuffix(e.Name, "/") {
			continue
		}
		s := mfSection{{"Name", e.Name}}
		for _, n := range j.MFDigests {
			s = append(s, mfAttr{n + "-Digest", b64(hashOf(v1Hash[n], e.Data))})
		}
		if j.ExtraAttr != nil {
			s = append(s, j.ExtraAttr(e.Name)...)
		}
		d.Entries = append(d.Entries, s)
	}
	j.Doc = d
	j.MF, j.Secs = d.Encode()
}

func signtoolCut(b []byte) []byte {
	if bytes.HasSuffix(b, []byte("\n\n")) {
		return b[:len(b)-1]
	}
	return b
}

// MakeSF writes the .SF of signer i for the current MANIFEST.MF.
func (j *JarAPK) MakeSF(s *JarSigner) {
	d := &mfDoc{Layout: s.Layout, NoFinal: s.NoFinal}
	if !s.NoVersion {
		d.Main = append(d.Main, mfAttr{"Signature-Version", "1.0"})
	}
	if s.Signtool {
		d.Main = append(d.Main, mfAttr{"Created-By", "signtool 1.3"})
	} else {
		d.Main = append(d.Main, mfAttr{"Created-By", "1.8.0 (harness)"})
	}
	for _, n := range s.Digests {
		h := v1Hash[n]
		if s.Whole {
			if s.Signtool {
				d.Main = append(d.Main, mfAttr{n + "-Digest", b64(hashOf(h, j.MF))})
			} else {
				d.Main = append(d.Main, mfAttr{n + "-Digest-Manifest", b64(hashOf(h, j.MF))})
			}
		}
		if s.MainAttr {
			d.Main = append(d.Main, mfAttr{n + "-Digest-Manifest-Main-Attributes", b64(hashOf(h, j.Secs[0]))})
		}
	}
	if s.ApkSigned != "" {
		d.Main = append(d.Main, mfAttr{"X-Android-APK-Signed", s.ApkSigned})
	}
	d.Main = append(d.Main, s.Main...)
	for i, e := range j.Doc.Entries {
		if s.OmitSF[e[0].V] {
			continue
		}
		x := mfSection{{"Name", e[0].V}}
		sec := j.Secs[i+1]
		if s.Signtool {
			sec = signtoolCut(sec)
		}
		if !s.NoEntryDg {
			for _, n := range s.Digests {
				x = append(x, mfAttr{n + "-Digest", b64(hashOf(v1Hash[n], sec))})
			}
		}
		d.Entries = append(d.Entries, x)
	}
	s.Doc = d
	s.SF, _ = d.Encode()
}

// MakeBlock signs the .SF.
func (s *JarSigner) MakeBlock() {
	all := append(append([][]byte{}, s.Chain...), s.Extra...)
	if len(s.Order) == len(all) {
		q := make([][]byte, len(all))
		for i, k := range s.Order {
			q[i] = all[k]
		}
		all = q
	}
	p := &P7{Content: s.SF, Certs: all, Signers: []*P7Signer{{Key: s.Key, Alg: s.Alg, Cert: s.Chain[0], SignedAtt: s.Attrs, Params: true}}}
	if s.P7 != nil {
		s.P7(p)
	}
	s.Block = p.DER()
	if s.BER != nil {
		s.Block = s.BER(s.Block)
	}
}

func (j *JarAPK) Make() {
	j.MakeMF()
	for _, s := range j.Signers {
		j.MakeSF(s)
		s.MakeBlock()
	}
}

// Spec is the ZIP with the META-INF files as they are now.
func (j *JarAPK) Spec() *ZipSpec {
	z := *j.Zip
	meta := []*ZEntry{{Name: "META-INF/MANIFEST.MF", Data: j.MF, Deflate: true}}
	for _, s := range j.Signers {
		meta = append(meta, &ZEntry{Name: s.sfName(), Data: s.SF, Deflate: true}, &ZEntry{Name: s.blockName(), Data: s.Block})
	}
	if j.First {
		z.Entries = append(append([]*ZEntry{}, meta...), j.Zip.Entries...)
	} else {
		z.Entries = append(append([]*ZEntry{}, j.Zip.Entries...), meta...)
	}
	return &z
}

func (j *JarAPK) Bytes() []byte { return j.Spec().Build().Assemble(nil) }

func (j *JarAPK) chains() [][][]byte {
	var r [][][]byte
	for _, s := range j.Signers {
		r = append(r, s.Chain)
	}
	return r
}

func extFor(k *Key) string {
	return map[string]string{"rsa": ".RSA", "ec": ".EC", "dsa": ".DSA"}[k.Kind]
}

func (s *JarSigner) String() string {
	f := ""
	for _, x := range []struct {
		b bool
		n string
	}{{s.Attrs, " signed-attrs"}, {s.Whole, " whole"}, {s.MainAttr, " main"}, {s.Signtool, " signtool"}, {s.BER != nil, " ber"}, {s.NoEntryDg, " no-entry-digests"}} {
		if x.b {
			f += x.n
		}
	}
	return fmt.Sprintf("%s%s %s %s+%s sf=%v certs=%d+%d%s eol=%q w=%d", s.Base, s.Ext, s.Key.Name, s.Alg.Digest, s.Alg.ID, s.Digests, len(s.Chain), len(s.Extra), f, s.Layout.EOL, s.Layout.Width)
}

func jarStr(j *JarAPK) string {
	var r []string
	for _, s := range j.Signers {
		r = append(r, s.String())
	}
	return fmt.Sprintf("mf=%v eol=%q w=%d entries=%d {%s}", j.MFDigests, j.MFLayout.EOL, j.MFLayout.Width, len(j.Zip.Entries), strings.Join(r, "; "))
}

// ---- generators ----

func (t *T) genLayout() mfLayout {
	l := mfLayout{}
	if t.Pct("l.eol", 40) {
		l.EOL = pick(t, "l.eols", []string{"\n", "\r", "\r\n", "mix"})
		l.Seed = t.Seed("l.seed")
	}
	if t.Pct("l.width", 30) {
		l.Width = t.Range("l.w", 3, 120)
	}
	if t.Pct("l.blank", 10) {
		l.Blank = t.Range("l.b", 1, 3)
	}
	return l
}

func (t *T) subset(label string, from []string) []string {
	var r []string
	for _, x := range from {
		if t.Pct(label, 45) {
			r = append(r, x)
		}
	}
	if len(r) == 0 {
		r = []string{pick(t, label+".one", from)}
	}
	return r
}

func (t *T) genJarSigner(base string) *JarSigner {
	k := t.genKey("v1.key")
	s := &JarSigner{Base: base, Key: k, Ext: extFor(k)}
	if t.Pct("v1.ext", 10) {
		s.Ext = pick(t, "v1.exts", []string{".RSA", ".DSA", ".EC"})
	}
	s.Alg = pick(t, "v1.alg", v1AlgsFor(k))
	v := t.Uni("v1.certv", 3)
	p := keyByName[pick(t, "v1.issuer", []string{"rsa2048-d", "ec256-f", "rsa1024-f"})]
	switch t.Uni("v1.chain", 6) {
	case 5:
		q := keyByName["rsa1024-d"]
		s.Chain = [][]byte{issuedCert(k, v, q, 40), interCert(q, 40, p, 0)}
		if t.Pct("v1.root", 70) {
			s.Chain = append(s.Chain, selfCert(p, 0))
		}
	case 0:
		s.Chain = [][]byte{issuedCert(k, v, p, 0), selfCert(p, 0)}
	case 1:
		s.Chain = [][]byte{issuedCert(k, v, p, 0)}
	default:
		s.Chain = [][]byte{selfCert(k, v)}
	}
	for i := t.Uni("v1.extra", 4) - 1; i > 0; i-- {
		s.Extra = append(s.Extra, selfCert(keyByName[pick(t, "v1.xk", []string{"rsa2048-b", "ec256-e", "rsa1024-e"})], 20+i))
	}
	if t.Pct("v1.order", 40) {
		s.Order = t.perm(len(s.Chain) + len(s.Extra))
	}
	s.Digests = t.subset("v1.sfd", v1Names)
	s.Whole = t.Pct("v1.whole", 60)
	s.MainAttr = t.Pct("v1.main", 40)
	s.NoEntryDg = s.Whole && t.Pct("v1.nodg", 10)
	s.Signtool = t.Pct("v1.signtool", 12)
	s.Layout = t.genLayout()
	s.NoFinal = t.Pct("v1.nofinal", 15)
	s.Attrs = t.Pct("v1.attrs", 40) && s.Alg.plainDigest()
	if t.Pct("v1.p7", 25) {
		f := t.genP7Form()
		s.P7 = func(p *P7) { f.apply(p) }
	}
	if t.Pct("v1.ber", 25) {
		seed := t.Seed("v1.berseed")
		s.BER = func(b []byte) []byte { return randomBER(b, seed) }
	}
	return s
}

// randomBER re-encodes DER with random indefinite and long lengths.
func randomBER(der []byte, seed uint64) []byte {
	p := &prng{seed}
	return mustNode(der).encode(func(n *node, l int) (bool, int) {
		switch p.n(4) {
		case 0:
			return n.constr, 0
		case 1:
			return false, 1 + p.n(4)
		}
		return false, 0
	})
}

// genJar draws a correctly v1-signed APK with at most maxSigners signers (exactly -maxSigners if negative).
func (t *T) genJar(o zipOpts, maxSigners int) *JarAPK {
	j := &JarAPK{Zip: t.genZip(o)}
	j.MFDigests = t.subset("mfd", v1Names)
	j.MFLayout = t.genLayout()
	j.MFNoFinal = t.Pct("mf.nofinal", 15)
	j.First = t.Pct("mf.first", 50)
	if t.Pct("mf.main", 60) {
		j.MFMain = append(j.MFMain, mfAttr{"Created-By", "1.8.0 (harness)"})
	}
	n := 1
	if maxSigners > 1 && t.Pct("v1.multi", 20) {
		n = t.Range("v1.n", 2, maxSigners)
	}
	if maxSigners < 0 {
		n = -maxSigners
	}
	for i := 0; i < n; i++ {
		base := pick(t, "v1.base", []string{"CERT", "ANDROID", "a", "KEY0", "x.y", "lower-case_1"})
		if i > 0 {
			base += fmt.Sprint(i)
		}
		j.Signers = append(j.Signers, t.genJarSigner(base))
	}
	if n > 1 { // distinct certificates
		for i, s := range j.Signers {
			s.Chain = [][]byte{selfCert(s.Key, 30+i)}
			s.Order = nil
		}
		if t.Pct("v1.same", 20) { // or one that signed twice
			a, b := j.Signers[0], j.Signers[n-1]
			b.Key, b.Chain = a.Key, a.Chain
			b.Alg = pick(t, "v1.alg.same", v1AlgsFor(b.Key))
			b.Attrs = b.Attrs && b.Alg.plainDigest()
		}
	}
	// files in META-INF that are not part of the signature, and directories
	if t.Pct("meta.extra", 20) {
		j.Zip.Entries = append(j.Zip.Entries, &ZEntry{Name: "META-INF/services/x", Data: t.Bytes("ms", 0, 50)})
	}
	if t.Pct("dir", 20) {
		j.Zip.Entries = append(j.Zip.Entries, &ZEntry{Name: "assets2/", ExtAttrs: 0x41ed0010, Creator: 3})
	}
	return j
}

// p7Form varies the parts of a PKCS#7 message that do not matter to Android.
type p7Form struct {
	unauth, attached, noParams, trim bool
	crls                             int
	extra                            []byte // value of an additional signed attribute
	time                             bool
}

func (t *T) genP7Form() p7Form {
	f := p7Form{unauth: t.Pct("p7.unauth", 40), attached: t.Pct("p7.att", 20), noParams: t.Pct("p7.nop", 40), time: t.Pct("p7.time", 40)}
	if t.Pct("p7.extra", 40) {
		f.extra = t.Bytes("p7.ex", 0, 200)
	}
	return f
}

func (f p7Form) apply(p *P7) {
	p.Attached = f.attached
	for _, s := range p.Signers {
		s.Params = !f.noParams
		if f.unauth {
			s.Unauth = append(s.Unauth, attrDER("1.2.840.113549.1.9.16.2.14", dseq(doct([]byte("timestamp")))))
		}
		if s.SignedAtt {
			if f.time {
				s.Attrs = append(s.Attrs, attrDER(oidSigningTime, utcTime("200102030405Z")))
			}
			if f.extra != nil {
				s.Attrs = append(s.Attrs, attrDER("1.2.840.113549.1.9.52", dseq(doct(f.extra))))
			}
		}
	}
}

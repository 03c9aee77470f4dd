package main

import (
	"fmt"
	"strings"
)

// wildJar makes JAR signatures of parts that are mostly right but put together freely.
type wildJar struct {
	*wild
	j *JarAPK
}

var jarDigestNames = []string{"SHA1", "SHA-256", "SHA-384", "SHA-512"}

// sections edits the sections of a manifest or signature file.
func (w *wildJar) sections(what string, d *mfDoc, spare []string) {
	t := w.t
	for i := 0; i < len(d.Entries); i++ {
		e := d.Entries[i]
		if w.rare("drop a section of " + what) {
			d.Entries = append(d.Entries[:i:i], d.Entries[i+1:]...)
			i--
			continue
		}
		e = append(mfSection(nil), e...)
		if len(e) > 1 && w.rare("drop a digest in "+what) {
			k := t.Range("dd", 1, len(e)-1)
			e = append(e[:k:k], e[k+1:]...)
		}
		if len(e) > 1 && w.rare("wrong digest in "+what) {
			w.spoilDigest(&e[t.Range("wd", 1, len(e)-1)])
		}
		if len(e) > 1 && w.rare("digest under another name in "+what) {
			k := t.Range("dn", 1, len(e)-1)
			e[k].K = pick(t, "dnn", jarDigestNames) + "-Digest"
		}
		if w.rare("unknown digest in " + what) {
			e = append(e, mfAttr{pick(t, "ud", []string{"MD5", "SHA-224", "CRC32", "SHA3-256"}) + "-Digest", b64(t.Bytes("udv", 0, 20))})
		}
		if t.Pct("dalgs", 6) {
			e = append(e, mfAttr{"Digest-Algorithms", w.digestAlgorithms()})
			w.note("Digest-Algorithms %q in %s", e[len(e)-1].V, what)
		}
		if t.Pct("case", 4) {
			k := t.Uni("casek", len(e))
			if t.Pct("caseup", 50) {
				e[k].K = strings.ToUpper(e[k].K)
			} else {
				e[k].K = strings.ToLower(e[k].K)
			}
		}
		if t.Pct("xattr", 4) {
			e = append(e, mfAttr{pick(t, "xa", []string{"Content-Type", "Magic", "Name2", "x"}), "v" + fmt.Sprint(t.Uni("xav", 9))})
		}
		if len(e) > 2 && t.Pct("attrorder", 10) {
			p := t.perm(len(e) - 1)
			q := mfSection{e[0]}
			for _, k := range p {
				q = append(q, e[k+1])
			}
			e = q
		}
		if w.rare("attribute twice in " + what) {
			k := t.Uni("at", len(e))
			a := e[k]
			if t.Pct("atw", 50) {
				w.spoilDigest(&a)
			}
			if k > 0 {
				e = append(e, a)
				if t.Pct("aswap", 50) {
					e[k], e[len(e)-1] = e[len(e)-1], e[k]
				}
			}
		}
		if w.rare("other name in " + what) {
			e[0].V = pick(t, "on", append([]string{e[0].V + "x", "./" + e[0].V, "/" + e[0].V, strings.ToUpper(e[0].V), ""}, spare...))
		}
		d.Entries[i] = e
		if t.Pct("sectwice", 30) && w.rare("section twice in "+what) {
			d.Entries = append(d.Entries, append(mfSection(nil), e...))
		}
	}
	if w.rare("new section in " + what) {
		d.Entries = append(d.Entries, mfSection{{"Name", pick(t, "ns", append([]string{"nowhere.txt", "AndroidManifest.xml"}, spare...))}, {"SHA-256-Digest", b64(bulk(1, 32))}})
	}
	if t.Pct("noname", 40) && w.rare("nameless section in "+what) {
		d.Entries = append(d.Entries, mfSection{{"SHA-256-Digest", b64(bulk(1, 32))}})
	}
	if len(d.Entries) > 1 && t.Pct("secorder", 15) {
		p := t.perm(len(d.Entries))
		q := make([]mfSection, len(p))
		for i, k := range p {
			q[i] = d.Entries[k]
		}
		d.Entries = q
	}
}

func (w *wildJar) spoilDigest(a *mfAttr) {
	t := w.t
	switch t.Uni("sd", 5) {
	case 0:
		a.V = ""
	case 1:
		a.V = b64(t.Bytes("sdv", 1, 70))
	case 2:
		a.V += "A"
	case 3:
		if len(a.V) > 4 {
			a.V = a.V[:len(a.V)-4]
		}
	default:
		if len(a.V) > 0 {
			b := []byte(a.V)
			k := t.Uni("sdk", len(b))
			if b[k] == 'A' {
				b[k] = 'B'
			} else {
				b[k] = 'A'
			}
			a.V = string(b)
		}
	}
}

func (w *wildJar) digestAlgorithms() string {
	t := w.t
	var l []string
	for n := t.Range("dan", 0, 3); n > 0; n-- {
		l = append(l, pick(t, "da", []string{"SHA1", "SHA-256", "SHA-384", "SHA-512", "sha1", "sha-256", "MD5"}))
	}
	return strings.Join(l, " ")
}

// main edits the main attributes of a signature file.
func (w *wildJar) main(s *JarSigner) {
	t := w.t
	m := s.Doc.Main
	for i := 0; i < len(m); i++ {
		switch {
		case strings.HasSuffix(m[i].K, "-Digest-Manifest") || strings.HasSuffix(m[i].K, "-Digest"):
			if t.Pct("badwhole", 2) || w.rare("wrong digest of the manifest") {
				w.spoilDigest(&m[i])
			}
		case strings.HasSuffix(m[i].K, "Main-Attributes"):
			if w.rare("wrong digest of the main attributes") {
				w.spoilDigest(&m[i])
			}
		}
		if w.rare("drop a main attribute") {
			m = append(m[:i:i], m[i+1:]...)
			i--
		}
	}
	if t.Pct("mdalgs", 4) {
		m = append(m, mfAttr{"Digest-Algorithms", w.digestAlgorithms()})
		w.note("Digest-Algorithms %q", m[len(m)-1].V)
	}
	if w.rare("unknown digest of the manifest") {
		m = append(m, mfAttr{"MD5-Digest-Manifest" + pick(t, "umm", []string{"", "-Main-Attributes"}), b64(bulk(2, 16))})
	}
	if t.Pct("apksigned", 15) {
		m = append(m, mfAttr{"X-Android-APK-Signed", pick(t, "as", []string{"2", "3", "2, 3", "1", "4", "", " 3 ", "31", "x", "x,2", "3;2", "0x2", "02", "2.0", ",,3"})})
		w.note("X-Android-APK-Signed %q", m[len(m)-1].V)
	}
	if len(m) > 1 && t.Pct("mainorder", 15) {
		p := t.perm(len(m))
		q := make(mfSection, len(p))
		for i, k := range p {
			q[i] = m[k]
		}
		m = q
	}
	if w.rare("created by another tool") {
		m = append(m, mfAttr{"Created-By", pick(t, "cb", []string{"signtool", "x", "1.0 (signtool", "SignTool"})})
	}
	s.Doc.Main = m
}

// p7 edits a message.
func (w *wildJar) p7(p *P7) {
	t := w.t
	for i, s := range p.Signers {
		if w.rare("message signed by another key") {
			s.Key = w.key()
			s.Alg = pick(t, "pa", v1AlgsFor(s.Key))
			s.SignedAtt = s.SignedAtt && s.Alg.plainDigest()
		}
		if w.rare("other algorithm identifier") {
			a := pick(t, "oa", v1Algs)
			s.Alg.Digest, s.Alg.ID = a.Digest, a.ID
			s.SignedAtt = s.SignedAtt && s.Alg.plainDigest()
		}
		s.BadSig = s.BadSig || w.rare("damaged signature")
		if s.SignedAtt {
			s.BadType = w.rare("content type attribute")
			s.NoType = w.rare("no content type attribute")
			s.BadDigest = w.rare("message digest attribute")
			if w.rare("attribute twice") {
				s.Attrs = append(s.Attrs, attrDER(oidMessageDigest, doct(bulk(3, 20))))
			}
		}
		if w.rare("certificate of another signer") {
			s.Cert = w.cert(w.key())
		}
		p.Signers[i] = s
	}
	if t.Pct("moreinfos", 12) || w.rare("SignerInfo") {
		for n := t.Range("mi", 1, 2); n > 0; n-- {
			k := w.key()
			c := w.cert(k)
			s := &P7Signer{Key: k, Alg: pick(t, "mia", v1AlgsFor(k)), Cert: c, Params: true}
			s.SignedAtt = t.Pct("misa", 40) && s.Alg.plainDigest()
			s.BadSig = t.Pct("mibad", 40)
			s.BadType = s.SignedAtt && t.Pct("mityp", 20)
			if !w.rare("SignerInfo without certificate") {
				p.Certs = append(p.Certs, c)
			}
			at := t.Uni("miat", len(p.Signers)+1)
			p.Signers = append(p.Signers[:at:at], append([]*P7Signer{s}, p.Signers[at:]...)...)
			w.note("SignerInfo by %s at %d, bad %v %v", k.Name, at, s.BadSig, s.BadType)
		}
	}
	if len(p.Certs) > 0 && w.rare("drop a certificate") {
		k := t.Uni("dc", len(p.Certs))
		p.Certs = append(p.Certs[:k:k], p.Certs[k+1:]...)
	}
	if t.Pct("noinfo", 40) && w.rare("no SignerInfo") {
		p.Signers = nil
	}
	if len(p.Certs) > 1 && t.Pct("certorder", 20) {
		q := make([][]byte, len(p.Certs))
		for i, k := range t.perm(len(q)) {
			q[i] = p.Certs[k]
		}
		p.Certs = q
	}
}

// genWildJar makes an APK with JAR signatures and perhaps a signing block.
func (t *T) genWildJar() (apk []byte, min, max int32, desc string) {
	w := &wildJar{wild: &wild{t: t, odd: pick(t, "oddity", []int{0, 1, 1, 1, 2, 3})}}
	for n := t.Range("nk", 2, 4); n > 0; n-- {
		w.keys = append(w.keys, keyByName[pick(t, "k", []string{"rsa1024-a", "rsa1024-b", "rsa1024-c", "ec256-a", "ec256-b", "ec256-c", "ec224-a", "dsa1024q160-a", "rsa2048-a", "ec384-a"})])
	}
	m := t.genManifest()
	if t.Pct("policy", 15) {
		if t.Pct("mt", 60) {
			m.Target = i32p(int32(pick(t, "mtv", []int{24, 28, 29, 30, 31, 34})))
		}
		if t.Pct("ms", 50) {
			m.Sandbox = i32p(int32(t.Uni("msv", 3)))
		}
	}
	o := zipOpts{maxEntries: 4, maxSize: 100, manifest: &m, plainNames: t.Pct("plain", 60)}
	if w.rare("no AndroidManifest.xml") {
		o.noManifest = true
	}
	j := t.genJar(o, 4)
	w.j = j
	if o.noManifest && t.Pct("bundle", 50) {
		j.Zip.Entries = append(j.Zip.Entries, &ZEntry{Name: "BundleConfig.pb", Data: []byte("x")})
	}
	// weak digests alone are no good for old platforms
	if t.Pct("sha1too", 60) {
		j.MFDigests = dedup(append(j.MFDigests, "SHA1"))
		for _, s := range j.Signers {
			s.Digests = dedup(append(s.Digests, "SHA1"))
		}
	}
	spare := []string{"META-INF/services/x", "META-INF/MANIFEST.MF", "assets2/"}
	for _, e := range j.Zip.Entries {
		spare = append(spare, e.Name)
	}
	for i, s := range j.Signers {
		if t.Pct("der", 70) {
			s.BER = nil
		}
		if t.Pct("subsetsf", 8) && len(j.Signers) > 1 {
			s.OmitSF = map[string]bool{pick(t, "omit", spare): true}
		}
		if i > 0 && w.rare("two blocks for one signature file") {
			s.Base = j.Signers[0].Base
			s.Ext = pick(t, "ext2", []string{".RSA", ".DSA", ".EC"})
			if s.Ext == j.Signers[0].Ext {
				s.Base += "x"
			}
		}
		s.NoVersion = w.rare("no Signature-Version")
	}
	if len(j.Signers) == 1 && w.rare("many signers") {
		s := j.Signers[0]
		for n := t.Range("ms", 9, 10); n > 0; n-- {
			c := *s
			c.Base = fmt.Sprintf("S%d", n)
			j.Signers = append(j.Signers, &c)
		}
	}
	j.MakeMF()
	w.sections("MANIFEST.MF", j.Doc, spare)
	j.MF, j.Secs = j.Doc.Encode()
	if w.rare("damaged MANIFEST.MF") {
		j.MF = t.mutBytes(j.MF, 1)
	}
	for _, s := range j.Signers {
		j.MakeSF(s)
		w.main(s)
		w.sections("the .SF", s.Doc, spare)
		s.SF, _ = s.Doc.Encode()
		if w.rare("damaged .SF, signed") {
			s.SF = t.mutBytes(s.SF, 1)
		}
		f := s.P7
		s.P7 = func(p *P7) {
			if f != nil {
				f(p)
			}
			w.p7(p)
		}
		s.MakeBlock()
		if w.rare("damaged .SF") {
			s.SF = t.mutBytes(s.SF, 1)
		}
		if w.rare("damaged message") {
			s.Block = t.mutBytes(s.Block, 1)
		}
	}
	// changes after signing
	if w.rare("MANIFEST.MF changed") {
		d := j.Doc.clone()
		if t.Pct("mcmain", 40) || len(d.Entries) == 0 {
			d.Main = append(d.Main, mfAttr{"X-Changed", "1"})
		} else if k := t.Uni("mce", len(d.Entries)); t.Pct("mcadd", 70) {
			d.Entries[k] = append(d.Entries[k], mfAttr{"X-Changed", "1"})
		} else {
			d.Entries = append(d.Entries[:k:k], d.Entries[k+1:]...)
		}
		j.MF, _ = d.Encode()
	}
	z := j.Spec()
	for i := 0; i < len(z.Entries); i++ {
		e := z.Entries[i]
		switch {
		case w.rare("file changed"):
			c := e.clone()
			c.Data = cat(c.Data, []byte{'x'})
			z.Entries[i] = c
			if e.Name == "AndroidManifest.xml" {
				z.Entries[i] = e
			}
		case w.rare("file removed"):
			w.note("%s", e.Name)
			z.Entries = append(z.Entries[:i:i], z.Entries[i+1:]...)
			i--
		}
	}
	if w.rare("file added") {
		z.Entries = append(z.Entries, &ZEntry{Name: pick(t, "fa", []string{"new.txt", "META-INF/new.txt", "META-INF/x/new.RSA", "META-INF/new.RSA", "META-INF/new.SF", "meta-inf/x", "newdir/"}), Data: []byte("x")})
		if l := z.Entries[len(z.Entries)-1]; strings.HasSuffix(l.Name, "/") {
			l.Data = nil
		}
	}
	if t.Pct("ziporder", 20) {
		q := make([]*ZEntry, len(z.Entries))
		for i, k := range t.perm(len(q)) {
			q[i] = z.Entries[k]
		}
		z.Entries = q
	}
	z.CDOrder = nil
	if t.Pct("cdorder", 20) {
		z.CDOrder = t.perm(len(z.Entries))
	}
	sec := z.Build()
	var blk []byte
	if t.Pct("block", 25) {
		w.d = newDigests(sec)
		var ps []Pair
		if t.Pct("b2", 70) {
			ps = append(ps, w.pair(idV2, []*Signer{w.signer(2, 0, 0, nil)}))
		}
		if t.Pct("b3", 50) {
			ps = append(ps, w.pair(idV3, w.v3signers(3)))
		}
		if t.Pct("b0", 20) {
			ps = append(ps, Pair{0x12345678, []byte("x")})
		}
		blk = encodeBlock(ps)
		w.note("%d pairs", len(ps))
	}
	apk = sec.Assemble(blk)
	min, max = t.genV1Range()
	if blk != nil && min >= 24 && t.Pct("older", 60) {
		min = 21
	}
	return apk, min, max, strings.Join(w.desc, ", ")
}

func c37Wild(t *T) {
	apk, min, max, d := t.genWildJar()
	t.Note("%s", d)
	v := t.compareAPK(d, apk, min, max)
	t.apkClass("wild", v)
	t.NonTrivial(apk, min, max)
	t.Sample("%s <%d;%d>: %s", d, min, max, v)
}

func (t *T) apkClass(src string, v *refAPK) {
	how := "the signing block"
	if v.v1 {
		how = "JAR signatures"
	}
	short := func(s string) string {
		if i := strings.Index(s, "META-INF/"); i >= 0 && i < 3 {
			if k := strings.Index(s, ": "); k >= 0 {
				s = s[k+2:]
			}
		}
		f := strings.Fields(s)
		if len(f) > 4 {
			f = f[:4]
		}
		s = strings.Join(f, " ")
		if len(s) > 30 {
			s = s[:30]
		}
		return s
	}
	switch {
	case v.unsure != "":
		t.Class("%s: not judged, %s", src, short(v.unsure))
	case v.bad != "":
		t.Class("%s: rejected by %s", src, how)
		if src == "wild" && v.v1 {
			t.Class("wild: %s", short(v.bad))
		}
	default:
		t.Class("%s: scheme %d accepted by %s, %d signers", src, v.scheme, how, len(v.chains))
	}
}

// c37Sources: the APKs of all other checks, as they are or damaged.
func c37Sources(t *T) {
	src := resultSources[t.Uni("source", len(resultSources))]
	if src.name == "names" { // comparing names is another matter
		return
	}
	seen, notes := t.collect(src.f)
	if len(seen) == 0 {
		return
	}
	s := seen[t.Uni("which", len(seen))]
	for _, n := range notes {
		t.Note("%s", n)
	}
	if len(s.apk) > 8<<20 {
		return
	}
	if t.Pct("mutated", 15) {
		s.apk = t.mutBytes(s.apk, 1)
		t.Note("mutated")
	}
	if t.Pct("own", 30) {
		s.min, s.max = t.genV1Range()
	}
	v := t.compareAPK(src.name, s.apk, s.min, s.max)
	t.apkClass(src.name, v)
	t.NonTrivial(s.apk, s.min, s.max)
}

func init() {
	register("C37", "an APK with JAR signatures put together from mostly right parts with some oddities (manifests, digests, messages, files, ranges; sometimes beside a signing block), or the APK of any other check, judged by a reference implementation; distinct by APK and range",
		Sub{"wild", 16000, 500000, c37Wild},
		Sub{"sources", 5000, 100000, c37Sources},
	)
}

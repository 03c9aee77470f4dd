package main

import (
	"bytes"
	"compress/flate"
	"encoding/base64"
	"fmt"
	"io"
	"strings"
)

// dirMark sets ZIP attributes that make unzip tools take the entry for a directory.
func (t *T) dirMark(e *ZEntry) string {
	switch t.Uni("dirmark", 3) {
	case 0:
		e.Creator, e.ExtAttrs = 0, 0x10
		return " (marked as MS-DOS directory)"
	case 1:
		e.Creator, e.ExtAttrs = 3, 0x41ed<<16
		return " (marked as UNIX directory)"
	}
	e.Creator, e.ExtAttrs = 11, 0x30
	return " (marked as NTFS directory)"
}

// protected are the indices of the entries the v1 scheme protects.
func protected(z *ZipSpec) []int {
	var r []int
	for i, e := range z.Entries {
		if !strings.HasPrefix(e.Name, "META-INF/") && !strings.HasSuffix(e.Name, "/") {
			r = append(r, i)
		}
	}
	return r
}

// alter draws a different content.
func (t *T) alter(b []byte) ([]byte, string) {
	c := append([]byte(nil), b...)
	switch t.Uni("alter", 5) {
	case 0:
		if len(c) > 0 {
			i := t.Uni("at", len(c))
			if t.Pct("late", 25) {
				i = len(c) - 1
			}
			c[i] ^= byte(1 << t.Uni("bit", 8))
			return c, fmt.Sprintf("bit flip at %d", i)
		}
	case 1:
		if len(c) > 0 {
			n := t.Uni("cut", len(c))
			if t.Pct("cutlate", 25) {
				n = len(c) - 1
			}
			return c[:n], fmt.Sprintf("truncated to %d", n)
		}
	case 2:
		if len(c) > 1 {
			i := t.Uni("at", len(c)-1)
			if c[i] != c[i+1] {
				c[i], c[i+1] = c[i+1], c[i]
				return c, fmt.Sprintf("bytes %d and %d swapped", i, i+1)
			}
		}
	case 3:
		n := t.Bytes("new", 1, 60)
		if !bytes.Equal(n, b) {
			return n, "replaced"
		}
	}
	return append(c, t.Bytes("app", 1, 20)...), "appended"
}

// alterEntry changes the content of a protected entry; a manifest stays parseable most of the time.
func (t *T) alterEntry(z *ZipSpec) string {
	i := pick(t, "which", protected(z))
	e := z.Entries[i].clone()
	z.Entries[i] = e
	d := ""
	if e.Name == "AndroidManifest.xml" && t.Pct("parseable", 70) {
		old := e.Data
		for k := int32(100); ; k++ {
			m := ManifestSpec{UTF8: true, Min: i32p(manifestMinOf(old)), Extra: k + int32(t.Uni("vc", 50))}
			if e.Data = m.Encode(); !bytes.Equal(e.Data, old) {
				break
			}
		}
		d = "other manifest"
	} else {
		e.Data, d = t.alter(e.Data)
	}
	if t.Pct("mark", 30) {
		d += t.dirMark(e)
	}
	return fmt.Sprintf("content of %s: %s", e.Name, d)
}

// freeName draws a name that is in no section of the manifest.
func (t *T) freeName(z *ZipSpec) string {
	used := map[string]bool{}
	for _, e := range z.Entries {
		used[strings.TrimSuffix(e.Name, "/")] = true
	}
	if t.Pct("odd", 50) {
		n := pick(t, "oddname", []string{"META-INFO/x", "META-INF", "meta-inf/CERT.RSA", "META-INF.bak/MANIFEST.MF", "classes2.dex", "AndroidManifest.xml.bak",
			"androidmanifest.xml", "qq//r", "./qq", "qq/./r", "x/../qq", "/qq", "META-INF/../qq", "META-INF\\qq", " ", "resources.arsc", "lib/x86/libq.so", "x/META-INF/MANIFEST.MF", "MANIFEST.MF", "BundleConfig.pb"})
		if n == "META-INF/../qq" || n == "META-INF" {
			n = "META-INFq"
		}
		if !used[n] {
			return n
		}
	}
	return t.genName(used, false)
}

// cutDigests shortens every digest of a section, possibly to nothing.
func (t *T) cutDigests(s mfSection) string {
	n := t.Uni("keep", 20)
	for i := range s {
		if strings.Contains(strings.ToLower(s[i].K), "-digest") {
			if b, err := base64.StdEncoding.DecodeString(s[i].V); err == nil {
				s[i].V = b64(b[:min(n, len(b)-1)])
			}
		}
	}
	return fmt.Sprintf("digests cut to %d bytes in a section", n)
}

func c05Case(t *T) {
	j := t.genJar(zipOpts{maxEntries: 5, maxComment: 30, heavy: 4}, 3)
	min, max := t.genV1Range()
	t.usableFor(j, min, max)
	if t.Pct("premark", 25) {
		i := pick(t, "pm", protected(j.Zip))
		j.Zip.Entries[i] = j.Zip.Entries[i].clone()
		t.dirMark(j.Zip.Entries[i])
	}
	j.Make()
	orig := j.Bytes()
	t.mustAccept("the untouched APK", orig, min, max, 1, nil)

	c := *j
	c.Zip = j.Zip.clone()
	c.Signers = nil
	for _, s := range j.Signers {
		x := *s
		c.Signers = append(c.Signers, &x)
	}
	sg := c.Signers[t.Uni("signer", len(c.Signers))]
	resign := func() { // block over the current .SF
		for _, s := range c.Signers {
			s.MakeBlock()
		}
	}
	redoSF := func() {
		for _, s := range c.Signers {
			c.MakeSF(s)
		}
	}
	var d, class string
	var apk []byte
	switch t.Uni("mut", 27) {
	case 24, 25, 26:
		class = "packed data"
		z := c.Spec()
		var cand []*ZEntry
		for _, e := range z.Entries {
			if !strings.HasSuffix(e.Name, "/") && len(e.Data) > 0 && (!strings.HasPrefix(e.Name, "META-INF/") || e.Name == "META-INF/MANIFEST.MF" || e.Name == sg.sfName()) {
				cand = append(cand, e)
			}
		}
		e := pick(t, "packed", cand)
		e.Deflate = e.Deflate || t.Pct("deflate", 70)
		apk = z.Build().Assemble(nil)
		at := len(z.Prefix) + int(e.DataOff)
		if !bytes.Equal(unpackEntry(apk[at:at+int(e.CompLen)], e.Deflate), e.Data) {
			at = int(e.DataOff)
		}
		raw := apk[at : at+int(e.CompLen)]
		if !bytes.Equal(unpackEntry(raw, e.Deflate), e.Data) {
			panic("packed data not where they should be")
		}
		if t.Pct("zeros", 15) {
			clear(raw[t.Uni("zat", len(raw)):])
		} else {
			raw[t.Uni("pat", len(raw))] ^= byte(1 << t.Uni("pbit", 8))
		}
		got := unpackEntry(raw, e.Deflate)
		if bytes.Equal(got, e.Data) {
			return
		}
		d = fmt.Sprintf("packed data of %s damaged, %d of %d bytes can be read", e.Name, len(got), len(e.Data))
		if e.Name == "META-INF/MANIFEST.MF" {
			// what the signature covers has to be gone
			last := c.Secs[len(c.Secs)-1]
			if !bytes.HasPrefix(e.Data, got) || len(got) > len(e.Data)-len(last)+20 || len(got) < 3 {
				return
			}
			d = fmt.Sprintf("packed data of %s damaged, the first %d of %d bytes can be read", e.Name, len(got), len(e.Data))
		}
	case 22:
		class = "digests in MANIFEST.MF cut"
		d = t.cutDigests(pick(t, "cutsec", c.Doc.Entries)) + " of MANIFEST.MF, .SF redone and signed"
		if t.Pct("too", 30) {
			d += ", " + t.alterEntry(c.Zip)
		}
		c.MF, c.Secs = c.Doc.Encode()
		redoSF()
		resign()
	case 23:
		class = "digests in .SF cut"
		for _, s := range append([]mfSection{sg.Doc.Main}, sg.Doc.Entries...) {
			d = t.cutDigests(s) + " of a .SF, signed"
		}
		sg.SF, _ = sg.Doc.Encode()
		sg.MakeBlock()
	case 0, 1, 2, 3:
		class = "content"
		d = t.alterEntry(c.Zip)
	case 4, 5:
		class = "entry added"
		e := &ZEntry{Name: t.freeName(c.Zip), Data: t.Bytes("add", 0, 60), Deflate: t.Pct("adddef", 50)}
		d = "entry added: " + e.Name
		if t.Pct("mark", 40) {
			d += t.dirMark(e)
		}
		at := t.Uni("at", len(c.Zip.Entries)+1)
		c.Zip.Entries = append(c.Zip.Entries[:at:at], append([]*ZEntry{e}, c.Zip.Entries[at:]...)...)
	case 6:
		class = "entry removed"
		i := pick(t, "rm", protected(c.Zip))
		d = "entry removed: " + c.Zip.Entries[i].Name
		c.Zip.Entries = append(c.Zip.Entries[:i:i], c.Zip.Entries[i+1:]...)
	case 7:
		class = "entry renamed"
		e := c.Zip.Entries[pick(t, "rn", protected(c.Zip))]
		n := t.freeName(c.Zip)
		if t.Pct("intometa", 20) {
			n = "META-INF/qq"
		}
		d = fmt.Sprintf("entry renamed: %s -> %s", e.Name, n)
		e.Name = n
	case 8:
		class = "contents swapped"
		p := protected(c.Zip)
		a, b := c.Zip.Entries[p[0]], c.Zip.Entries[p[len(p)-1]]
		a, b = a.clone(), b.clone()
		if bytes.Equal(a.Data, b.Data) {
			a.Data = append(a.Data, 'x')
		} else {
			a.Data, b.Data = b.Data, a.Data
		}
		c.Zip.Entries[p[0]], c.Zip.Entries[p[len(p)-1]] = a, b
		d = "contents swapped"
	case 9, 10:
		class = "content and MANIFEST.MF"
		d = t.alterEntry(c.Zip) + ", MANIFEST.MF redone"
		c.MakeMF()
	case 11:
		class = "content, MANIFEST.MF and .SF"
		d = t.alterEntry(c.Zip) + ", MANIFEST.MF and .SF redone"
		c.MakeMF()
		redoSF()
	case 12:
		class = "re-signed with another key"
		d = t.alterEntry(c.Zip) + ", all redone by a key that is not the certificate's"
		c.MakeMF()
		redoSF()
		for _, s := range c.Signers {
			s.Key = t.otherKey(s.Key)
			if !s.Key.v1Fits(s.Alg) {
				s.Alg = defaultV1Alg(s.Key)
				s.Attrs = false
			}
		}
		resign()
	case 13:
		class = ".SF"
		sf := append([]byte(nil), sg.SF...)
		sf, d = t.alter(sf)
		sg.SF = sf
		d = "SF file " + d
	case 14:
		class = "signature bits"
		base := sg.P7
		bad := t.Uni("sigbit", 1<<16)
		odd, what := t.Pct("oddsig", 50), ""
		sg.P7 = func(p *P7) {
			if base != nil {
				base(p)
			}
			for _, s := range p.Signers {
				if !odd {
					s.FlipBit = 1 + bad
					continue
				}
				s := s
				s.Odd = func(signed []byte) (sig []byte) {
					sig, what = t.oddSignature(s.Key, s.Alg.Hash, false, signed)
					return
				}
			}
		}
		sg.MakeBlock()
		d = fmt.Sprintf("signature bit %d flipped", bad)
		if odd {
			class, d = "signature", "signature malformed: "+what
		}
	case 15:
		class = "message digest attribute"
		if !sg.Alg.plainDigest() {
			sg.Alg = defaultV1Alg(sg.Key)
		}
		sg.Attrs = true
		base := sg.P7
		sg.P7 = func(p *P7) {
			if base != nil {
				base(p)
			}
			p.Signers[0].BadDigest = true
		}
		sg.MakeBlock()
		d = "signed attributes with another message digest"
	case 16:
		class = "message digest attribute of another .SF"
		// the old block (attributes and all) for a new .SF
		if !sg.Alg.plainDigest() {
			sg.Alg = defaultV1Alg(sg.Key)
		}
		sg.Attrs = true
		sg.MakeBlock()
		d = t.alterEntry(c.Zip) + ", MANIFEST.MF and .SF redone under signed attributes"
		c.MakeMF()
		redoSF()
	case 17, 18:
		class = "MANIFEST.MF"
		mf := append([]byte(nil), c.MF...)
		lo := len(c.Secs[0])
		for _, s := range c.Signers {
			if s.NoEntryDg || s.MainAttr && !s.Signtool {
				lo = 0
			}
		}
		if lo == len(mf) {
			lo = 0
		}
		i := lo + t.Uni("mfat", len(mf)-lo)
		mf[i] ^= byte(1 << t.Uni("mfbit", 8))
		d = fmt.Sprintf("MANIFEST.MF bit flip at %d", i)
		c.MF = mf
	case 19:
		class = "attributes as .SF"
		// the attributes that were signed are handed over as the signed file
		for _, s := range c.Signers {
			if !s.Alg.plainDigest() {
				s.Alg = defaultV1Alg(s.Key)
			}
			s.Attrs = true
			s.P7, s.BER = nil, nil
			s.MakeBlock()
			blk := mustNode(s.Block)
			si := blk.find(func(n *node) bool { return len(n.kids) == 6 && n.kids[3].id[0] == 0xa0 && n.kids[5].id[0] == 4 })
			at := si.kids[3].encode(nil)
			at[0] = 0x31
			si.kids = append(si.kids[:3:3], si.kids[4:]...)
			s.Block, s.SF = blk.encode(nil), at
		}
		d = "signed attributes handed over as .SF"
	case 20:
		class = "file of the signature missing"
		z := c.Spec()
		drop := pick(t, "drop", []string{"META-INF/MANIFEST.MF", sg.sfName(), sg.blockName()})
		// with several signers the others still stand: drop all of that kind
		var keep []*ZEntry
		for _, e := range z.Entries {
			gone := e.Name == drop
			for _, s := range c.Signers {
				gone = gone || drop == sg.sfName() && e.Name == s.sfName() || drop == sg.blockName() && e.Name == s.blockName()
			}
			if !gone {
				keep = append(keep, e)
			}
		}
		z.Entries = keep
		d = drop + " removed (of every signer)"
		apk = z.Build().Assemble(nil)
	default:
		class = "signature of other content"
		o := *j
		o.Zip = j.Zip.clone()
		t.alterEntry(o.Zip)
		o.Signers = nil
		for _, s := range j.Signers {
			x := *s
			o.Signers = append(o.Signers, &x)
		}
		o.Make()
		o.Zip = j.Zip
		d = "META-INF files of an APK with other content by the same signer"
		apk = o.Bytes()
	}
	if apk == nil {
		apk = c.Bytes()
	}
	if bytes.Equal(apk, orig) {
		return
	}
	t.Class("%s", class)
	t.Note("%s; %s <%d;%d>", d, jarStr(j), min, max)
	t.Sample("%s <%d;%d>", d, min, max)
	t.NonTrivial(apk, min, max)
	t.Attach("original", orig)
	t.mustReject(d, apk, min, max)
}

// unpackEntry is what can be read of an entry's packed data.
func unpackEntry(raw []byte, deflate bool) []byte {
	if !deflate {
		return raw
	}
	b, _ := io.ReadAll(flate.NewReader(bytes.NewReader(raw)))
	return b
}

// c05Duplicates: a second entry of the same (normalised) name with other content.
func c05Duplicates(t *T) {
	j, min, max := t.genSignedJar(zipOpts{maxEntries: 4}, 1)
	e := j.Zip.Entries[pick(t, "which", protected(j.Zip))].clone()
	name := e.Name
	if t.Pct("unclean", 50) {
		e.Name = pick(t, "form", []string{"x/../" + name, "./" + name, "/../" + name, strings.Replace(name, "/", "//", 1)})
		if e.Name == name {
			e.Name = "./" + name
		}
	}
	e.Data, _ = t.alter(e.Data)
	apk0 := j.Bytes()
	t.mustAccept("the untouched APK", apk0, min, max, 1, nil)
	spec := j.Spec()
	at := t.Uni("at", len(spec.Entries)+1)
	spec.Entries = append(spec.Entries[:at:at], append([]*ZEntry{e}, spec.Entries[at:]...)...)
	apk := spec.Build().Assemble(nil)
	t.Attach("apk", apk)
	t.NonTrivial(apk)
	t.Sample("second entry %q next to %q, at %d", e.Name, name, at)
	v := verify(apk, min, max)
	if v.Err == nil {
		key := "C05-duplicate-entry"
		if e.Name != name {
			key = "C05-colliding-entry"
		}
		// only an entry that apkparser drops (the later one) is covered by the known finding
		if at > indexOf(spec, name, at) && t.Known(key, "a ZIP entry whose normalised name equals an earlier entry's is not seen by v1 verification: the later entry is dropped by apkparser and its content is not checked") {
			t.Class("known: %s", key)
			return
		}
		t.Violate("second entry %q with other content next to %q accepted", e.Name, name)
	}
	t.Class("rejected")
}

func indexOf(z *ZipSpec, name string, not int) int {
	for i, e := range z.Entries {
		if i != not && e.Name == name {
			return i
		}
	}
	return -1
}

func (t *T) otherKey(k *Key) *Key {
	for {
		o := t.genKey("other")
		if o != k {
			return o
		}
	}
}

func init() {
	register("C05", "a case is a validly v1-signed APK (checked), one alteration (entry content, entry set, MANIFEST.MF, .SF, signature block, or several of them redone consistently without the key) and an SDK range; non-trivial when the altered file differs, distinct by bytes and range",
		Sub{"tamper", 12000, 250000, c05Case},
		Sub{"every", 64, 2000, c05Every},
		Sub{"duplicates", 600, 8000, c05Duplicates},
	)
}

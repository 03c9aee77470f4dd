package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"strings"

	"github.com/avast/apkparser"
)

func (t *T) c12Done(what string, apk []byte, mutated bool) {
	t.Note("%s, %d bytes", what, len(apk))
	if manifestHazard(apk) {
		t.Class("string table lengths beyond the file (known finding)")
		return
	}
	k := t.exercise(apk)
	t.Class("%s: %s", what, k)
	if mutated {
		t.NonTrivial(apk)
	}
	t.Sample("%s, %d bytes: %s", what, len(apk), k)
}

// c12Block: block-signed APKs damaged at every level of the encoding.
func c12Block(t *T) {
	b := t.genBlockAPK(zipOpts{maxEntries: 2, maxSize: 200, maxComment: 30})
	lists := [][]*Signer{b.RecV2, b.RecV3, b.RecV31}
	var recs []*Signer
	for _, l := range lists {
		recs = append(recs, l...)
	}
	r := recs[t.Uni("rec", len(recs))]
	spec := append(append(append([]*SignerSpec{}, b.V2...), b.V3...), b.V31...)
	what := ""
	var apk []byte
	switch t.Uni("level", 12) {
	case 10:
		what = "signer: " + t.breakSigner(r, spec[indexOfSigner(recs, r)], anyMax)
		apk = b.Bytes()
	case 11:
		l, id := b.RecV2, uint32(idV2)
		if len(b.RecV3) > 0 && t.Pct("bl3", 60) {
			l, id = b.RecV3, idV3
		}
		if len(l) == 0 {
			l, id = b.RecV3, idV3
		}
		v, w := t.breakSignerList(l)
		what = w
		apk = b.Sec.Assemble(encodeBlock(override(b.Pairs(), id, v)))
	case 9:
		what = "signing block: length of a pair"
		ps := b.Pairs()
		var body []byte
		at := t.Uni("pairat", len(ps)+1)
		for i := 0; i <= len(ps); i++ {
			if i == at {
				v := t.Bytes("pv", 0, 40)
				n := uint64(len(v))
				switch t.Uni("pl", 4) {
				case 0:
					n = uint64(t.Uni("small", 9))
				case 1:
					n += uint64(t.Uni("off", 9)) - 4
				case 2:
					n = pick(t, "pl64", []uint64{1<<31 - 1, 1 << 31, 1<<31 - 9, 1<<32 - 1, 1 << 32, 1<<32 + 4, 1 << 63, 1<<63 - 1, 1<<64 - 1, 1<<64 - 8, 1<<64 - 4})
				case 3:
					n = uint64(pick(t, "pl32", hostileU32))
				}
				body = cat(body, u64(n), v)
			}
			if i < len(ps) {
				body = cat(body, encodePair(ps[i]))
			}
		}
		size := u64(uint64(len(body) + 24))
		apk = b.Sec.Assemble(cat(size, body, size, []byte("APK Sig Block 42")))
	case 0:
		what = "signing block: bytes of the file"
		apk = t.mutBytes(b.Bytes(), 3)
	case 1:
		what = "signing block: bytes of the block"
		apk = b.Sec.Assemble(t.mutBytes(encodeBlock(b.Pairs()), 3))
	case 2:
		what = "signing block: bytes of a pair"
		ps := b.Pairs()
		i := t.Uni("pair", len(ps))
		ps[i].Val = t.mutBytes(ps[i].Val, 3)
		if t.Pct("reid", 25) {
			ps[i].ID = pick(t, "id", []uint32{idV2, idV3, idV31, idStamp, idFrosting, idVerPad, 0, 0xffffffff})
		}
		apk = b.Sec.Assemble(encodeBlock(ps))
	case 3:
		what = "signer: bytes of the record"
		r.Raw = t.mutBytes(r.Encode(), 3)
		apk = b.Bytes()
	case 4:
		what = "signer: properly signed damaged signed data"
		data := t.mutBytes(r.EncodeSigned(), 3)
		r.SignedBytes = data
		for i := range r.Sigs {
			if a := algByID(r.Sigs[i].Alg); a != nil && r.Key.fits(a) {
				r.Sigs[i].Data = r.Key.SignAlg(a, data)
			}
		}
		apk = b.Bytes()
	case 5:
		what = "signer: properly signed damaged certificates"
		i := t.Uni("cert", len(r.Certs))
		r.Certs = append([][]byte(nil), r.Certs...)
		r.Certs[i] = t.mutDER(r.Certs[i], 3)
		r.Sign(r.Key, spec[indexOfSigner(recs, r)].Algs)
		apk = b.Bytes()
	case 6:
		what = "signer: properly signed attributes"
		ids := []uint32{attrStrip, attrPoR, attrMinSdk, attrRotDev, attrStPoR, 0x12345678}
		a := Attr{pick(t, "aid", ids), t.Bytes("av", 0, 40)}
		if t.Pct("short", 30) {
			a.Val = u32(pick(t, "av32", hostileU32))
		}
		r.Attrs = append(append([]Attr(nil), r.Attrs...), a)
		if t.Pct("lin", 60) {
			l := t.genLineage(t.Range("ln", 1, 4), r.Key, r.Certs[0])
			n := l.Nodes[t.Uni("lnode", len(l.Nodes))]
			switch t.Uni("lmut", 5) {
			case 0:
				n.Cert = t.mutDER(n.Cert, 2)
				l.Sign(0)
			case 1:
				n.Signed = t.mutBytes(n.Signed, 2)
			case 2:
				n.Alg = pick(t, "lalg", append([]uint32{0x101, 0x201, 0x301, 0x421}, hostileU32...))
			case 3:
				n.Sig = t.hostileSig()
			}
			v := l.Encode()
			if t.Pct("lbytes", 60) {
				v = t.mutBytes(v, 3)
			}
			r.Attrs = append(r.Attrs, Attr{attrPoR, v})
		}
		r.Sign(r.Key, spec[indexOfSigner(recs, r)].Algs)
		apk = b.Bytes()
	case 7:
		what = "signer: hostile public key"
		spki, kind := t.hostileSPKI()
		what += " " + kind
		r.PubKey = spki
		c := hostileCert(spki, 3)
		r.Certs = append([][]byte{c}, r.Certs...)
		r.SignedBytes = r.EncodeSigned()
		var algs []uint32
		switch kind {
		case "rsa":
			algs = []uint32{0x101, 0x102, 0x103, 0x104, 0x421}
		case "dsa":
			algs = []uint32{0x301, 0x425}
		case "ec":
			algs = []uint32{0x201, 0x202, 0x423}
		default:
			algs = []uint32{0x101, 0x103, 0x201, 0x301, 0x421}
		}
		if t.Pct("mix", 10) {
			algs = []uint32{0x101, 0x201, 0x301, 0x104}
		}
		a := pick(t, "halg", algs)
		r.Sigs = []AlgData{{a, t.hostileSig()}}
		apk = b.Bytes()
	case 8:
		what = "signer: hostile signature"
		for i := range r.Sigs {
			r.Sigs[i].Data = t.hostileSig()
		}
		if t.Pct("realg", 40) {
			r.Sigs[t.Uni("si", len(r.Sigs))].Alg = pick(t, "halg", append([]uint32{0x101, 0x102, 0x103, 0x104, 0x201, 0x202, 0x301, 0x421, 0x423, 0x425}, hostileU32...))
		}
		apk = b.Bytes()
	}
	t.c12Done(what, apk, true)
}

func indexOfSigner(l []*Signer, s *Signer) int {
	for i := range l {
		if l[i] == s {
			return i
		}
	}
	panic("signer not found")
}

// c12V1: v1-signed APKs with damaged files, signed again where that reaches further.
func c12V1(t *T) {
	j := t.genJar(zipOpts{maxEntries: 3, maxSize: 100}, 3)
	j.Make()
	s := j.Signers[t.Uni("signer", len(j.Signers))]
	what := ""
	switch t.Uni("level", 8) {
	case 0:
		what = "v1: manifest text"
		j.MF = t.mutText(j.MF, 4)
		if t.Pct("whole", 60) { // keep the whole-file digest right
			s.Whole = true
			j.MakeSF(s)
			s.MakeBlock()
		}
	case 1:
		what = "v1: properly signed damaged signature file"
		s.SF = t.mutText(s.SF, 4)
		s.MakeBlock()
	case 2:
		what = "v1: bytes of the signature block"
		s.Block = t.mutBytes(s.Block, 3)
	case 3, 4:
		what = "v1: elements of the signature block"
		s.BER = nil
		s.MakeBlock()
		s.Block = t.mutDER(s.Block, 3)
	case 5:
		what = "v1: properly signed odd attributes"
		s.Attrs, s.BER = true, nil
		if !s.Alg.plainDigest() {
			s.Alg = defaultV1Alg(s.Key)
		}
		old := s.P7
		s.P7 = func(p *P7) {
			if old != nil {
				old(p)
			}
			for i := t.Range("at.n", 1, 3); i > 0; i-- {
				a := attrDER(pick(t, "at.oid", []string{oidContentType, oidMessageDigest, oidSigningTime, "1.2.3"}), pick(t, "at.v", [][]byte{doct(nil), doid(oidPkcsData), dset(), dint(5), utcTime("x"), dseq(dseq())}))
				if t.Pct("at.mut", 50) {
					a = t.mutDER(a, 2)
				}
				p.Signers[0].Attrs = append(p.Signers[0].Attrs, a)
			}
		}
		s.MakeBlock()
	case 6:
		what = "v1: hostile public key"
		spki, kind := t.hostileSPKI()
		c := hostileCert(spki, 9)
		s.P7, s.BER, s.Order = nil, nil, nil
		n := mustNode(func() []byte { s.MakeBlock(); return s.Block }())
		// replace the certificates and the signer's identity, algorithm and signature
		sd := n.kids[1].kids[0]
		iss, ser := issuerSerial(c)
		for _, k := range sd.kids {
			if k.id[0] == 0xa0 {
				k.kids = []*node{mustNode(c)}
			}
		}
		si := sd.kids[len(sd.kids)-1].kids[0]
		si.kids[1] = mustNode(dseq(iss, ser))
		var pool []v1Alg
		for _, a := range v1Algs {
			if a.Kind == kind || kind == "other" {
				pool = append(pool, a)
			}
		}
		a := pick(t, "halg", pool)
		si.kids[2] = mustNode(algID(a.Digest, nil))
		i := 3
		if si.kids[3].id[0] == 0xa0 {
			i = 4
		}
		si.kids[i] = mustNode(algID(a.ID, nil))
		si.kids[i+1] = mustNode(doct(t.hostileSig()))
		s.Block = n.encode(nil)
		what += " " + kind
	case 7:
		what = "v1: properly signed damaged certificates"
		s.BER, s.Order = nil, nil
		s.MakeBlock()
		n := mustNode(s.Block)
		sd := n.kids[1].kids[0]
		for _, k := range sd.kids {
			if k.id[0] == 0xa0 && len(k.kids) > 0 {
				i := t.Uni("ci", len(k.kids))
				if m, rest, ok := parseNode(t.mutDER(k.kids[i].encode(nil), 3)); ok && len(rest) == 0 {
					k.kids[i] = m
				}
			}
		}
		s.Block = n.encode(nil)
	}
	apk := j.Bytes()
	if t.Pct("zipbytes", 10) {
		apk = t.mutBytes(apk, 2)
	}
	t.c12Done(what, apk, true)
}

// c12Zip: damaged ZIP structure, with and without signing block.
func c12Zip(t *T) {
	var apk []byte
	switch t.Uni("base", 3) {
	case 0:
		apk = t.genBlockAPK(zipOpts{maxEntries: 3, maxSize: 200, maxComment: 60}).Bytes()
	case 1:
		j := t.genJar(zipOpts{maxEntries: 3, maxSize: 100, maxComment: 60}, 2)
		j.Make()
		apk = j.Bytes()
	case 2:
		apk = t.genZip(zipOpts{maxEntries: 4, maxSize: 100, maxComment: 60}).Build().Assemble(nil)
	}
	apk = append([]byte(nil), apk...)
	what := "zip: "
	// positions of headers
	var at []int
	magics := [][]byte{[]byte("PK\x01\x02"), []byte("PK\x03\x04"), []byte("PK\x05\x06"), []byte("PK\x07\x08")}
	which := t.Uni("hdr", len(magics))
	for i := 0; i+4 <= len(apk); i++ {
		if bytes.Equal(apk[i:i+4], magics[which]) {
			at = append(at, i)
		}
	}
	switch k := t.Uni("zm", 6); {
	case k <= 2 && len(at) > 0:
		what += "header fields"
		for n := t.Range("zn", 1, 3); n > 0; n-- {
			p := at[t.Uni("zat", len(at))] + 4 + t.Uni("zoff", 40)
			if p+4 > len(apk) {
				continue
			}
			if t.Pct("z16", 50) {
				binary.LittleEndian.PutUint16(apk[p:], uint16(pick(t, "zv", hostileU32)))
			} else {
				binary.LittleEndian.PutUint32(apk[p:], pick(t, "zv", append([]uint32{uint32(len(apk)), uint32(len(apk) - 22)}, hostileU32...)))
			}
		}
	case k == 3:
		what += "no central directory"
		if i := bytes.Index(apk, []byte("PK\x01\x02")); i > 0 {
			apk = apk[:i]
		}
		apk = t.mutBytes(apk, 2)
	case k == 4:
		what += "end record"
		if i := bytes.LastIndex(apk, []byte("PK\x05\x06")); i > 0 {
			apk = cat(apk[:i], t.mutBytes(apk[i:], 2))
		}
	default:
		what += "bytes"
		apk = t.mutBytes(apk, 4)
	}
	t.c12Done(what, apk, true)
}

// axmlHazard finds manifests that make the AXML parser (a dependency) reserve memory for lengths that the file does not
// hold; that is the known finding C12-axml-stringtable, and running it would exhaust the machine.
func axmlHazard(b []byte) bool {
	le := binary.LittleEndian
	if len(b) < 8 {
		return false
	}
	const slack = 1 << 20
	o := int64(8)
	if h := int64(le.Uint16(b[2:])); h > 8 {
		o = h
	}
	size := int64(len(b))
	for o+8 <= size {
		l := int64(le.Uint32(b[o+4:]))
		if le.Uint16(b[o:]) == 1 && o+28 <= size {
			cnt, flags, so := int64(le.Uint32(b[o+8:])), le.Uint32(b[o+16:]), int64(le.Uint32(b[o+20:]))
			rem := so - 28 - 4*cnt
			if rem < 0 {
				if n := -rem / 4; rem%4 == 0 && n < cnt {
					cnt -= n
				}
				rem = 0
			}
			offs := o + 28
			data := offs + 4*cnt + rem
			if l > size+slack {
				return true
			}
			if flags&0x100 == 0 && data < size && cnt < 1<<20 {
				for i := int64(0); i < cnt; i++ {
					p := data + int64(le.Uint32(b[offs+4*i:]))
					if p+4 > size {
						continue
					}
					if v := int64(le.Uint16(b[p:])); v&0x8000 != 0 && v&0x7fff<<16 > slack {
						return true
					}
				}
			}
		}
		o += max(l, 8)
	}
	return false
}

// manifestHazard applies axmlHazard to everything that the APK's AndroidManifest.xml may be read as.
func manifestHazard(apk []byte) (bad bool) {
	defer func() {
		if recover() != nil { // the run on the APK itself shows whether that is the code's fault
			bad = false
		}
	}()
	z, err := apkparser.OpenZipReader(bytes.NewReader(apk))
	if err != nil {
		return false
	}
	defer z.Close()
	f := z.File["AndroidManifest.xml"]
	if f == nil || f.Open() != nil {
		return false
	}
	defer f.Close()
	for f.Next() {
		b, _ := io.ReadAll(io.LimitReader(f, 1<<20))
		if axmlHazard(b) {
			return true
		}
	}
	return false
}

// c12Manifest: hostile AndroidManifest.xml.
func c12Manifest(t *T) {
	m := t.genManifest()
	m.Target, m.Sandbox, m.Decoy = i32p(30), i32p(2), t.Uni("decoy", 8)
	data := m.Encode()
	what := "manifest: "
	switch t.Uni("mm", 6) {
	case 0:
		what += "values"
		lit := pick(t, "mv", []string{"", "x", "-1", "99999999999", "0x10", "S", "24.0", "\u0660", "1e3"})
		root := &axTag{Name: "manifest", Attrs: []axAttr{axStr("targetSandboxVersion", lit)}, Kids: []*axTag{{Name: "uses-sdk", Attrs: []axAttr{axStr("minSdkVersion", lit), axStr("targetSdkVersion", pick(t, "mv2", []string{"", "T", "35", "2147483648"}))}}}}
		if t.Pct("types", 50) {
			for i := range root.Kids[0].Attrs {
				root.Kids[0].Attrs[i] = axAttr{Name: root.Kids[0].Attrs[i].Name, Type: byte(pick(t, "mt", []int{0, 1, 2, 4, 5, 6, 0x10, 0x11, 0x12, 0x1c, 0x1f, 0xff})), Data: pick(t, "md", hostileU32)}
			}
		}
		data = axml(root, t.Pct("u8", 50))
	case 1:
		what += "structure"
		root := &axTag{Name: "manifest"}
		cur := root
		for i := pick(t, "depth", []int{0, 1, 10, 3000}); i > 0; i-- {
			n := &axTag{Name: pick(t, "tag", []string{"uses-sdk", "manifest", "a", ""})}
			cur.Kids = append(cur.Kids, n)
			cur = n
		}
		for i := pick(t, "wide", []int{0, 1, 50, 2000}); i > 0; i-- {
			cur.Attrs = append(cur.Attrs, axInt(pick(t, "an", []string{"minSdkVersion", "targetSdkVersion", "x", ""}), 1))
		}
		data = axml(root, true)
	case 2:
		what += "plain text"
		data = []byte(`<?xml version="1.0"?><manifest xmlns:android="http://schemas.android.com/apk/res/android"><uses-sdk android:minSdkVersion="24"/></manifest>`)
		data = t.mutBytes(data, 2)
	default:
		what += "bytes"
		data = t.mutBytes(data, 4)
	}
	if axmlHazard(data) {
		t.Class("manifest: string table lengths beyond the file (known finding)")
		return
	}
	z := t.genZip(zipOpts{maxEntries: 1, maxSize: 20, noManifest: true})
	z.Entries = append(z.Entries, &ZEntry{Name: "AndroidManifest.xml", Data: data, Deflate: t.Pct("md", 50)})
	b := &BlockAPK{Zip: z}
	var apk []byte
	if t.Pct("v1", 50) {
		j := t.genJar(zipOpts{maxEntries: 1, maxSize: 20, noManifest: true}, 1)
		j.Zip = z
		j.Make()
		apk = j.Bytes()
	} else {
		t.genSchemes(b, 30, pick(t, "sch", []string{"2", "23"}))
		b.Make()
		apk = b.Bytes()
	}
	t.c12Done(what, apk, true)
}

// c12Extra: hostile source stamps and frosting.
func c12Extra(t *T) {
	what := ""
	var apk []byte
	if t.Pct("frost", 40) {
		b, v2 := t.genFrostAPK()
		f, keys, key := t.genFrosting(frostingHash(b.Sec, v2))
		setFrostKeys(keys)
		defer setFrostKeys(nil)
		what = "frosting"
		if t.Pct("sizes", 30) {
			v, w := t.breakFrosting(f, keys[key])
			t.c12Done("frosting, "+w, b.withPair(Pair{idFrosting, v}, t.Uni("at", 4)), true)
			return
		}
		if t.Pct("signed", 40) {
			what += ", signed"
			e := f.entries[f.used]
			e.raw = t.mutBytes(cat(varint(e.disabled), varint(e.key), e.hash), 2)
			for i := range keys {
				f.sign(keys[i])
			}
		}
		v := f.encode()
		if t.Pct("bytes", 75) {
			v = t.mutBytes(v, 3)
		}
		apk = b.withPair(Pair{idFrosting, v}, t.Uni("at", 4))
	} else {
		s := t.genStampAPK(func(c []byte) []byte {
			h := sha256Sum(c)
			if t.Pct("hash", 20) {
				return t.mutBytes(h, 2)
			}
			return h
		})
		if s == nil {
			return
		}
		p := t.genStamp(s)
		what = "source stamp"
		if t.Pct("sizes", 30) {
			v, w := t.breakStamp(s, p)
			if v == nil {
				return
			}
			t.c12Done("source stamp, "+w, s.bytes(v), true)
			return
		}
		switch t.Uni("sm", 4) {
		case 0:
			p.st.Cert = t.mutDER(p.st.Cert, 3)
			what += " certificate"
		case 1:
			spki, kind := t.hostileSPKI()
			p.st.Cert = hostileCert(spki, 12)
			for k := range p.st.Schemes {
				for i := range p.st.Schemes[k] {
					p.st.Schemes[k][i].Data = t.hostileSig()
				}
			}
			what += " key " + kind
		}
		v := p.st.Encode()
		if t.Pct("bytes", 75) {
			v = t.mutBytes(v, 3)
		}
		apk = s.bytes(v)
	}
	t.c12Done(what, apk, true)
}

// c12Raw: no structure to speak of.
func c12Raw(t *T) {
	var apk []byte
	what := ""
	switch t.Uni("raw", 4) {
	case 0:
		what = "raw bytes"
		apk = t.Bytes("raw", 0, 400)
	case 1:
		what = "raw pieces"
		pieces := [][]byte{[]byte("PK\x03\x04"), []byte("PK\x01\x02"), []byte("PK\x05\x06"), []byte("PK\x06\x07"), []byte(blockMagicS), []byte("AndroidManifest.xml"), []byte("META-INF/MANIFEST.MF"), {0, 0, 0, 0}, u32(idV2), []byte("dex\n035\x00")}
		for i := t.Range("pn", 1, 30); i > 0; i-- {
			if t.Pct("lit", 60) {
				apk = append(apk, pick(t, "piece", pieces)...)
			} else {
				apk = append(apk, t.Bytes("pb", 0, 40)...)
			}
		}
	case 2:
		what = "raw end record"
		apk = cat(t.Bytes("pre", 0, 200), []byte("PK\x05\x06"), t.Bytes("eo", 18, 18), t.Bytes("post", 0, 70))
	case 3:
		what = "raw block"
		body := t.Bytes("blk", 0, 100)
		n := uint64(len(body) + 24)
		if t.Pct("odd", 40) {
			n = pick(t, "n", hostileU64)
		}
		blk := cat(u64(n), body, u64(n), []byte(blockMagicS))
		cd := t.Bytes("cd", 0, 60)
		pre := t.Bytes("pre", 0, 100)
		apk = cat(pre, blk, cd, (&Sections{CD: cd, N: t.Uni("N", 3)}).EOCD(len(pre)+len(blk)))
	}
	t.c12Done(what, apk, len(apk) > 22)
}

// c12Bulk: large inputs of shapes that invite quadratic work.
func c12Bulk(t *T) {
	n := pick(t, "n", []int{2000, 20000})
	what := ""
	var apk []byte
	switch k := t.Uni("bulk", 9); k {
	case 0:
		what = fmt.Sprintf("bulk: %d pairs", n)
		b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 1, maxSize: 20})}
		t.genSchemes(b, 30, "23")
		for i := 0; i < n; i++ {
			b.Extra = append(b.Extra, Pair{uint32(i + 5), []byte{1}})
		}
		b.Make()
		apk = b.Bytes()
	case 1:
		what = fmt.Sprintf("bulk: %d attributes, signatures and digests", n)
		b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 1, maxSize: 20})}
		t.genSchemes(b, 30, pick(t, "sch", []string{"2", "3"}))
		for _, s := range append(b.V2, b.V3...) {
			for i := 0; i < n; i++ {
				s.Attrs = append(s.Attrs, Attr{uint32(i + 5), nil})
				s.Algs = append(s.Algs, uint32(i+0x9000))
			}
		}
		b.Make()
		apk = b.Bytes()
	case 2:
		n /= 10
		what = fmt.Sprintf("bulk: %d certificates", n)
		b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 1, maxSize: 20})}
		t.genSchemes(b, 30, pick(t, "sch", []string{"2", "3"}))
		for _, s := range append(b.V2, b.V3...) {
			c := selfCert(keyByName["ec256-a"], 3)
			for i := 0; i < n; i++ {
				s.Chain = append(s.Chain, c)
			}
		}
		b.Make()
		apk = b.Bytes()
	case 3:
		what = fmt.Sprintf("bulk: %d v1 files", n/4)
		j := t.genJar(zipOpts{maxEntries: 1, maxSize: 20}, 1)
		for i := 0; i < n/4; i++ {
			j.Zip.Entries = append(j.Zip.Entries, &ZEntry{Name: fmt.Sprintf("f/%d", i), Data: []byte{byte(i)}})
		}
		j.Make()
		apk = j.Bytes()
	case 4, 5, 6:
		j := t.genJar(zipOpts{maxEntries: 1, maxSize: 20}, 1)
		j.Make()
		line := pick(t, "line", []string{"a: b\r\n", " x\n", "\n", "Name: a\n\n", "\r", ":", "a", "SHA-256-Digest: AAAA\n"})
		text := strings.Repeat(line, 10*n)
		what = fmt.Sprintf("bulk: %d times %q", 10*n, line)
		s := j.Signers[0]
		if k == 4 {
			j.MF = append(j.MF, text...)
			s.Whole = true
			j.MakeSF(s)
		} else if k == 5 {
			s.SF = append(s.SF, text...)
		} else {
			j.MF = []byte(text)
			s.SF = []byte(text)
		}
		s.MakeBlock()
		apk = j.Bytes()
	case 7:
		n /= 20
		what = fmt.Sprintf("bulk: %d signer infos and certificates", n)
		j := t.genJar(zipOpts{maxEntries: 1, maxSize: 20}, 1)
		s := j.Signers[0]
		s.Order, s.BER = nil, nil
		s.P7 = func(p *P7) {
			for i := 0; i < n; i++ {
				p.Certs = append(p.Certs, selfCert(keyByName["rsa1024-d"], 50+i%40))
			}
			x := p.Signers[0].DER(p.Content)
			x[len(x)-1] ^= 1
			for i := 0; i < n; i++ {
				p.Raw = append(p.Raw, RawInfo{0, x})
			}
		}
		j.Make()
		apk = j.Bytes()
	case 8:
		what = fmt.Sprintf("bulk: lineage of %d nodes", n/50)
		b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 1, maxSize: 20})}
		k := keyByName["ec256-a"]
		c := selfCert(k, 0)
		l := &Lineage{Version: 1}
		for i := 0; i < n/50; i++ {
			l.Nodes = append(l.Nodes, &LineageNode{Cert: selfCert(k, i), Key: k, Alg: 0x201})
		}
		l.Nodes = append(l.Nodes, &LineageNode{Cert: c, Key: k, Alg: 0x201})
		l.Sign(0)
		b.V3 = []*SignerSpec{{Key: k, Algs: []uint32{0x201}, Chain: [][]byte{c}, V3: true, Min: 28, Max: anyMax, Attrs: []Attr{{attrPoR, l.Encode()}}}}
		b.Make()
		apk = b.Bytes()
	}
	t.c12Done(what, apk, true)
}

// c12Known demonstrates the known finding, with a length the machine can afford.
func c12Known(t *T) {
	if t.r.shard != 0 || t.r.known12 {
		return
	}
	t.r.known12 = true
	m := ManifestSpec{Min: i32p(21)}.Encode()
	// the string table claims to be 700 MB long
	binary.LittleEndian.PutUint32(m[8+4:], 700<<20)
	apk := (&ZipSpec{Entries: []*ZEntry{{Name: "AndroidManifest.xml", Data: m}}}).Build().Assemble(nil)
	a0 := allocNow()
	verify(apk, anyMin, anyMax)
	d := allocNow() - a0
	if d < 512<<20 {
		return
	}
	z, err := apkparser.OpenZipReader(bytes.NewReader(apk))
	if err == nil {
		z.Close()
	}
	what := fmt.Sprintf("the AXML parser (module apkparser, parseStringTable and parseString16) reserves the length a string table of AndroidManifest.xml declares: %d bytes for an APK of %d bytes", d, len(apk))
	if !t.Known("C12-axml-stringtable", what) {
		t.Attach("input", apk)
		t.Violate("%s", what)
	}
}

func init() {
	register("C12", "a case is an APK made from a correctly signed one by damaging it at one level (file, block, pair, signer, signed data signed again, certificate, attribute, lineage, keys, ZIP headers, manifest text, PKCS#7 elements, AXML), by inviting quadratic work, or raw pieces; all entry points run on it under a CPU-time and allocation bound; non-trivial: every damaged APK longer than an end record, distinct by bytes",
		Sub{"block", 4000, 150000, c12Block},
		Sub{"v1", 4000, 150000, c12V1},
		Sub{"zip", 2400, 100000, c12Zip},
		Sub{"manifest", 1600, 60000, c12Manifest},
		Sub{"stamp-frosting", 1600, 60000, c12Extra},
		Sub{"raw", 2400, 100000, c12Raw},
		Sub{"bulk", 48, 600, c12Bulk},
		Sub{"known", 8, 8, c12Known},
	)
}

package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/avast/apkverifier"
)

func extract(apk []byte) ([][][]byte, error) {
	c, err := apkverifier.ExtractCertsReader(bytes.NewReader(apk), nil)
	return rawChains(c), err
}

// exApk is a correctly signed APK of some scheme mix.
type exApk struct {
	desc string
	b    *BlockAPK // nil: v1 only
	j    *JarAPK
	spec *ZipSpec
	apk  []byte
}

func (t *T) genExApk() *exApk {
	e := &exApk{}
	small := zipOpts{maxEntries: 4, maxSize: 300, maxComment: 80}
	kind := pick(t, "kind", []string{"block", "v1", "both", "many"})
	if t.Pct("min24", 80) {
		small.manifest = &ManifestSpec{Min: i32p(int32(pick(t, "bmin", []int{24, 26, 28, 30, 33}))), UTF8: true}
	}
	switch kind {
	case "block":
		e.b = t.genBlockAPK(small)
		if t.Pct("extra", 30) {
			e.b.Extra = append(e.b.Extra, Pair{0x71777779, t.Bytes("x", 0, 20)})
			e.b.Order = nil
		}
	case "v1", "both":
		small.manifest = &ManifestSpec{Min: i32p(int32(pick(t, "mmin", []int{1, 9, 17, 18, 21, 23, 24, 28}))), UTF8: true}
		e.j = t.genJar(small, 4)
		e.j.MFDigests = dedup(append(e.j.MFDigests, "SHA1"))
		for _, s := range e.j.Signers {
			s.Digests = dedup(append(s.Digests, "SHA1"))
		}
		e.j.Make()
		e.spec = e.j.Spec()
		if kind == "both" {
			e.b = &BlockAPK{Zip: e.spec}
			t.genSchemes(e.b, 60, pick(t, "combo", []string{"2", "3", "23", "3r", "23r"}))
			e.b.Make()
		}
	case "many":
		e.b = &BlockAPK{Zip: t.genZip(small)}
		for i := t.Range("n", 3, 10); i > 0; i-- {
			s := t.genSigner(false, false)
			e.b.V2 = append(e.b.V2, s)
		}
		markChains(e.b.V2, 60)
		e.b.Make()
	}
	if e.b != nil {
		e.apk = e.b.Bytes()
		e.desc = fmt.Sprintf("%s v2{%s} v3{%s} v31{%s}", kind, specsStr(e.b.V2), specsStr(e.b.V3), specsStr(e.b.V31))
		if e.j != nil {
			e.desc += " " + jarStr(e.j)
		}
	} else {
		e.apk = e.j.Bytes()
		e.desc = jarStr(e.j)
	}
	return e
}

// own is the set of chains of the signers the APK has.
func (e *exApk) own() [][][]byte {
	if e.b == nil {
		return e.j.chains()
	}
	_, c := e.b.expect(24, anyMax)
	return c
}

func c14Case(t *T) {
	e := t.genExApk()
	t.Attach("apk", e.apk)
	t.Note("%s", e.desc)
	v := verify(e.apk, anyMin, anyMax)
	if v.Err != nil {
		// some scheme mixes are not acceptable over the whole range
		t.Class("not accepted over the default range")
	} else {
		c, err := extract(e.apk)
		if err != nil {
			t.Violate("%s: verifies, but extraction fails: %v", e.desc, err)
		}
		if !chainsEqual(c, v.Certs) {
			t.Violate("%s: extraction gives %s, verification %s", e.desc, chainStr(c), chainStr(v.Certs))
		}
		t.Class("scheme %d", v.Scheme)
		t.NonTrivial(e.apk)
		t.Sample("%s", e.desc)
		if t.Pct("path", 10) {
			f, err := os.CreateTemp(".", "c14-*.apk")
			if err != nil {
				panic(err)
			}
			defer os.Remove(f.Name())
			f.Write(e.apk)
			f.Close()
			pc, err := apkverifier.ExtractCerts(f.Name(), nil)
			if err != nil || !chainsEqual(rawChains(pc), c) {
				t.Violate("%s: extraction by path gives %s %v, by reader %s", e.desc, certsText(pc), err, chainStr(c))
			}
		}
	}
	// content edits
	want, err := extract(e.apk)
	if err != nil {
		t.Violate("%s: extraction fails: %v", e.desc, err)
	}
	if !sameChains(want, e.own()) {
		t.Violate("%s: extraction gives %s, the signers are %s", e.desc, chainStr(want), chainStr(e.own()))
	}
	for n := 0; n < 3; n++ {
		d := ""
		var apk []byte
		if e.b != nil && t.Pct("raw", 60) {
			apk = append([]byte(nil), e.apk...)
			for k := t.Range("flips", 1, 6); k > 0; k-- {
				i := t.Uni("at", len(e.b.Sec.Contents))
				apk[i] ^= byte(1 + t.Uni("v", 255))
				d += fmt.Sprintf("byte %d of the contents changed ", i)
			}
		} else {
			spec := e.spec
			if spec == nil {
				spec = e.b.Zip
			}
			z := spec.clone()
			var ed []int
			for i, x := range z.Entries {
				if !strings.HasPrefix(x.Name, "META-INF/") {
					ed = append(ed, i)
				}
			}
			if len(ed) == 0 {
				continue
			}
			i := pick(t, "entry", ed)
			old := z.Entries[i]
			z.Entries[i] = old.clone()
			var how string
			z.Entries[i].Data, how = t.alter(old.Data)
			d = fmt.Sprintf("content of %s %s", old.Name, how)
			s := z.Build()
			if e.b != nil {
				apk = s.Assemble(encodeBlock(e.b.Pairs()))
			} else {
				apk = s.Assemble(nil)
			}
		}
		t.Attach("edited", apk)
		t.NonTrivial(apk)
		c, err := extract(apk)
		if err != nil {
			t.Violate("%s, %s: extraction fails: %v", e.desc, d, err)
		}
		if !chainsEqual(c, want) {
			t.Violate("%s, %s: extraction gives %s, before %s", e.desc, d, chainStr(c), chainStr(want))
		}
		t.Evals(1)
	}
}

func c14Unsigned(t *T) {
	small := zipOpts{maxEntries: 4, maxSize: 300, maxComment: 80}
	var apk []byte
	what := ""
	switch t.Uni("u", 5) {
	case 0:
		what = "plain ZIP"
		apk = t.genZip(small).Build().Assemble(nil)
	case 1:
		what = "signing block without a known scheme"
		apk = t.genZip(small).Build().Assemble(encodeBlock([]Pair{{0x42726577, make([]byte, 20)}, {0x1234, t.Bytes("p", 0, 40)}}))
	case 2:
		what = "signature files removed"
		j := t.genJar(small, 3)
		j.Make()
		z := j.Spec()
		drop := pick(t, "drop", []string{".SF", "block", "all"})
		var keep []*ZEntry
		for _, e := range z.Entries {
			gone := false
			for _, s := range j.Signers {
				gone = gone || e.Name == s.sfName() && drop != "block" || e.Name == s.blockName() && drop != ".SF"
			}
			if !gone {
				keep = append(keep, e)
			}
		}
		z.Entries = keep
		what += " (" + drop + ")"
		apk = z.Build().Assemble(nil)
	case 3:
		what = "signing block removed"
		b := t.genBlockAPK(small)
		apk = b.Sec.Assemble(nil)
	case 4:
		what = "signature files elsewhere"
		j := t.genJar(small, 1)
		j.Make()
		z := j.Spec()
		pre := pick(t, "pre", []string{"META-INFX/", "assets/META-INF/", "meta-inf/"})
		for _, e := range z.Entries {
			if strings.HasPrefix(e.Name, "META-INF/") {
				e.Name = pre + strings.TrimPrefix(e.Name, "META-INF/")
			}
		}
		apk = z.Build().Assemble(nil)
	}
	t.Attach("apk", apk)
	t.Note("%s", what)
	t.NonTrivial(apk)
	t.Class("unsigned: %s", what)
	t.Sample("%s", what)
	c, err := extract(apk)
	if len(c) != 0 {
		t.Violate("%s: extraction reports %s (%v)", what, chainStr(c), err)
	}
	t.Class("error %v", err != nil)
}

// c14Damaged: an APK one of whose signers is malformed or did not sign what it says.
func c14Damaged(t *T) {
	small := zipOpts{maxEntries: 3, maxSize: 200, maxComment: 40}
	var apk []byte
	what, desc := "", ""
	var own [][][]byte
	if t.Pct("block", 65) {
		b := &BlockAPK{Zip: t.genZip(small)}
		t.genSchemes(b, 50, pick(t, "combo", []string{"2", "3"}))
		b.Make()
		recs, specs := b.RecV2, b.V2
		if len(b.V3) > 0 {
			recs, specs = b.RecV3, b.V3
		}
		own = chainsOf(specs)
		i := t.Uni("which", len(recs))
		r, best := recs[i], specs[i].best()
		switch t.Uni("how", 5) {
		case 0, 1:
			what = t.breakSigner(r, specs[i], anyMax)
		case 2:
			x := append([]byte(nil), r.SignedBytes...)
			x[t.Uni("sd", len(x))] ^= byte(1 << t.Uni("bit", 8))
			r.SignedBytes = x
			what = "signed data bit flipped"
		case 3:
			x := append([]byte(nil), r.Sigs[best].Data...)
			x[t.Uni("sg", len(x))] ^= byte(1 << t.Uni("bit", 8))
			r.Sigs[best].Data = x
			what = "signature bit flipped"
		case 4:
			r.PubKey = t.foreign(r.Key, "").SPKI
			what = "public key replaced"
		}
		if what == "" {
			return
		}
		desc = fmt.Sprintf("v2{%s} v3{%s}", specsStr(b.V2), specsStr(b.V3))
		apk = b.Bytes()
	} else {
		j := t.genJar(small, 3)
		j.Make()
		own = j.chains()
		s := j.Signers[t.Uni("which", len(j.Signers))]
		switch t.Uni("how", 5) {
		case 0:
			s.P7 = func(p *P7) {
				for _, x := range p.Signers {
					x.BadSig = true
				}
			}
			s.MakeBlock()
			what = "signature bit flipped"
		case 1: // the content of the block is the signature file
			x := append([]byte(nil), s.SF...)
			// no header of the first section is touched in a way that makes it another kind of file
			i := t.Uni("sf", len(x))
			x[i] ^= 1
			s.SF = x
			what = "signature file changed"
			if !bytes.Contains(x, []byte("Signature-Version: 1.0")) {
				return
			}
		case 2:
			s.Block = s.Block[:t.Uni("cut", len(s.Block))]
			what = "signature block cut"
		case 3:
			s.Block = t.Bytes("junk", 0, 60)
			what = "signature block of random bytes"
		case 4:
			f := t.foreign(s.Key, s.Key.Kind)
			s.P7 = func(p *P7) {
				for _, x := range p.Signers {
					if v := v1AlgsFor(f); len(v) > 0 {
						x.Key = f
						ok := false
						for _, a := range v {
							ok = ok || a == x.Alg
						}
						if !ok {
							x.Alg = v[0]
						}
					}
				}
			}
			s.MakeBlock()
			what = "signed with another key"
		}
		desc = jarStr(j)
		apk = j.Bytes()
	}
	what += ", " + desc
	t.Attach("apk", apk)
	t.Note("%s", what)
	t.NonTrivial(apk)
	t.Sample("%s", what)
	t.Evals(1)
	if c, err := extract(apk); err == nil {
		t.Violate("%s: extraction reports no error and gives %s (signers of the undamaged APK: %s)", what, chainStr(c), chainStr(own))
	}
}

func init() {
	register("C14", "a case is a correctly signed APK of some scheme mix, for which extraction has to give exactly the chains that verification reports over the default range, and up to three content edits after which extraction has to give the same chains; or an APK without signature, for which it has to give none; or one of whose signers' structure, signature, key or signed bytes was damaged, for which it has to report an error; non-trivial: the APK verifies, the edit changed bytes, distinct by bytes",
		Sub{"agree", 4000, 100000, c14Case},
		Sub{"unsigned", 1600, 40000, c14Unsigned},
		Sub{"damaged", 2000, 60000, c14Damaged},
	)
}

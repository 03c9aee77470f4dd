package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier"
)

// dexPrefix draws what the file begins with.
func (t *T) dexPrefix() (p []byte, how string) {
	switch t.Uni("pre", 4) {
	case 0, 1:
		p = []byte("dex\n")
		switch t.Uni("dex", 4) {
		case 0:
			how = "DEX magic alone"
		case 1:
			p = cat(p, []byte("035\x00"), t.Bytes("rest", 0, 120))
			how = "DEX header"
		case 2:
			p = cat(p, []byte("039\x00"), t.Bytes("rest", 100, 400))
			how = "DEX 039 header"
		case 3:
			p = cat(p, t.Bytes("rest", 1, 3))
			how = "DEX magic and a few bytes"
		}
		return
	case 2:
		p = pick(t, "near", [][]byte{[]byte("dex\r"), []byte("dex "), []byte("dex"), []byte("DEX\n"), []byte("\ndex"), []byte(" dex\n035"), []byte("cdex001"), []byte("dey\n035"), []byte("xed\n"), []byte("\nxed"),
			[]byte("ded\n"), []byte("dex\x0b"), []byte("de\x78\x0a\x00")[:3], []byte("vdex"), []byte("oat\n"), []byte("\x7fELF"), []byte("fex\n"), []byte("Dex\n035"), []byte("dfx\n035"), []byte("dex\x8a")})
		return p, fmt.Sprintf("near miss %q", p)
	}
	if t.Pct("none", 50) {
		return nil, "no prefix"
	}
	p = t.Bytes("bytes", 1, 60)
	if bytes.HasPrefix(p, []byte("dex\n")) {
		p = nil
	}
	return p, "other prefix"
}

func c15Judge(t *T, d string, apk []byte, min, max int32, scheme int, viaV1 bool, chains [][][]byte, dex bool) {
	t.Attach("apk", apk)
	v := verify(apk, min, max)
	mixed := v.Err == apkverifier.ErrMixedDexApkFile
	switch {
	case scheme == 0:
		if v.Err == nil {
			t.Violate("%s: accepted", d)
		}
		if mixed {
			t.Violate("%s: an APK that does not verify is reported with ErrMixedDexApkFile", d)
		}
		t.Class("invalid, own error (dex %v)", dex)
	case viaV1 && dex:
		if !mixed {
			t.Violate("%s: want ErrMixedDexApkFile, got %v", d, v.Err)
		}
		if !sameChains(v.Certs, chains) || v.Scheme != scheme {
			t.Violate("%s: scheme %d and certificates %s reported, want %d and %s", d, v.Scheme, chainStr(v.Certs), scheme, chainStr(chains))
		}
		t.Class("mixed, scheme %d", scheme)
	default:
		if v.Err != nil {
			t.Violate("%s: rejected: %v", d, v.Err)
		}
		if !sameChains(v.Certs, chains) || v.Scheme != scheme {
			t.Violate("%s: scheme %d and certificates %s reported, want %d and %s", d, v.Scheme, chainStr(v.Certs), scheme, chainStr(chains))
		}
		t.Class("accepted, scheme %d (dex %v)", scheme, dex)
	}
	if t.Pct("path", 8) { // the other ways in
		f, err := os.CreateTemp(".", "c15-*.apk")
		if err != nil {
			panic(err)
		}
		defer os.Remove(f.Name())
		f.Write(apk)
		f.Close()
		z, _ := apkparser.OpenZip(f.Name())
		if z != nil {
			defer z.Close()
		}
		_, err = apkverifier.VerifyWithSdkVersion(f.Name(), z, min, max)
		if (err == nil) != (v.Err == nil) || (err == apkverifier.ErrMixedDexApkFile) != mixed {
			t.Violate("%s: by path %v, by reader %v", d, err, v.Err)
		}
	}
}

// c15Policy: any scheme mix behind a prefix that was there when the APK was signed.
func c15Policy(t *T) {
	pre, how := t.dexPrefix()
	t.zipPrefix = pre
	dex := bytes.HasPrefix(cat(pre, []byte("PK\x03\x04")), []byte("dex\n"))
	p, apk, _ := t.genPolicyAPK()
	d0 := fmt.Sprintf("%s; v1 %s, v2 %s, v3 %s, v3.1 %s", how, stateName[p.v1], stateName[p.v2], stateName[p.v3], stateName[p.v31])
	t.Note("%s", d0)
	for i := t.Range("ranges", 1, 4); i > 0; i-- {
		min, max := int32(pick(t, "min", policyLevels)), int32(anyMax)
		if t.Pct("anymin", 45) {
			min = anyMin
		}
		if t.Pct("maxlow", 60) {
			max = int32(pick(t, "max", policyLevels))
		}
		if max < min {
			min, max = max, min
		}
		if p.undecided(min, max) || max < 4 {
			continue
		}
		scheme, chains, why := p.rule(min, max)
		eff := min
		if min == anyMin {
			eff = 1
			if p.man != nil && !p.man.NoUsesSdk && p.man.Min != nil {
				eff = *p.man.Min
			}
		}
		d := fmt.Sprintf("%s <%d;%d>: %s", d0, min, max, why)
		t.Sample("%s", d)
		t.NonTrivial(apk, min, max)
		t.Evals(1)
		c15Judge(t, d, apk, min, max, scheme, scheme == 1 || eff < 24, chains, dex)
	}
}

// c15V1: v1-only APKs to which the prefix was added afterwards, as an attacker does it, with and without offsets adjusted.
func c15V1(t *T) {
	pre, how := t.dexPrefix()
	j, min, max := t.genSignedJar(zipOpts{maxEntries: 4, maxComment: 60}, 3)
	scheme := 1
	z := j.Spec()
	if t.Pct("invalid", 35) {
		scheme = 0
		switch t.Uni("inv", 3) {
		case 0:
			how += ", " + t.alterEntry(z)
		case 1:
			how += ", entry added"
			z.Entries = append(z.Entries, &ZEntry{Name: "zz-added", Data: []byte("x")})
		case 2:
			how += ", signature broken"
			for _, e := range z.Entries {
				for _, s := range j.Signers {
					if e.Name == s.sfName() {
						e.Data = append(append([]byte(nil), e.Data...), "\r\n"...)
					}
				}
			}
		}
	}
	z.Prefix = pre
	if t.Pct("unadjusted", 50) {
		z.OffsetsOf = len(pre)
		how += ", offsets unadjusted"
	}
	apk := z.Build().Assemble(nil)
	d := fmt.Sprintf("%s; %s <%d;%d>", how, jarStr(j), min, max)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	c15Judge(t, d, apk, min, max, scheme, true, j.chains(), bytes.HasPrefix(apk, []byte("dex\n")))
}

// c15Block: a prefix put before a block-signed APK.
func c15Block(t *T) {
	pre, how := t.dexPrefix()
	if len(pre) == 0 {
		return
	}
	b := t.genBlockAPK(zipOpts{maxEntries: 3, maxSize: 200, maxComment: 30})
	t.Class("block-signed, prefix added")
	sec := *b.Sec
	sec.Contents = cat(pre, sec.Contents)
	if t.Pct("unadj", 50) {
		sec.Shift = len(pre)
		how += ", offsets unadjusted"
	}
	apk := sec.Assemble(encodeBlock(b.Pairs()))
	min, max := t.genRange(b)
	d := fmt.Sprintf("%s before a block-signed APK <%d;%d>", how, min, max)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	c15Judge(t, d, apk, min, max, 0, false, nil, bytes.HasPrefix(apk, []byte("dex\n")))
}

func init() {
	register("C15", "a case is an APK that begins with the DEX magic, a near miss, other bytes or nothing, the prefix being there when it was signed (any scheme mix, judged by the platform rule) or added afterwards, valid or not, and an SDK range; every judged pair is non-trivial, distinct by bytes and range",
		Sub{"policy", 4000, 120000, c15Policy},
		Sub{"v1", 4000, 120000, c15V1},
		Sub{"block", 1600, 40000, c15Block},
	)
}

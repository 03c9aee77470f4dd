package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/avast/apkparser"
	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/signingblock"
)

var errInjected = errors.New("injected fault")

// faultReader is a reader over data in which one call, or every call from one on, fails.
type faultReader struct {
	r       *bytes.Reader
	ops     int // calls so far
	at      int // first failing call; -1: none
	sticky  bool
	partial bool // hand over part of the data with the error
	err     error
	short   *prng // short reads
	hit     bool
	count   [3]int
}

func newFaultReader(b []byte) *faultReader {
	return &faultReader{r: bytes.NewReader(b), at: -1, err: errInjected}
}

func (f *faultReader) due(kind int) bool {
	k := f.ops
	f.ops++
	f.count[kind]++
	if f.at >= 0 && (k == f.at || f.sticky && k > f.at) {
		f.hit = true
		return true
	}
	return false
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.due(0) {
		n := 0
		if f.partial && len(p) > 1 {
			n, _ = f.r.Read(p[:len(p)/2])
		}
		return n, f.err
	}
	if f.short != nil && len(p) > 1 {
		switch f.short.n(4) {
		case 0:
			p = p[:1]
		case 1:
			p = p[:1+f.short.n(len(p))]
		case 2:
			p = p[:1+f.short.n(min(len(p), 9))]
		}
	}
	n, err := f.r.Read(p)
	// the end may be reported together with the last bytes
	if f.short != nil && err == nil && f.r.Len() == 0 && f.short.n(2) == 0 {
		err = io.EOF
	}
	return n, err
}

func (f *faultReader) Seek(o int64, w int) (int64, error) {
	if f.due(1) {
		return 0, f.err
	}
	return f.r.Seek(o, w)
}

func (f *faultReader) ReadAt(p []byte, o int64) (int, error) {
	if f.due(2) {
		n := 0
		if f.partial && len(p) > 1 {
			n, _ = f.r.ReadAt(p[:len(p)/2], o)
		}
		return n, f.err
	}
	return f.r.ReadAt(p, o)
}

// faultApk draws an APK, often one that a fault could make look better than it is.
func (t *T) faultApk() (apk []byte, kind string) {
	small := zipOpts{maxEntries: 3, maxSize: 200, maxComment: 40}
	withV1 := func() (*JarAPK, *ZipSpec) {
		small.manifest = &ManifestSpec{Min: i32p(int32(pick(t, "mmin", []int{9, 21, 24, 28}))), UTF8: true}
		if t.Pct("sandbox", 25) {
			small.manifest.Sandbox = i32p(2)
		}
		if t.Pct("target", 20) {
			small.manifest.Target = i32p(30)
		}
		j := t.genJar(small, 2)
		j.MFDigests = dedup(append(j.MFDigests, "SHA1"))
		for _, s := range j.Signers {
			s.Digests = dedup(append(s.Digests, "SHA1"))
		}
		j.Make()
		return j, j.Spec()
	}
	switch t.Uni("kind", 10) {
	case 9: // a DEX file in front of the APK, which only v1 protects
		j, z := withV1()
		_ = j
		z.Prefix = append([]byte("dex\n035\x00"), bulk(7, t.Range("dexlen", 24, 200))...)
		return z.Build().Assemble(nil), "DEX prefix"
	case 0:
		return t.genBlockAPK(small).Bytes(), "block"
	case 1:
		b := t.genBlockAPK(small)
		_, a := t.tamper(b, encodeBlock(b.Pairs()))
		return a, "block tampered"
	case 2:
		j, _, _ := t.genSignedJar(small, 3)
		return j.Bytes(), "v1"
	case 3:
		j, z := withV1()
		d := t.alterEntry(z)
		_ = j
		return z.Build().Assemble(nil), "v1 " + d[:10]
	case 4, 5: // v2 or v3 broken over a good v1 without stripping protection
		_, z := withV1()
		b := &BlockAPK{Zip: z}
		t.genSchemes(b, 60, pick(t, "combo", []string{"2", "3", "23"}))
		b.Make()
		for _, l := range [][]*Signer{b.RecV2, b.RecV3} {
			for i := range l {
				l[i] = l[i].clone()
				t.breakRecord(l[i])
			}
		}
		return b.Bytes(), "v1 with broken block"
	case 6:
		_, z := withV1()
		b := &BlockAPK{Zip: z}
		t.genSchemes(b, 60, pick(t, "combo", []string{"2", "3", "23", "23r"}))
		b.Make()
		return b.Bytes(), "v1 and block"
	case 7: // two views of the files: central directory and local headers
		_, z := withV1()
		name := "META-INF/zz"
		z.Entries = append(z.Entries, &ZEntry{Name: name, Data: []byte("x"), Deflate: true})
		for _, e := range z.Entries {
			e.Deflate = true
		}
		s := z.Build()
		s.CD = bytes.Replace(s.CD, []byte(name), []byte("meta-inf/zz"), 1)
		return s.Assemble(nil), "central directory and local headers differ"
	default:
		_, apk, _ := t.genPolicyAPK()
		return apk, "mixed"
	}
}

func stampOK(v Verdict) string {
	r := v.Res.SigningBlockResult
	s := ""
	if r != nil && r.SourceStamp != nil && len(r.SourceStamp.Errors) == 0 && len(r.SourceStamp.Warnings) == 0 && r.SourceStamp.Cert != nil {
		s = "stamp " + certID(r.SourceStamp.Cert.Raw)
	}
	if r != nil && r.Frosting != nil && r.Frosting.Error == nil {
		s += " frosting " + r.Frosting.KeySha256
	}
	return s
}

func c16Fault(t *T) {
	apk, kind := t.faultApk()
	t.Attach("apk", apk)
	min, max := int32(anyMin), int32(anyMax)
	if t.Pct("range", 50) {
		min = int32(pick(t, "min", []int{-1, 9, 21, 24, 28, 33}))
		max = int32(pick(t, "max", []int{23, 27, 32, 33, anyMax, anyMax}))
		if min > max {
			min = max
		}
	}
	// 0: no ZipReader, 1: one over a reader without faults
	zipMode := t.Uni("zip", 3)
	run := func(f *faultReader) Verdict {
		var z *apkparser.ZipReader
		if zipMode == 1 {
			z, _ = apkparser.OpenZipReader(bytes.NewReader(apk))
			if z != nil {
				defer z.Close()
			}
		}
		res, err := apkverifier.VerifyWithSdkVersionReader(f, z, min, max)
		return Verdict{err, res.SigningSchemeId, rawChains(res.SignerCerts), res}
	}
	f0 := newFaultReader(apk)
	want := run(f0)
	n := f0.ops
	if n == 0 {
		return
	}
	t.Class("%s: %s", kind, errClass(want.Err))
	for i := t.Range("faults", 4, 12); i > 0; i-- {
		f := newFaultReader(apk)
		f.at = t.Uni("at", n)
		if t.Pct("early", 25) {
			f.at = t.Uni("at2", min2(n, 24))
		}
		f.sticky, f.partial = t.Pct("sticky", 40), t.Pct("partial", 30)
		f.err = pick(t, "err", []error{errInjected, errInjected, io.ErrUnexpectedEOF, io.ErrNoProgress})
		d := fmt.Sprintf("%s <%d;%d> zip %d, call %d of %d fails (from then on %v, partial data %v, %v)", kind, min, max, zipMode, f.at, n, f.sticky, f.partial, f.err)
		v := run(f)
		t.Note("%s: %s", d, errClass(v.Err))
		t.Sample("%s: %v", d, v.Err)
		t.Evals(1)
		if !f.hit {
			t.Class("fault not reached")
			continue
		}
		t.NonTrivial(apk, min, max, f.at, f.sticky, f.partial, zipMode)
		if v.Err != nil {
			t.Class("fault: error")
			if v.Err == apkverifier.ErrMixedDexApkFile && want.Err != apkverifier.ErrMixedDexApkFile {
				t.Violate("%s: ErrMixedDexApkFile, without the fault %v", d, want.Err)
			}
			continue
		}
		if want.Err != nil {
			t.Violate("%s: accepted (scheme %d, %s), without the fault rejected: %v", d, v.Scheme, chainStr(v.Certs), want.Err)
		}
		if v.Scheme != want.Scheme || !chainsEqual(v.Certs, want.Certs) {
			t.Violate("%s: accepted with scheme %d and %s, without the fault scheme %d and %s", d, v.Scheme, chainStr(v.Certs), want.Scheme, chainStr(want.Certs))
		}
		if a, b := stampOK(v), stampOK(want); a != "" && a != b {
			t.Violate("%s: reports %q, without the fault %q", d, a, b)
		}
		t.Class("fault: same verdict")
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// c16Short: readers that deliver fewer bytes than asked for.
func c16Short(t *T) {
	apk, kind := t.faultApk()
	if t.Pct("damaged", 15) {
		apk = t.mutBytes(apk, 2)
		kind += " damaged"
		if manifestHazard(apk) {
			return
		}
	}
	t.Attach("apk", apk)
	min, max := int32(anyMin), int32(anyMax)
	if t.Pct("range", 50) {
		min = int32(pick(t, "min", []int{9, 21, 24, 28}))
		max = int32(pick(t, "max", []int{28, 33, anyMax}))
	}
	want := fullText(apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(apk), nil, min, max))
	for i := 0; i < 3; i++ {
		f := newFaultReader(apk)
		f.short = &prng{t.Seed("short")}
		t.NonTrivial(apk, min, max, f.short.s)
		t.Evals(1)
		got := fullText(apkverifier.VerifyWithSdkVersionReader(f, nil, min, max))
		t.Sample("%s <%d;%d>, short reads: %s", kind, min, max, got)
		if got != want {
			t.Violate("%s <%d;%d>: with short reads\n  %s\nwithout\n  %s", kind, min, max, got, want)
		}
		c, err := apkverifier.ExtractCertsReader(f, nil)
		c2, err2 := apkverifier.ExtractCertsReader(bytes.NewReader(apk), nil)
		if a, b := exText(c, err), exText(c2, err2); a != b {
			t.Violate("%s: extraction with short reads gives %s, without %s", kind, a, b)
		}
	}
	t.Class("%s", kind)
}

// c16Extract: extraction and the signing block API under faults.
func c16Extract(t *T) {
	apk, kind := t.faultApk()
	t.Attach("apk", apk)
	api := t.Uni("api", 3)
	run := func(f *faultReader) (outcome, error) {
		switch api {
		case 0:
			c, err := apkverifier.ExtractCertsReader(f, nil)
			return exText(c, err), err
		case 1:
			r, m, err := signingblock.VerifySigningBlockReader(f, anyMin, anyMax)
			if r != nil && err == nil { // extras are no part of the verdict
				return outcome(fmt.Sprintf("scheme %d %s magic %x", r.SchemeId, certsText(r.Certs), m)), err
			}
			return "error", err
		}
		c, err := signingblock.ExtractCertsReader(f, anyMin, anyMax)
		return exText(c, err), err
	}
	f0 := newFaultReader(apk)
	want, werr := run(f0)
	n := f0.ops
	for i := t.Range("faults", 4, 10); i > 0 && n > 0; i-- {
		f := newFaultReader(apk)
		f.at, f.sticky, f.partial = t.Uni("at", n), t.Pct("sticky", 40), t.Pct("partial", 30)
		got, err := run(f)
		t.Evals(1)
		d := fmt.Sprintf("%s, api %d, call %d of %d fails (from then on %v, partial data %v)", kind, api, f.at, n, f.sticky, f.partial)
		t.Sample("%s: %v", d, err)
		t.Note("%s: %v", d, err)
		t.NonTrivial(apk, api, f.at, f.sticky, f.partial)
		if err != nil {
			t.Class("fault: error")
			continue
		}
		if werr != nil || got != want {
			t.Violate("%s:\n  %s, without the fault\n  %s (%v)", d, got, want, werr)
		}
		t.Class("fault: same result")
	}
}

func init() {
	register("C16", "a case is an APK (valid, tampered, broken block over valid v1, two-view ZIP, scheme mixes) and up to 12 injected faults (position in the sequence of read, seek and read-at calls, once or from then on, with or without partial data), or three short-read schedules; every fault that was reached is non-trivial, distinct by bytes, range and fault",
		Sub{"fault", 3200, 80000, c16Fault},
		Sub{"short", 1600, 40000, c16Short},
		Sub{"extract", 1200, 30000, c16Extract},
	)
}

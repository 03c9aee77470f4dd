package main

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io"
	"path"
	"strings"

	"github.com/avast/apkverifier"
)

// Checks whose APKs are packed anew: all their v1 APKs, valid and not.
var packSources = []struct {
	name string
	f    func(*T)
}{
	{"jar", c04Case},
	{"names", c04Names},
	{"infos", c04Infos},
	{"tampered", c05Case},
	{"attribute v1", c06V1},
	{"policy", c07Case},
	{"signers v1", c23V1},
	{"cover", c23Cover},
	{"digests", c29Case},
	{"digest", c29Single},
	{"layout", c22Case},
	{"malformed", c22Bad},
	{"extraction", c14Case},
}

// unpack reads the files of a ZIP; nil if a packing could not be told apart from another by them.
func unpack(apk []byte) []*ZEntry {
	z, err := zip.NewReader(bytes.NewReader(apk), int64(len(apk)))
	if err != nil {
		return nil
	}
	seen := map[string]bool{}
	var es []*ZEntry
	for _, f := range z.File {
		n := path.Clean(strings.TrimSuffix(f.Name, "/"))
		if seen[n] || f.Name == "" || n != strings.TrimSuffix(f.Name, "/") {
			return nil // names that the reader takes for the same
		}
		seen[n] = true
		r, err := f.Open()
		if err != nil {
			return nil
		}
		d, err := io.ReadAll(r)
		r.Close()
		if err != nil {
			return nil
		}
		es = append(es, &ZEntry{Name: f.Name, Data: d, ExtAttrs: f.ExternalAttrs})
	}
	return es
}

// repack packs the files in a drawn way. Files of META-INF stay in their order.
func (t *T) repack(es []*ZEntry) ([]byte, string) {
	var what []string
	did := func(s string) { what = append(what, s) }
	z := &ZipSpec{}
	for _, e := range es {
		z.Entries = append(z.Entries, e.clone())
	}
	if t.Pct("shuffle", 50) {
		did("order")
		p := t.perm(len(z.Entries))
		var q, meta []*ZEntry
		for _, e := range z.Entries {
			if strings.HasPrefix(e.Name, "META-INF/") {
				meta = append(meta, e)
			}
		}
		for _, i := range p {
			e := z.Entries[i]
			if strings.HasPrefix(e.Name, "META-INF/") {
				e, meta = meta[0], meta[1:]
			}
			q = append(q, e)
		}
		z.Entries = q
	}
	if t.Pct("more", 40) {
		have := map[string]bool{}
		for _, e := range z.Entries {
			have[e.Name] = true
		}
		for k := t.Range("nmore", 1, 3); k > 0; k-- {
			n := pick(t, "more.name", []string{"META-INF/", "META-INF/x.txt", "META-INF/services/a.b.C", "META-INF/com/android/otacert", "META-INF/CERT.MF", "META-INF/NOTICE.SFX", "dir/", "res/drawable/", "META-INF/ORPHAN.SF", "META-INF/maven/"})
			if have[n] {
				continue
			}
			have[n] = true
			did("with " + n)
			e := &ZEntry{Name: n}
			if !strings.HasSuffix(n, "/") {
				e.Data = t.Bytes("more.data", 0, 40)
			}
			i := t.Uni("more.at", len(z.Entries)+1)
			z.Entries = append(z.Entries[:i:i], append([]*ZEntry{e}, z.Entries[i:]...)...)
		}
	}
	mode := t.Uni("mode", 3)
	did([]string{"stored", "deflated", "mixed"}[mode])
	desc, extra, times, attrs, gaps := t.Pct("desc", 30), t.Pct("extra", 30), t.Pct("times", 40), t.Pct("attrs", 30), t.Pct("gaps", 25)
	for _, e := range z.Entries {
		e.Deflate = mode == 1 || mode == 2 && t.Pct("deflate", 50)
		if strings.HasSuffix(e.Name, "/") {
			e.Deflate = false
		}
		if desc && t.Pct("e.desc", 60) && !strings.HasSuffix(e.Name, "/") {
			e.DataDesc = true
		}
		if extra && t.Pct("e.extra", 60) {
			e.LocalExtra = cat(u16(0xcafe), u16(4), t.Bytes("lx", 4, 4))
			if t.Pct("cdx", 50) {
				e.CDExtra = cat(u16(0x5455), u16(5), []byte{1}, t.Bytes("cx", 4, 4))
			}
			if t.Pct("ecomment", 40) {
				e.Comment = t.Bytes("ec", 1, 20)
			}
		}
		if times {
			e.Time, e.Date = uint16(t.Uni("time", 1<<16)), uint16(t.Uni("date", 1<<16))
		}
		if attrs {
			e.Creator, e.ExtAttrs = byte(pick(t, "creator", []int{0, 3, 7, 10})), uint32(pick(t, "xa", []int{0, 0x10, 0o100644 << 16, 0o40755<<16 | 0x10, 0o120777 << 16, 1}))
		}
		if gaps && t.Pct("e.gap", 40) {
			e.Pad = t.Uni("gap", 9)
		}
	}
	for _, x := range []struct {
		on bool
		s  string
	}{{desc, "descriptors"}, {extra, "extra fields"}, {times, "times"}, {attrs, "attributes"}, {gaps, "gaps"}} {
		if x.on {
			did(x.s)
		}
	}
	if t.Pct("comment", 30) {
		did("comment")
		z.Comment = bytes.ReplaceAll(t.Bytes("comment", 1, 300), []byte("PK"), []byte("KP"))
	}
	if t.Pct("align", 20) {
		did("alignment")
		z.Align = pick(t, "alignto", []int{4, 4096})
	}
	if t.Pct("cdorder", 25) {
		did("order of the directory")
		// again with META-INF in its order
		p := t.perm(len(z.Entries))
		var meta []int
		for i, e := range z.Entries {
			if strings.HasPrefix(e.Name, "META-INF/") {
				meta = append(meta, i)
			}
		}
		for k, i := range p {
			if strings.HasPrefix(z.Entries[i].Name, "META-INF/") {
				p[k], meta = meta[0], meta[1:]
			}
		}
		z.CDOrder = p
	}
	if t.Pct("prefix", 15) {
		did("prefix")
		z.Prefix = bytes.ReplaceAll(append([]byte("#!"), t.Bytes("prefix", 0, 60)...), []byte("PK"), []byte("KP"))
	}
	return z.Build().Assemble(nil), strings.Join(what, ", ")
}

func verdictText(v Verdict) string {
	switch {
	case errors.Is(v.Err, apkverifier.ErrMixedDexApkFile):
		return "mixed dex"
	case v.Err != nil:
		return "rejected"
	}
	return fmt.Sprintf("accepted with scheme %d", v.Scheme)
}

func c33Case(t *T) {
	src := packSources[t.Uni("source", len(packSources))]
	seen, notes := t.collect(src.f)
	if len(seen) == 0 {
		return
	}
	s := seen[t.Uni("which", len(seen))]
	if bytes.Contains(s.apk, []byte("APK Sig Block 42")) || bytes.HasPrefix(s.apk, []byte("dex\n")) {
		t.Class("%s: not only v1", src.name)
		return
	}
	es := unpack(s.apk)
	if es == nil {
		t.Class("%s: not unpacked", src.name)
		return
	}
	for _, n := range notes {
		t.Note("%s", n)
	}
	t.Attach("before", s.apk)
	before := verify(s.apk, s.min, s.max)
	t.Class("%s: %s", src.name, verdictText(before))
	for k := 0; k < 3; k++ {
		apk, what := t.repack(es)
		t.Attach("after", apk)
		after := verify(apk, s.min, s.max)
		t.Evals(1)
		t.NonTrivial(apk, s.min, s.max)
		for _, w := range strings.Split(what, ", ") {
			t.Class("with: %s", w)
		}
		t.Sample("%s, %s: packed with %s", src.name, verdictText(before), what)
		if a, b := verdictText(before), verdictText(after); a != b {
			t.Violate("%s: %s for <%d;%d> (%v), but %s when packed with %s (%v)", src.name, a, s.min, s.max, before.Err, b, what, after.Err)
		}
		if before.Err == nil && !sameChains(before.Certs, after.Certs) {
			t.Violate("%s: certificates %s, but %s when packed with %s", src.name, chainStr(before.Certs), chainStr(after.Certs), what)
		}
	}
}

func init() {
	register("C33", "a case is a v1-only APK from the generators of other checks (valid, tampered, badly covered, malformed manifests), and three packings of the same files that differ in compression, order, descriptors, extra fields, times, attributes, gaps, comment, prefix and unsigned META-INF files; non-trivial: the packed APK was verified; distinct by its bytes and the range",
		Sub{"packing", 4000, 120000, c33Case},
	)
}

package main

import (
	"bytes"
	"crypto/sha1"
	"crypto/x509"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/apilevel"
	"github.com/avast/apkverifier/signingblock"
)

// namesOf are values near and among the ones that have names.
func (t *T) nameValue(label string, known []uint32) uint32 {
	switch t.Uni(label+".kind", 5) {
	case 0, 1:
		return pick(t, label+".known", known)
	case 2:
		return pick(t, label+".near", known) + uint32(t.Uni(label+".delta", 9)) - 4
	case 3:
		return pick(t, label+".bit", known) ^ 1<<t.Uni(label+".b", 32)
	}
	return uint32(t.Uni(label+".hi", 1<<16))<<16 | uint32(t.Uni(label+".lo", 1<<16))
}

var (
	levelValues = []uint32{1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 0xffffffff, 0x7fffffff, 0}
	algValues   = []uint32{0x101, 0x102, 0x103, 0x104, 0x201, 0x202, 0x301, 0x421, 0x423, 0x425, 0}
	blockValues = []uint32{idV2, idV3, idV31, idStamp, idFrosting, idVerPad, 0x2b09189e, 0x504b4453, 0x71777777, 0}
)

// c35Names: different values have different names.
func c35Names(t *T) {
	a := struct {
		kind string
		v    []uint32
		name func(uint32) string
	}{}
	switch t.Uni("what", 3) {
	case 0:
		a.kind, a.v, a.name = "API level", levelValues, func(v uint32) string { return apilevel.String(int32(v)) }
	case 1:
		a.kind, a.v, a.name = "signature algorithm", algValues, func(v uint32) string { return signingblock.SignatureAlgorithm(int32(v)).String() }
	case 2:
		a.kind, a.v, a.name = "block id", blockValues, func(v uint32) string { return signingblock.BlockId(v).String() }
	}
	n := t.Range("n", 2, 40)
	seen := map[string]uint32{}
	for i := 0; i < n; i++ {
		v := t.nameValue("v", a.v)
		s := a.name(v)
		if s == "" || s != a.name(v) {
			t.Violate("%s %#x is called %q, then %q", a.kind, v, s, a.name(v))
		}
		if w, ok := seen[s]; ok && w != v {
			t.Violate("%s %#x and %#x are both called %q", a.kind, w, v, s)
		}
		seen[s] = v
		t.Evals(1)
	}
	t.Class("%s", a.kind)
	t.NonTrivial(a.kind, fmt.Sprint(seen))
	t.Sample("%d values of %s", len(seen), a.kind)
}

var capNames = map[uint32]string{1: "InstalledData", 2: "SharedUserId", 4: "Permission", 8: "Rollback", 16: "Auth"}

// c35Caps: capabilities are listed one by one.
func c35Caps(t *T) {
	v := uint32(t.Uni("low", 64))
	for k := t.Uni("more", 4); k > 0; k-- {
		v |= 1 << t.Uni("bit", 31)
	}
	var want []string
	for i := uint(0); i < 31; i++ {
		b := uint32(1) << i
		if v&b == 0 {
			continue
		}
		if n, ok := capNames[b]; ok {
			want = append(want, n)
		} else {
			want = append(want, fmt.Sprintf("0x%x", b))
		}
	}
	w := strings.Join(want, "|")
	if w == "" {
		w = "None"
	}
	t.NonTrivial(v)
	t.Sample("%#x", v)
	t.Evals(1)
	if s := signingblock.LineageCertCaps(v).String(); s != w {
		t.Violate("capabilities %#x are printed as %q, want %q", v, s, w)
	}
}

// failWriter fails after some bytes.
type failWriter struct {
	left int
	buf  bytes.Buffer
}

var errNoSpace = errors.New("no space left")

func (w *failWriter) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n := w.left
		w.buf.Write(b[:n])
		w.left = 0
		return n, errNoSpace
	}
	w.left -= len(b)
	w.buf.Write(b)
	return len(b), nil
}

func sha1Hex(b []byte) string {
	s := sha1.Sum(b)
	return hex.EncodeToString(s[:])
}

// c35Dump: the printed forms of lineage nodes and certificates say what is in them.
func c35Dump(t *T) {
	k := t.genKey("key")
	spec := defaultCert(k, "x", int64(1+t.Uni("serial", 1<<20)))
	subject, subjectText := t.c20Name()
	issuer, issuerText := t.c20Name()
	spec.Subject, spec.Issuer = subject, issuer
	der := spec.DER()
	c, err := x509.ParseCertificate(der)
	if err != nil {
		t.Class("standard library does not read the certificate")
		return
	}
	var ci apkverifier.CertInfo
	ci.Fill(c)
	t.NonTrivial(der)
	s := ci.String()
	for _, x := range []string{sha1Hex(der), c.NotBefore.Format(time.RFC3339), c.NotAfter.Format(time.RFC3339), "Subject: " + subjectText, "Issuer: " + issuerText} {
		if !strings.Contains(s, x) {
			t.Violate("description %q of a certificate lacks %q", s, x)
		}
	}
	n := &signingblock.V3LineageSigningCertificateNode{
		SigningCert:        c,
		ParentSigAlgorithm: signingblock.SignatureAlgorithm(int32(t.nameValue("parent", algValues))),
		SigAlgorithm:       signingblock.SignatureAlgorithm(int32(t.nameValue("alg", algValues))),
		Signature:          t.Bytes("sig", 0, 40),
		Flags:              signingblock.LineageCertCaps(t.Uni("flags", 1<<20)),
	}
	var buf bytes.Buffer
	if err := n.Dump(&buf); err != nil {
		t.Violate("a dump into memory fails: %v", err)
	}
	d := buf.String()
	lines := map[string]string{}
	for _, l := range strings.Split(d, "\n") {
		if i := strings.Index(l, ":"); i >= 0 {
			lines[strings.TrimSpace(l[:i])] = strings.TrimSpace(l[i+1:])
		}
	}
	for _, x := range [][2]string{
		{"ParentSigAlgorithm", n.ParentSigAlgorithm.String()}, {"SigAlgorithm", n.SigAlgorithm.String()}, {"Signature", sha1Hex(n.Signature)},
		{"Flags", fmt.Sprintf("0x%04x (%s)", uint32(n.Flags), n.Flags)}, {"ValidFrom", fmt.Sprint(c.NotBefore)}, {"ValidTo", fmt.Sprint(c.NotAfter)},
	} {
		if lines[x[0]] != x[1] {
			t.Violate("dump of a lineage node has %s %q, want %q:\n%s", x[0], lines[x[0]], x[1], d)
		}
	}
	for _, x := range []string{"Cert " + sha1Hex(der), "Subject: " + subjectText, "Issuer: " + issuerText} {
		if !strings.Contains(d, x) {
			t.Violate("dump of a lineage node lacks %q:\n%s", x, d)
		}
	}
	// a dump that cannot be written completely is reported
	w := &failWriter{left: t.Uni("room", len(d))}
	room := w.left
	t.Evals(2)
	if err := n.Dump(w); err == nil {
		t.Violate("a dump of %d bytes into a writer with room for %d reports no error", len(d), room)
	}
	if !strings.HasPrefix(d, w.buf.String()) {
		t.Violate("a dump into a writer with room for %d bytes wrote something else than its beginning: %q", room, w.buf.String())
	}
	t.Sample("dump of %d bytes, flags %s", len(d), n.Flags)
}

func init() {
	register("C35", "a case is a set of API levels, algorithm or block ids (known ones, their neighbours, any), a set of capability flags, or a lineage node with a generated certificate, printed; non-trivial: all; distinct by the values",
		Sub{"names", 4000, 100000, c35Names},
		Sub{"caps", 4000, 100000, c35Caps},
		Sub{"dump", 4000, 100000, c35Dump},
	)
}

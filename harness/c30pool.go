package main

import (
	"bytes"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"strings"

	"github.com/avast/apkverifier/internal/x509andr"
)

// c30Pool: certificate pools filled from PEM text hold the certificates in it, whatever is written around them.
func c30Pool(t *T) {
	our, std := x509andr.NewCertPool(), x509.NewCertPool()
	names := []string{"rsa2048-a", "rsa2048-b", "rsa1024-a", "ec256-a", "ec256-b", "ec384-a", "ec521-a", "dsa1024q160-a"}
	var d []string
	any := false
	for call := t.Range("calls", 1, 3); call > 0; call-- {
		var text bytes.Buffer
		for n := t.Uni("blocks", 7); n > 0; n-- {
			k := keyByName[pick(t, "pk", names)]
			der := selfCert(k, t.Uni("pv", 3))
			if t.Pct("issued", 30) {
				der = issuedCert(k, t.Uni("piv", 2), keyByName[pick(t, "pp", names)], 0)
			}
			b := &pem.Block{Type: "CERTIFICATE", Bytes: der}
			what := "certificate of " + k.Name
			switch t.Uni("pkind", 12) {
			case 0:
				b.Type = pick(t, "ptype", []string{"X509 CERTIFICATE", "TRUSTED CERTIFICATE", "PRIVATE KEY", "certificate", "CERTIFICATE REQUEST", ""})
				what = "block of type " + b.Type
			case 1:
				b.Headers = map[string]string{"Proc-Type": "4,ENCRYPTED"}
				what += " with headers"
			case 2:
				b.Bytes = der[:t.Uni("pcut", len(der))]
				what += " cut off"
			case 3:
				b.Bytes = append(der[:len(der):len(der)], t.Bytes("ptail", 1, 9)...)
				what += " with more behind it"
			}
			e := pem.EncodeToMemory(b)
			switch t.Uni("ptext", 12) {
			case 0:
				e = bytes.ReplaceAll(e, []byte("\n"), []byte("\r\n"))
				what += ", CRLF"
			case 1:
				e = e[:len(e)-t.Range("pend", 1, 20)]
				what += ", end cut off"
			case 2:
				at := t.Uni("pchar", len(e))
				e[at] = pick(t, "pcharv", []byte{'!', '-', ' ', '\n', 0})
				what += ", a character changed"
			case 3:
				e = append([]byte(pick(t, "pjunk", []string{"# comment\n", "-----BEGIN CERTIFICATE-----\n", "-----BEGIN", "x", "\n\n", "-----END CERTIFICATE-----\n"})), e...)
				what += ", text in front"
			}
			text.Write(e)
			d = append(d, what)
		}
		in := text.Bytes()
		keep := append([]byte(nil), in...)
		want := std.AppendCertsFromPEM(in)
		t.Attach("pem", keep)
		got := false
		t.Guard("certificates from PEM", in, func() { got = our.AppendCertsFromPEM(in) })
		any = any || want
		d = append(d, fmt.Sprintf("= %v", want))
		t.Note("%s", strings.Join(d, "; "))
		if got != want {
			t.Violate("AppendCertsFromPEM says %v, crypto/x509 %v", got, want)
		}
		if !bytes.Equal(in, keep) {
			t.Violate("AppendCertsFromPEM changed its input")
		}
		a, b := our.Subjects(), std.Subjects()
		if len(a) != len(b) {
			t.Violate("%d certificates in the pool, %d in crypto/x509's", len(a), len(b))
		}
		for i := range a {
			if !bytes.Equal(a[i], b[i]) {
				t.Violate("subject %d is %x, in crypto/x509's pool %x", i, a[i], b[i])
			}
		}
		t.NonTrivial(keep, len(a))
		t.Class("pool of %d", min(len(a), 6))
	}
	t.Sample("%s", strings.Join(d, "; "))
}

package main

import (
	"bytes"
	"crypto"
	"fmt"
	"math/big"
	"strings"

	"github.com/avast/apkverifier"
)

// The certificate of a SignerInfo is found by issuer and serial number, and its chain by the names of issuer and
// subject. Names are the same if their attributes are, without regard to case and to the number of spaces.

const (
	oidMail     = "1.2.840.113549.1.9.1"
	oidDC       = "0.9.2342.19200300.100.1.25"
	oidSerialNo = "2.5.4.5"
)

var dnOIDs = []string{oidC, oidO, oidOU, oidCN, oidMail, oidDC, oidSerialNo, oidL, oidST, "2.5.4.9", "2.5.4.12"}

type dnAttr struct{ oid, val string }

// dn is a name of single-valued RDNs.
type dn []dnAttr

var dnWords = []string{"a", "Acme", "Inc.", "CA", "root", "x1", "Some", "One", "Praha", "dev", "example.com", "a,b", "R&D+", "\"q\"", "<x>", "a;b", "\\", "#1", "a=b", "info@x.cz", "+", ","}

func (t *T) genIssuerValue() string {
	n := t.Range("dn.words", 1, 3)
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, pick(t, "dn.word", dnWords))
	}
	return strings.Join(w, " ")
}

func (t *T) genIssuer() dn {
	n := t.Range("dn.n", 1, 4)
	var d dn
	for i := 0; i < n; i++ {
		d = append(d, dnAttr{pick(t, "dn.oid", dnOIDs), t.genIssuerValue()})
	}
	return d
}

// canon is equal for names that are the same.
func (d dn) canon() string {
	s := ""
	for _, a := range d {
		s += a.oid + "=" + strings.Join(strings.Fields(strings.ToLower(a.val)), " ") + "\x00"
	}
	return s
}

// other is a name that is nearly the same.
func (t *T) otherDN(d dn) dn {
	for {
		o := append(dn(nil), d...)
		i := t.Uni("dn.at", len(o))
		switch t.Uni("dn.how", 5) {
		case 0:
			o = append(o, dnAttr{pick(t, "dn.oid", dnOIDs), t.genIssuerValue()})
		case 1:
			if len(o) > 1 {
				o = append(o[:i], o[i+1:]...)
			}
		case 2:
			o[i].val = t.genIssuerValue()
		case 3:
			o[i].oid = pick(t, "dn.oid", dnOIDs)
		default: // one character
			b := []byte(o[i].val)
			b[t.Uni("dn.ch", len(b))] = pick(t, "dn.to", []byte("abz1,+<>;\\\"#="))
			o[i].val = string(b)
		}
		if o.canon() != d.canon() {
			return o
		}
	}
}

// der encodes the name, with drawn case, spaces and string types if vary is set.
func (d dn) der(p *prng, vary bool) []byte {
	var n Name
	for _, a := range d {
		v := a.val
		if vary {
			var b []byte
			if p.n(4) == 0 && v[0] != '#' { // (an octothorp counts as the first character only)
				b = append(b, bytes.Repeat([]byte(" "), 1+p.n(2))...)
			}
			for i := 0; i < len(v); i++ {
				c := v[i]
				switch {
				case c >= 'a' && c <= 'z' && p.n(3) == 0:
					c -= 32
				case c >= 'A' && c <= 'Z' && p.n(3) == 0:
					c += 32
				}
				b = append(b, c)
				if c == ' ' && p.n(3) == 0 {
					b = append(b, "   "[:1+p.n(3)]...)
				}
			}
			if p.n(4) == 0 {
				b = append(b, bytes.Repeat([]byte(" "), 1+p.n(2))...)
			}
			v = string(b)
		}
		tag := byte(0x0c)
		printable := strings.Trim(strings.ToLower(v), "abcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?") == ""
		for _, c := range v {
			if !strings.ContainsRune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 '()+,-./:=?", c) {
				printable = false
			}
		}
		if vary && p.n(2) == 0 {
			tag = 0x16
			if printable && p.n(2) == 0 {
				tag = 0x13
			}
		}
		n = append(n, []nameAttr{{a.oid, tag, []byte(v)}})
	}
	return n.DER()
}

func c04Names(t *T) {
	type entry struct {
		subject, issuer dn
		serial          int64
		key             *Key
		note            string
	}
	used := map[string]bool{}
	fresh := func(f func() dn) dn {
		for {
			if d := f(); !used[d.canon()] {
				used[d.canon()] = true
				return d
			}
		}
	}
	k := t.genKey("key")
	serial := int64(t.Range("serial", 1, 1<<40))
	decoyKey := func() *Key {
		for {
			if d := keyByName[pick(t, "dkey", []string{"rsa2048-b", "rsa1024-e", "ec256-e", "ec256-f"})]; d != k {
				return d
			}
		}
	}
	me := entry{subject: fresh(t.genIssuer), serial: serial, key: k, note: "signer"}
	want := []*entry{&me}
	var list []*entry
	list = append(list, &me)
	// the chain
	up := &me
	for depth := t.Uni("depth", 4); ; depth-- {
		if depth == 0 && t.Pct("self", 60) { // ends in a self-issued one
			up.issuer = up.subject
			break
		}
		up.issuer = fresh(func() dn {
			if t.Pct("near", 50) {
				return t.otherDN(up.subject)
			}
			return t.genIssuer()
		})
		if depth <= 0 { // ends because the issuer's certificate is not there
			break
		}
		next := &entry{subject: up.issuer, serial: int64(t.Range("serial", 1, 1<<40)), key: decoyKey(), note: "issuer"}
		want = append(want, next)
		list = append(list, next)
		up = next
	}
	// others that nearly match
	for n := t.Uni("decoys", 5); n > 0; n-- {
		e := &entry{key: decoyKey(), serial: serial}
		switch t.Uni("decoy", 4) {
		case 0, 1:
			e.note, e.issuer = "same serial number", fresh(func() dn { return t.otherDN(me.issuer) })
			e.subject = fresh(t.genIssuer)
		case 2:
			e.note, e.issuer = "same issuer", me.issuer
			for e.serial == serial {
				e.serial = pick(t, "ser", []int64{serial - 1, serial + 1, serial << 8, serial & 0xff, serial | 1<<41})
			}
			e.subject = fresh(t.genIssuer)
		default:
			of := want[t.Uni("of", len(want))]
			e.note, e.issuer, e.serial = "subject near issuer", fresh(t.genIssuer), int64(t.Range("serial", 1, 1<<40))
			e.subject = fresh(func() dn { return t.otherDN(of.issuer) })
		}
		list = append(list, e)
	}
	vary := t.Pct("vary", 70)
	p := &prng{t.Seed("names")}
	der := map[*entry][]byte{}
	for _, e := range list {
		der[e] = (&CertSpec{Serial: intContent(big.NewInt(e.serial)), Issuer: e.issuer.der(p, vary), Subject: e.subject.der(p, vary),
			NotBefore: utcTime("150101000000Z"), NotAfter: utcTime("450101000000Z"), SPKI: e.key.SPKI, SignKey: keyByName["ec256-a"], Hash: crypto.SHA256}).DER()
	}
	ref := (&CertSpec{Serial: intContent(big.NewInt(serial)), Issuer: me.issuer.der(p, vary), Subject: me.subject.der(p, vary),
		NotBefore: utcTime("150101000000Z"), NotAfter: utcTime("450101000000Z"), SPKI: k.SPKI, SignKey: keyByName["ec256-a"], Hash: crypto.SHA256}).DER()
	var certs, chain [][]byte
	how := ""
	for _, i := range t.perm(len(list)) {
		certs = append(certs, der[list[i]])
		how += fmt.Sprintf("; %s: subject %q issuer %q serial %d", list[i].note, list[i].subject, list[i].issuer, list[i].serial)
	}
	for _, e := range want {
		chain = append(chain, der[e])
	}
	s := &JarSigner{Base: "CERT", Ext: extFor(k), Key: k, Alg: pick(t, "alg", v1AlgsFor(k)), Chain: chain, Digests: []string{"SHA1"}, Whole: true, Layout: mfLayout{EOL: "\r\n"}}
	s.P7 = func(q *P7) { q.Certs, q.Signers[0].Cert = certs, ref }
	j := &JarAPK{Zip: t.genZip(zipOpts{maxEntries: 1, plainNames: true, maxSize: 50}), MFDigests: []string{"SHA1"}, MFLayout: mfLayout{EOL: "\r\n"}, Signers: []*JarSigner{s}}
	min, max := t.genV1Range()
	t.usableFor(j, min, max)
	j.Make()
	apk := j.Bytes()
	t.Note("chain of %d, %d certificates%s, <%d;%d>", len(chain), len(certs), how, min, max)
	t.Sample("chain of %d, %d certificates%s", len(chain), len(certs), how)
	t.Class("chain of %d, %d others, varied %v", len(chain), len(list)-len(want), vary)
	if len(list) > 1 || vary {
		t.NonTrivial(apk, min, max)
	}
	v := t.mustAccept("v1 APK", apk, min, max, 1, nil)
	if !chainsEqual(v.Certs, [][][]byte{chain}) {
		t.Violate("certificates %s reported, want %s", chainStr(v.Certs), chainStr([][][]byte{chain}))
	}
	x, err := apkverifier.ExtractCertsReader(bytes.NewReader(apk), nil)
	if err != nil || !chainsEqual(rawChains(x), [][][]byte{chain}) {
		t.Violate("extracted %s (%v), want %s", chainStr(rawChains(x)), err, chainStr([][][]byte{chain}))
	}
}

package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/avast/apkverifier/fullsailor/pkcs7"
)

// genBERMsg draws a SignedData message whose elements offer something to re-encode.
func (t *T) genBERMsg() (*P7, string) {
	p := t.genP7Foreign()
	if len(p.Content) > 5000 && t.Pct("small", 80) {
		p.Content = p.Content[:t.Uni("smalln", 300)]
	}
	if t.Pct("deep", 30) { // nested and oddly tagged elements in an unsigned or signed attribute
		v := doct(t.Bytes("dv", 0, 30))
		for i := t.Range("depth", 1, 60); i > 0; i-- {
			switch t.Uni("dk", 5) {
			case 0:
				v = tlv(0xa0+byte(t.Uni("dt", 31)), v)
			case 1:
				v = cat([]byte{0xbf, 0x80 | byte(1+t.Uni("h1", 127)), byte(t.Uni("h2", 128))}, derLen(len(v)), v)
			case 2:
				v = dseq(v, dint(int64(t.Uni("di", 1000))))
			case 3:
				v = dset(cat([]byte{0x9f, 0x81, 0x02}, []byte{1, 7}), v)
			default:
				v = dseq(v)
			}
		}
		s := p.Signers[t.Uni("ds", len(p.Signers))]
		if s.SignedAtt && t.Pct("dsigned", 50) {
			s.Attrs = append(s.Attrs, attrDER("1.3.6.1.4.1.99999.77", v))
		} else {
			s.Unauth = append(s.Unauth, attrDER("1.3.6.1.4.1.99999.77", v))
		}
	}
	bad := ""
	if t.Pct("bad", 30) {
		s := p.Signers[t.Uni("which", len(p.Signers))]
		if s.BadDigest = s.SignedAtt && t.Pct("badd", 50); !s.BadDigest {
			s.FlipBit = 1 + t.Uni("flip", 2000)
		}
		bad = " (one signer invalid)"
	}
	return p, bad
}

// berStyle draws a way of writing lengths.
func (t *T) berStyle(root *node) (func(*node, int) (bool, int), string) {
	seed := t.Seed("style.seed")
	p := &prng{seed}
	var all []*node
	root.walk(func(n *node) { all = append(all, n) })
	switch k := t.Uni("style", 7); k {
	case 0:
		return func(n *node, l int) (bool, int) { return true, 0 }, "indefinite everywhere"
	case 1:
		m := t.Range("long", 1, 4)
		return func(n *node, l int) (bool, int) { return false, m }, fmt.Sprintf("%d length octets everywhere", m)
	case 2: // one element
		var c []*node
		for _, n := range all {
			if n.constr {
				c = append(c, n)
			}
		}
		x := c[t.Uni("one", len(c))]
		return func(n *node, l int) (bool, int) { return n == x, 0 }, "one element indefinite"
	case 3:
		x := all[t.Uni("one", len(all))]
		m := t.Range("long", 1, 4)
		return func(n *node, l int) (bool, int) {
			if n == x {
				return false, m
			}
			return false, 0
		}, fmt.Sprintf("one element with %d length octets", m)
	case 4: // the way streaming producers write: the outer levels only
		depth := t.Range("outer", 1, 6)
		level := map[*node]int{}
		var rec func(n *node, d int)
		rec = func(n *node, d int) {
			level[n] = d
			for _, k := range n.kids {
				rec(k, d+1)
			}
		}
		rec(root, 0)
		return func(n *node, l int) (bool, int) { return level[n] < depth, 0 }, fmt.Sprintf("%d outer levels indefinite", depth)
	default:
		in, lg := t.Uni("pin", 101), t.Uni("plong", 101)
		return func(n *node, l int) (bool, int) {
			if n.constr && p.n(100) < in {
				return true, 0
			}
			if p.n(100) < lg {
				return false, 1 + p.n(4)
			}
			return false, 0
		}, fmt.Sprintf("random (%d%% indefinite, %d%% long)", in, lg)
	}
}

// p7Report is everything the package says about a message.
func p7Report(q *pkcs7.PKCS7, content []byte) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "type %v content %x\n", q.ContentType, q.Content)
	for _, c := range q.Certificates {
		fmt.Fprintf(&b, "cert %x\n", c.Raw)
	}
	for _, c := range q.CRLs {
		fmt.Fprintf(&b, "crl %x %x %v\n", []byte(c.TBSCertList.Raw), c.SignatureValue.Bytes, c.TBSCertList.RevokedCertificates)
	}
	infos := q.GetSignerInfos()
	fmt.Fprintf(&b, "signers %d %d\n", len(infos), len(q.Signers))
	for i := range infos {
		s := &infos[i]
		n := s.IssuerAndSerialNumber.SerialNumber
		if n == nil {
			n = new(big.Int)
		}
		fmt.Fprintf(&b, "signer %d %x %v %v %x %v %x %x\n", s.Version, s.IssuerAndSerialNumber.IssuerName.FullBytes, n, s.DigestAlgorithm.Algorithm, s.DigestAlgorithm.Parameters.FullBytes,
			s.DigestEncryptionAlgorithm.Algorithm, s.DigestEncryptionAlgorithm.Parameters.FullBytes, s.EncryptedDigest)
		for _, a := range s.AuthenticatedAttributes {
			fmt.Fprintf(&b, " signed %v %x\n", a.Type, a.Value.FullBytes)
		}
		for _, a := range s.UnauthenticatedAttributes {
			fmt.Fprintf(&b, " unsigned %v %x\n", a.Type, a.Value.FullBytes)
		}
		m, err := s.MarshalAuthenticatedAttributes()
		fmt.Fprintf(&b, " set %x %v\n", m, err)
	}
	if c := q.GetOnlySigner(); c != nil {
		fmt.Fprintf(&b, "only signer %x\n", c.Raw)
	}
	if content != nil {
		q.Content = content
	}
	fmt.Fprintf(&b, "verifies: %v\n", q.Verify() == nil)
	return b.String()
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		if len(s) > i+120 {
			s = s[:i+120]
		}
		return s[from:]
	}
	return fmt.Sprintf("%q instead of %q", cut(b), cut(a))
}

func c26Same(t *T) {
	p, bad := t.genBERMsg()
	der := p.DER()
	root := mustNode(der)
	style, what := t.berStyle(root)
	ber := root.encode(style)
	if t.Pct("trailing", 30) {
		tr := t.Bytes("tr", 1, 20)
		if t.Pct("zeros", 40) {
			tr = make([]byte, len(tr))
		}
		ber = cat(ber, tr)
		what += ", trailing bytes"
		t.Class("trailing bytes")
	}
	if bytes.Equal(ber, der) {
		return
	}
	d := fmt.Sprintf("%s%s, %s", p7Str(p), bad, what)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(ber)
	var content []byte
	if !p.Attached {
		content = append([]byte{}, p.Content...)
	}
	q0 := t.parseP7("DER", der)
	r0 := p7Report(q0, content)
	q1 := t.parseP7("BER ("+what+")", ber)
	t.checkForeign(p, q1)
	if len(what) > 10 {
		what = what[:10]
	}
	t.Class("%s, valid %v", what, bad == "")
	if r1 := p7Report(q1, content); r0 != r1 {
		t.Violate("the BER form is reported differently: %s", firstDiff(r0, r1))
	}
	if ok := q1.Verify() == nil; ok != (bad == "") {
		t.Violate("verifies: %v, made %s", ok, bad)
	}
}

// encodeWith writes the tree with the bytes raw in place of target.
func (n *node) encodeWith(style func(*node, int) (bool, int), target *node, raw []byte) []byte {
	if n == target {
		return raw
	}
	if !n.constr {
		return n.encode(style)
	}
	c := &node{id: n.id, constr: true}
	for _, k := range n.kids {
		sub := k.encodeWith(style, target, raw)
		c.kids = append(c.kids, &node{id: nil, content: sub})
	}
	// children are ready-made: write the header around them
	var body []byte
	for _, k := range c.kids {
		body = append(body, k.content...)
	}
	indef, long := false, 0
	if style != nil {
		indef, long = style(n, len(body))
	}
	if indef {
		return cat(n.id, []byte{0x80}, body, []byte{0, 0})
	}
	x := &node{id: n.id, content: body}
	return x.encode(func(*node, int) (bool, int) { return false, long })
}

func c26Malformed(t *T) {
	p, _ := t.genBERMsg()
	if len(p.Content) > 2000 {
		p.Content = p.Content[:2000]
	}
	der := p.DER()
	root := mustNode(der)
	style, what := t.berStyle(root)
	if t.Pct("der", 35) {
		style, what = nil, "DER"
	}
	// what a style draws at random has to stay the same
	if style != nil {
		memo := map[*node][2]int{}
		s0 := style
		style = func(n *node, l int) (bool, int) {
			v, ok := memo[n]
			if !ok {
				b, k := s0(n, l)
				v[1] = k
				if b {
					v[0] = 1
				}
				memo[n] = v
			}
			return v[0] == 1, v[1]
		}
	}
	ctl := root.encode(style)
	t.parseP7("well-formed message", ctl)
	var all, constr, prim []*node
	root.walk(func(n *node) {
		all = append(all, n)
		if n.constr {
			constr = append(constr, n)
		} else {
			prim = append(prim, n)
		}
	})
	reject := func(how string, b []byte) {
		var err error
		t.Guard("pkcs7.Parse", b, func() { _, err = pkcs7.Parse(b) })
		if err == nil {
			t.Attach("message", b)
			t.Violate("malformed message accepted: %s (%s)", how, what)
		}
		t.Evals(1)
		t.NonTrivial(b)
	}
	t.Note("%s, %s", p7Str(p), what)
	for i := 0; i < 40; i++ {
		n := t.Uni("cut", len(ctl))
		if i < 12 {
			n = len(ctl) - 1 - i
		} else if i < 18 {
			n = i - 12
		}
		if n < 0 || n >= len(ctl) {
			continue
		}
		reject(fmt.Sprintf("cut to %d of %d bytes", n, len(ctl)), ctl[:n])
		t.Class("truncated")
	}
	body := func(n *node) []byte {
		if !n.constr {
			return n.content
		}
		var c []byte
		for _, k := range n.kids {
			c = append(c, k.encode(style)...)
		}
		return c
	}
	for i := 0; i < 12; i++ {
		n := pick(t, "node", all)
		b := body(n)
		k := t.Uni("how", 7)
		var how string
		var msg []byte
		switch k {
		case 0: // 5 and more length octets
			o := pick(t, "octets", []int{5, 6, 7, 8, 9, 16, 126})
			l := make([]byte, o)
			for j, v := o-1, len(b); v > 0; j-- {
				l[j] = byte(v)
				v >>= 8
			}
			how = fmt.Sprintf("%d length octets", o)
			msg = root.encodeWith(style, n, cat(n.id, []byte{0x80 | byte(o)}, l, b))
		case 1: // a length of 2^31 and more
			l := u32(uint32(t.bits(31, "huge")) | 1<<31)
			how = "length over 2^31"
			msg = root.encodeWith(style, n, cat(n.id, []byte{0x84}, []byte{l[3], l[2], l[1], l[0]}, b))
		case 2: // beyond the end of the message
			v := len(ctl) + 10 + int(t.bits(22, "far"))
			how = "length beyond the end"
			msg = root.encodeWith(style, n, cat(n.id, []byte{0x84, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}, b))
		case 3: // indefinite length of a primitive element
			x := pick(t, "prim", prim)
			how = "primitive element with indefinite length"
			msg = root.encodeWith(style, x, cat(x.id, []byte{0x80}, x.content, []byte{0, 0}))
		case 4, 5: // the last child claims bytes beyond its parent
			var c []*node
			for _, x := range constr {
				if x != root && len(x.kids) > 0 {
					c = append(c, x)
				}
			}
			par := pick(t, "parent", c)
			last := par.kids[len(par.kids)-1]
			over := t.Range("over", 1, 3)
			lb := body(last)
			hdr := cat(last.id, derLen(len(lb)+over))
			if t.Pct("overlong", 30) {
				v := len(lb) + over
				hdr = cat(last.id, []byte{0x83, byte(v >> 16), byte(v >> 8), byte(v)})
			}
			var pc []byte
			for _, k := range par.kids[:len(par.kids)-1] {
				pc = append(pc, k.encode(style)...)
			}
			pc = append(pc, cat(hdr, lb)...)
			how = fmt.Sprintf("child overruns its parent by %d", over)
			msg = cat(root.encodeWith(style, par, cat(par.id, derLen(len(pc)), pc)), make([]byte, 4))
		default: // end-of-contents octets missing
			x := pick(t, "constr", constr)
			how = "no end of contents"
			msg = root.encodeWith(style, x, cat(x.id, []byte{0x80}, body(x)))
		}
		t.Class("%s", how)
		t.Sample("%s, %s", how, what)
		reject(how, msg)
	}
	// the same way of building it without damage is fine
	x := pick(t, "ctl", all)
	if b := root.encodeWith(style, x, x.encode(style)); !bytes.Equal(b, ctl) {
		panic("harness: encodeWith")
	}
}

// c26APK: v1 signature blocks in BER.
func c26APK(t *T) {
	j, min, max := t.genSignedJar(zipOpts{maxEntries: 2, maxSize: 60}, 2)
	var d string
	for _, s := range j.Signers {
		s.BER = func(b []byte) []byte {
			root := mustNode(b)
			style, what := t.berStyle(root)
			d += what + "; "
			b = root.encode(style)
			if t.Pct("trailing", 30) {
				b = cat(b, t.Bytes("tr", 1, 30))
				d += "trailing bytes; "
			}
			return b
		}
		s.MakeBlock()
		s.BER = nil
	}
	apk := j.Bytes()
	t.Note("%s %s <%d;%d>", d, jarStr(j), min, max)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	v := t.mustAccept("v1 APK with BER signature blocks", apk, min, max, 1, nil)
	if !sameChains(v.Certs, j.chains()) {
		t.Violate("certificates %s reported, want %s", chainStr(v.Certs), chainStr(j.chains()))
	}
	t.Class("APK")
}

func init() {
	register("C26", "a SignedData message re-encoded in BER (indefinite lengths, long length octets, trailing bytes) and compared with its DER form, a well-formed message with one malformed or cut encoding, or a v1 APK with BER blocks; distinct by bytes",
		Sub{"same", 8000, 120000, c26Same},
		Sub{"malformed", 3000, 40000, c26Malformed},
		Sub{"apk", 1500, 20000, c26APK})
}

package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/avast/apkverifier/signingblock"
)

// sameLineage compares a reported lineage with the one that was signed.
func sameLineage(got *signingblock.V3SigningLineage, want *Lineage) string {
	if got == nil || want == nil {
		if (got == nil) != (want == nil) {
			return fmt.Sprintf("reported lineage present=%v, want present=%v", got != nil, want != nil)
		}
		return ""
	}
	if len(got.Nodes) != len(want.Nodes) {
		return fmt.Sprintf("%d nodes reported, want %d", len(got.Nodes), len(want.Nodes))
	}
	if got.MinSdkVersion != 28 { // no supported algorithm needs a later platform than lineages themselves
		return fmt.Sprintf("minimum SDK level %d, want 28", got.MinSdkVersion)
	}
	for i, w := range want.Nodes {
		g := got.Nodes[i]
		switch {
		case !bytes.Equal(g.SigningCert.Raw, w.Cert):
			return fmt.Sprintf("node %d: other certificate", i)
		case uint32(g.ParentSigAlgorithm) != le32(w.Signed[len(w.Signed)-4:]):
			return fmt.Sprintf("node %d: parent algorithm %#x", i, int32(g.ParentSigAlgorithm))
		case uint32(g.SigAlgorithm) != w.Alg:
			return fmt.Sprintf("node %d: algorithm %#x, want %#x", i, int32(g.SigAlgorithm), w.Alg)
		case !bytes.Equal(g.Signature, w.Sig):
			return fmt.Sprintf("node %d: other signature", i)
		case uint32(g.Flags) != w.Flags:
			return fmt.Sprintf("node %d: flags %#x, want %#x", i, uint32(g.Flags), w.Flags)
		}
	}
	return ""
}

// lineageEquality checks the comparison of lineages on a reported one: equal to a copy of itself, and to
// nothing shorter, longer or with another field in a node.
func (t *T) lineageEquality(got *signingblock.V3SigningLineage) {
	if got == nil {
		return
	}
	var dup signingblock.V3LineageSigningCertificateNodeList
	for _, n := range got.Nodes {
		c := *n
		c.Signature = append([]byte(nil), n.Signature...)
		dup = append(dup, &c)
	}
	if !got.Nodes.Equal(dup) || !dup.Equal(got.Nodes) {
		t.Violate("a reported lineage of %d nodes differs from its copy", len(dup))
	}
	k := t.Uni("eq.cut", len(dup))
	if got.Nodes.Equal(dup[:k]) || dup[:k].Equal(got.Nodes) {
		t.Violate("a lineage of %d nodes equals its first %d", len(dup), k)
	}
	i := t.Uni("eq.node", len(dup))
	what := ""
	switch n := dup[i]; t.Uni("eq.field", 5) {
	case 0:
		what = "flags"
		n.Flags ^= 1 << t.Uni("eq.bit", 31)
	case 1:
		what = "algorithm"
		n.SigAlgorithm ^= 1 << t.Uni("eq.bit", 12)
	case 2:
		what = "parent algorithm"
		n.ParentSigAlgorithm ^= 1 << t.Uni("eq.bit", 12)
	case 3:
		what = "signature"
		n.Signature = append(n.Signature, 0)
	case 4:
		what = "certificate"
		if len(dup) == 1 {
			return
		}
		n.SigningCert = dup[(i+1)%len(dup)].SigningCert
	}
	t.Evals(1)
	if got.Nodes.Equal(dup) || dup.Equal(got.Nodes) {
		t.Violate("a lineage of %d nodes equals one with another %s in node %d", len(dup), what, i)
	}
}

// lineSpec is a v3 signer under test: range and lineage.
type lineSpec struct {
	min, max int32
	lin      *Lineage
}

// v3Rule tells whether signers with these ranges serve the request. lo/hi: what has to be covered.
func v3Rule(specs []lineSpec, lo, hi int32) (bool, string) {
	s := append([]lineSpec(nil), specs...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].min < s[j].min })
	for i := range s {
		if s[i].min > s[i].max || s[i].min < 1 {
			return false, "empty range"
		}
		if i > 0 && s[i].min <= s[i-1].max {
			return false, "overlap"
		}
		if i > 0 && s[i].min > s[i-1].max+1 {
			return false, "gap"
		}
	}
	if s[0].min > lo {
		return false, "start not covered"
	}
	if s[len(s)-1].max < hi {
		return false, "end not covered"
	}
	return true, "covered"
}

// genRanges draws 1..4 ranges that are mostly, but not always, a partition.
func (t *T) genRanges(lo int32) []lineSpec {
	n := t.Range("rn", 1, 4)
	var r []lineSpec
	cur := lo
	if t.Pct("start", 20) {
		cur += int32(t.Range("startd", -2, 2))
	}
	for i := 0; i < n; i++ {
		s := lineSpec{min: cur, max: cur + int32(t.Range("len", 0, 4))}
		if i == n-1 {
			switch t.Uni("last", 4) {
			case 0, 1:
				s.max = anyMax
			case 2:
				s.max = 40
			}
		}
		r = append(r, s)
		if i < n-1 {
			cur = s.max + 1
		}
	}
	if t.Pct("off", 45) {
		i := t.Uni("oi", n)
		d := int32(pick(t, "od", []int{-3, -2, -1, 1, 2, 3}))
		if t.Pct("side", 50) {
			r[i].min += d
		} else if r[i].max < 1000 {
			r[i].max += d
		}
	}
	q := make([]lineSpec, n)
	for i, k := range t.perm(n) {
		q[i] = r[k]
	}
	return q
}

func c09Ranges(t *T) {
	b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 1, maxSize: 60})}
	k := keyByName[pick(t, "k", []string{"ec256-a", "rsa1024-a", "ec256-b"})]
	mk := func(l []lineSpec) []*SignerSpec {
		var r []*SignerSpec
		for _, s := range l {
			r = append(r, &SignerSpec{Key: k, Algs: t.genAlgs(k, false)[:1], Chain: [][]byte{selfCert(k, 0)}, V3: true, Min: s.min, Max: s.max})
		}
		return r
	}
	var r3, r31 []lineSpec
	rot := int32(0)
	if t.Pct("v31", 40) {
		r31 = t.genRanges(int32(t.Range("rot", 33, 36)))
		rot = r31[0].min
		for _, s := range r31 {
			if s.min < rot {
				rot = s.min
			}
		}
		if rot < 29 {
			return
		}
		b.V31 = mk(r31)
		r3 = t.genRanges(28)
		if t.Pct("v3full", 60) {
			r3 = []lineSpec{{28, anyMax, nil}}
		}
	} else {
		r3 = t.genRanges(28)
	}
	b.V3 = mk(r3)
	b.Make()
	apk := b.Bytes()
	str := func(l []lineSpec) string {
		s := ""
		for _, x := range l {
			s += fmt.Sprintf("<%d;%d>", x.min, x.max)
		}
		return s
	}
	edges := []int32{28, 33, anyMax}
	for _, s := range append(append([]lineSpec{}, r3...), r31...) {
		edges = append(edges, s.min-1, s.min, s.min+1, s.max)
		if s.max < anyMax {
			edges = append(edges, s.max+1, s.max-1)
		}
	}
	for i := 0; i < 5; i++ {
		min, max := pick(t, "min", edges), pick(t, "max", edges)
		if min < 28 {
			min = 28
		}
		if min > max {
			continue
		}
		var ok bool
		var why string
		if r31 != nil && max >= 33 {
			ok, why = v3Rule(r31, max, max)
			if ok {
				ok, why = v3Rule(r3, min, rot-1)
				why = "v3: " + why
			} else {
				why = "v3.1: " + why
			}
		} else {
			ok, why = v3Rule(r3, min, max)
		}
		if r31 != nil && max >= 33 && max < rot {
			continue // between the platforms that know v3.1 and the ones it serves: the rule is not settled
		}
		d := fmt.Sprintf("v3 signers %s, v3.1 signers %s, requested <%d;%d>: %s", str(r3), str(r31), min, max, why)
		t.Note("%s", d)
		t.Sample("%s", d)
		t.Class("%s", why)
		t.Evals(1)
		t.NonTrivial(apk, min, max)
		if ok {
			want := 3
			if r31 != nil && max >= 33 {
				want = 31
			}
			t.mustAccept(d, apk, min, max, want, nil)
		} else {
			t.mustReject(d, apk, min, max)
		}
	}
}

// breakLineageStructure damages the structure of a lineage; what is signed is signed again.
func (t *T) breakLineageStructure(c *Lineage) ([]byte, string) {
	i := t.Uni("lnode", len(c.Nodes))
	x := c.Nodes[i]
	raw := func(n *LineageNode) []lpField {
		return []lpField{{b: n.Signed}, {u32(n.Flags), true}, {u32(n.Alg), true}, {b: n.Sig}}
	}
	var l lpList
	for _, n := range c.Nodes {
		l = append(l, fieldsBytes(raw(n)))
	}
	what := ""
	switch t.Uni("lstruct", 3) {
	case 0:
		l[i], what = t.breakFields(raw(x))
		what = fmt.Sprintf("node %d: %s", i, what)
	case 1:
		x.Signed, what = t.breakFields([]lpField{{b: x.Cert}, {u32(x.ParentAlg), true}})
		what = fmt.Sprintf("signed data of node %d: %s", i, what)
		if i > 0 {
			p := c.Nodes[i-1]
			x.Sig = p.Key.SignAlg(algByID(p.Alg), x.Signed)
		}
		l[i] = fieldsBytes(raw(x))
	default:
		b, w := t.breakList(l, 4)
		return cat(u32(c.Version), b), "nodes: " + w
	}
	return cat(u32(c.Version), l.encode()), what
}

// breakLineage alters a valid lineage whose last certificate is the signer's.
func (t *T) breakLineage(l *Lineage) (*Lineage, string, func([]byte) []byte) {
	c := l.clone()
	n := len(c.Nodes)
	i := 1
	if n > 1 {
		i = 1 + t.Uni("node", n-1)
	}
	flip := func(b []byte) []byte {
		x := append([]byte(nil), b...)
		x[t.Uni("at", len(x))] ^= byte(1 << t.Uni("bit", 8))
		return x
	}
	other := func(not ...*Key) *Key {
	again:
		for {
			k := t.genKey("ok")
			for _, x := range not {
				if x == k {
					continue again
				}
			}
			return k
		}
	}
	switch t.Uni("lb", 22) {
	case 21:
		x := c.Nodes[t.Uni("unread", n)]
		switch d := x.Cert; t.Uni("unreadable", 4) {
		case 0:
			x.Cert = nil
		case 1:
			x.Cert = d[:t.Range("ucut", 1, len(d)-1)]
		case 2:
			x.Cert = cat([]byte{d[0] ^ 1}, d[1:])
		default:
			x.Cert = bulk(t.Seed("ucert"), len(d))
			x.Cert[0] = 0x41
		}
		c.Sign(0)
		return c, "certificate that cannot be read, re-signed", nil
	case 18, 19, 20:
		enc, what := t.breakLineageStructure(c)
		return c, what, func([]byte) []byte { return enc }
	case 16, 17: // a certificate again, anywhere further down the chain
		if n > 1 {
			from := t.Uni("dupfrom", n)
			x := *c.Nodes[from]
			if x.Alg == 0 {
				al := x.Key.algs()
				x.Alg = al[t.Uni("xa", len(al))].ID
			}
			to := t.Uni("dupto", n) // before the signer's node
			c.Nodes = append(c.Nodes[:to:to], append([]*LineageNode{&x}, c.Nodes[to:]...)...)
			c.Sign(0)
			return c, "certificate repeated somewhere, re-signed", nil
		}
	case 0:
		if n > 1 {
			if a := algByID(c.Nodes[i-1].Alg); a != nil && t.Pct("oddsig", 60) {
				var what string
				c.Nodes[i].Sig, what = t.oddSignature(c.Nodes[i-1].Key, a.Hash, a.PSS, c.Nodes[i].Signed)
				return c, "signature malformed: " + what, nil
			}
			c.Nodes[i].Sig = flip(c.Nodes[i].Sig)
			return c, "signature bit flipped", nil
		}
	case 1:
		if n > 1 {
			k := other(c.Nodes[i-1].Key)
			a := k.algs()[0]
			c.Nodes[i].Sig = k.SignAlg(a, c.Nodes[i].Signed)
			return c, "node signed by another key", nil
		}
	case 2:
		if n > 1 {
			p := c.Nodes[i-1]
			for _, a := range p.Key.algs() {
				if o := algByID(p.Alg); a.Hash != o.Hash || a.PSS != o.PSS {
					c.Nodes[i].Sig = p.Key.SignAlg(a, c.Nodes[i].Signed)
					return c, "node signed with another algorithm than declared", nil
				}
			}
		}
	case 3:
		if n > 1 {
			p := c.Nodes[i-1]
			x := c.Nodes[i]
			for x.ParentAlg == p.Alg {
				x.ParentAlg = uint32(pick(t, "pa", []int{0, 0x101, 0x103, 0x201, 0x202, 0x301, 0x421}))
			}
			x.Signed = x.encodeSigned()
			x.Sig = p.Key.SignAlg(algByID(p.Alg), x.Signed)
			return c, "parent algorithm differs from the predecessor's, re-signed", nil
		}
	case 4: // the declared algorithm changes under the child
		if n > 1 {
			p := c.Nodes[i-1]
			old := p.Alg
			for p.Alg == old {
				p.Alg = uint32(pick(t, "pa", []int{0, 0x101, 0x103, 0x201, 0x202, 0x301, 0x421, 0x9999}))
			}
			return c, "declared algorithm of a node changed", nil
		}
	case 5: // a certificate twice
		if n > 1 {
			x := *c.Nodes[i-1]
			x.Key = c.Nodes[i-1].Key
			if c.Nodes[i-1].Alg == 0 {
				return nil, "", nil
			}
			c.Nodes = append(c.Nodes[:i:i], append([]*LineageNode{&x}, c.Nodes[i:]...)...)
			c.Sign(i)
			return c, "certificate repeated, re-signed", nil
		}
	case 6: // the signer's own certificate also earlier
		last := c.Nodes[n-1]
		x := *last
		al := x.Key.algs()
		x.Alg = al[t.Uni("xa", len(al))].ID
		c.Nodes = append([]*LineageNode{&x}, c.Nodes...)
		c.Sign(1)
		return c, "the signer's certificate at both ends, re-signed", nil
	case 7: // goes on after the signer
		last := c.Nodes[n-1]
		if last.Alg == 0 {
			al := last.Key.algs()
			last.Alg = al[t.Uni("xa", len(al))].ID
		}
		k := other(last.Key)
		c.Nodes = append(c.Nodes, &LineageNode{Cert: selfCert(k, 51), Key: k, Flags: 3})
		c.Sign(n)
		return c, "a node after the signer's certificate", nil
	case 8: // ends before the signer
		if n > 1 {
			c.Nodes = c.Nodes[:n-1]
			return c, "the signer's node missing", nil
		}
	case 9: // another certificate of the signer's key
		last := c.Nodes[n-1]
		last.Cert = selfCert(last.Key, 52)
		c.Sign(n - 1)
		return c, "another certificate of the signer's key, re-signed", nil
	case 10:
		c.Version = pick(t, "ver", []uint32{0, 2, 0xffffffff, 0x100})
		return c, "lineage version", nil
	case 11:
		cut := t.Range("cut", 1, 12)
		return c, "lineage truncated", func(b []byte) []byte { return b[:len(b)-cut] }
	case 12:
		if n > 1 {
			x := c.Nodes[i]
			x.Signed = flip(x.Signed)
			return c, "signed data of a node changed", nil
		}
	case 13:
		// (the last node's signature has to stop matching)
		if n > 2 && (c.Nodes[n-2].Key != c.Nodes[n-3].Key || c.Nodes[n-2].Alg != c.Nodes[n-3].Alg) {
			c.Nodes[n-2], c.Nodes[n-3] = c.Nodes[n-3], c.Nodes[n-2]
			return c, "nodes swapped", nil
		}
	case 14:
		if n > 2 && (c.Nodes[0].Key != c.Nodes[1].Key || c.Nodes[0].Alg != c.Nodes[1].Alg) {
			c.Nodes = append(c.Nodes[:1:1], c.Nodes[2:]...)
			return c, "node removed", nil
		}
	case 15:
		junk := t.Bytes("junk", 1, 3)
		return c, "trailing bytes after the nodes", func(b []byte) []byte { return append(b, junk...) }
	}
	return nil, "", nil
}

func c09Lineage(t *T) {
	b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 1, maxSize: 60})}
	k := t.genKey("k")
	chain := t.genChain(k)
	l := t.genLineage(t.lineageLen("n", 5), k, chain[0])
	s := &SignerSpec{Key: k, Algs: t.genAlgs(k, false), Chain: chain, V3: true, Min: 28, Max: anyMax}
	in31 := t.Pct("in31", 35)
	bad, what := l, ""
	var edit func([]byte) []byte
	if t.Pct("bad", 70) {
		bad, what, edit = t.breakLineage(l)
		if bad == nil {
			return
		}
	} else { // freedoms
		bad = l.clone()
		if t.Pct("fl", 50) {
			for _, n := range bad.Nodes {
				n.Flags = uint32(t.bits(32, "flag"))
			}
		}
		if t.Pct("lastalg", 30) {
			bad.Nodes[len(bad.Nodes)-1].Alg = uint32(pick(t, "la", []int{0, 0x421, 0x9999, 0x101}))
		}
	}
	enc := bad.Encode()
	if edit != nil {
		enc = edit(enc)
	}
	if t.Pct("first", 30) {
		s.Attrs = append(s.Attrs, Attr{0x1234, t.Bytes("ua", 0, 8)})
	}
	s.Attrs = append(s.Attrs, Attr{attrPoR, enc})
	if t.Pct("more", 30) {
		s.Attrs = append(s.Attrs, Attr{0x5678, t.Bytes("ub", 0, 8)})
	}
	min, max := int32(t.Range("min", 28, 40)), int32(anyMax)
	if t.Pct("maxlow", 30) {
		max = min + int32(t.Range("dm", 0, 5))
	}
	scheme := 3
	if in31 {
		scheme = 31
		s.Min = 33
		if max < 33 {
			max = 33
		}
		b.V31 = []*SignerSpec{s}
		b.V3 = t.genV3Signers(28, anyMax, false)
	} else {
		b.V3 = []*SignerSpec{s}
	}
	b.Make()
	apk := b.Bytes()
	d := fmt.Sprintf("scheme %d, lineage of %d nodes, %s, <%d;%d>", scheme, len(l.Nodes), what, min, max)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	t.Class("%d: %s", scheme, what)
	if what != "" {
		t.mustReject(d, apk, min, max)
		return
	}
	v := t.mustAccept(d, apk, min, max, scheme, [][][]byte{chain})
	if e := sameLineage(v.Res.SigningBlockResult.SigningLineage, bad); e != "" {
		t.Violate("%s: %s", d, e)
	}
}

// c09Multi: several signers whose lineages have to extend one another.
func c09Multi(t *T) {
	b := &BlockAPK{Zip: t.genZip(zipOpts{maxEntries: 1, maxSize: 60})}
	n := t.Range("n", 2, 4)
	ln := t.Range("ln", n, n+2)
	k := t.genKey("k")
	full := t.genLineage(ln, k, selfCert(k, 0))
	// sizes grow (or stay) with the SDK level; a signer may have none
	sizes := make([]int, n)
	for i := range sizes {
		sizes[i] = t.Range("size", 1, ln)
	}
	sort.Ints(sizes)
	bad := ""
	kind := t.Uni("kind", 7)
	lins := make([]*Lineage, n)
	for i, sz := range sizes {
		lins[i] = full.Prefix(sz).clone()
		if t.Pct("none", 12) {
			lins[i] = nil
		}
	}
	pair := func() (int, int) { // two signers with lineages
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if lins[i] != nil && lins[j] != nil {
					return i, j
				}
			}
		}
		return -1, -1
	}
	i, j := pair()
	switch {
	case kind < 3 || i < 0:
	case kind == 3: // shrinking
		if len(lins[i].Nodes) != len(lins[j].Nodes) {
			lins[i], lins[j] = lins[j], lins[i]
			bad = "shrinking lineages"
		}
	case kind == 4: // a branch
		m := pick(t, "br", []int{i, j})
		x := lins[m]
		o := t.genKey("okey")
		c := selfCert(o, 53)
		at := t.Uni("brat", len(x.Nodes))
		x.Nodes[at] = &LineageNode{Cert: c, Key: o, Alg: o.algs()[0].ID, Flags: x.Nodes[at].Flags}
		x.Sign(at)
		other := lins[i+j-m]
		if at < len(other.Nodes) {
			bad = "lineages that branch"
		} else if m == i {
			bad = "" // cannot be: i is the shorter one
			return
		}
		if n > 2 && bad == "" {
			return // a third signer may share the node
		}
	case kind == 5: // capabilities differ
		m := pick(t, "fl", []int{i, j})
		if len(lins[i].Nodes) > 0 {
			lins[m].Nodes[t.Uni("fn", len(lins[i].Nodes))].Flags ^= 1 << t.Uni("fbit", 31)
			bad = "capabilities differ"
		}
	default: // the root's (unchecked) signature differs
		m := pick(t, "rs", []int{i, j})
		lins[m].Nodes[0].Sig = bulk(uint64(m)+7, 16)
		bad = "root signatures differ"
	}
	var specs []*SignerSpec
	cur := int32(28)
	var longest *Lineage
	desc := ""
	for x := 0; x < n; x++ {
		key, cert := k, selfCert(k, 0)
		if lins[x] == nil {
			key = t.genKey("nk")
			cert = selfCert(key, 3)
			desc += " -"
		} else {
			last := lins[x].Nodes[len(lins[x].Nodes)-1]
			key, cert = last.Key, last.Cert
			desc += fmt.Sprintf(" %d", len(lins[x].Nodes))
		}
		s := &SignerSpec{Key: key, Algs: t.genAlgs(key, false)[:1], Chain: [][]byte{cert}, V3: true, Min: cur, Max: cur + int32(t.Uni("len", 3))}
		if x == n-1 {
			s.Max = anyMax
		}
		cur = s.Max + 1
		if lins[x] != nil {
			s.Attrs = []Attr{{attrPoR, lins[x].Encode()}}
			if longest == nil || len(lins[x].Nodes) > len(longest.Nodes) {
				longest = lins[x]
			}
		}
		specs = append(specs, s)
	}
	q := make([]*SignerSpec, n)
	for a, c := range t.perm(n) {
		q[a] = specs[c]
	}
	b.V3 = q
	b.Make()
	apk := b.Bytes()
	min := int32(t.Range("min", 28, 34))
	d := fmt.Sprintf("lineages in SDK order%s: %s, <%d;max>", desc, bad, min)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min)
	t.Class("multi: %s", bad)
	if bad != "" {
		t.mustReject(d, apk, min, anyMax)
		return
	}
	v := t.mustAccept(d, apk, min, anyMax, 3, chainsOf(q))
	t.lineageEquality(v.Res.SigningBlockResult.SigningLineage)
	if e := sameLineage(v.Res.SigningBlockResult.SigningLineage, longest); e != "" {
		t.Violate("%s: %s", d, e)
	}
}

func init() {
	register("C09", "a case is a v3 / v3.1 APK with drawn signer SDK ranges (sub ranges), one lineage left valid or altered in one way (sub lineage), or several signers with lineages that do or do not extend one another (sub multi); every case is decided by the model and therefore non-trivial, distinct by bytes and range",
		Sub{"ranges", 4000, 80000, c09Ranges},
		Sub{"lineage", 5000, 100000, c09Lineage},
		Sub{"every", 40, 1600, c09Every},
		Sub{"multi", 2500, 50000, c09Multi},
	)
}

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// relay writes the same attributes in another layout. Which liberties are taken is drawn, where they are taken is
// pseudo-random.
type relayer struct {
	eol            string // "\r\n", "\n", "\r" or "mix" (LF and CRLF)
	fold           int    // chance (percent) that a line is folded at random places; lines over limit always are
	limit          int    // longest line, 0 = no limit
	empty          int    // chance of an empty continuation line
	blank          int    // most extra blank lines after a section
	kase           bool   // vary the case of attribute names
	shuffle        bool
	extra          int // chance of an extra attribute
	p              *prng
	folds, attrs   int
	hasEmpty, long bool
}

func (t *T) genRelayer(label string) *relayer {
	r := &relayer{eol: pick(t, label+".eol", []string{"\r\n", "\n", "\r", "mix"}), p: &prng{t.Seed(label + ".seed")}}
	r.limit = pick(t, label+".limit", []int{70, 0, 72, 8, 30, 200, 500})
	if t.Pct(label+".fold", 60) {
		r.fold = pick(t, label+".foldp", []int{100, 20, 60})
	}
	if t.Pct(label+".empty", 25) {
		r.empty = 20
	}
	if t.Pct(label+".blank", 40) {
		r.blank = t.Range(label+".blanks", 1, 4)
	}
	r.kase = t.Pct(label+".case", 50)
	r.shuffle = t.Pct(label+".shuffle", 50)
	if t.Pct(label+".extra", 60) {
		r.extra = pick(t, label+".extrap", []int{30, 100})
	}
	return r
}

func (r *relayer) String() string {
	return fmt.Sprintf("{eol=%q limit=%d fold=%d empty=%d blank=%d case=%v shuffle=%v extra=%d}", r.eol, r.limit, r.fold, r.empty, r.blank, r.kase, r.shuffle, r.extra)
}

func (r *relayer) nl() string {
	if r.eol == "mix" {
		return []string{"\n", "\r\n"}[r.p.n(2)]
	}
	return r.eol
}

func (r *relayer) name(n string) string {
	if !r.kase {
		return n
	}
	b := []byte(n)
	how := r.p.n(3)
	for i := range b {
		if isAlpha(b[i]) && (how == 0 || how == 1 && r.p.n(2) == 0) {
			b[i] ^= 0x20
		} else if how == 2 {
			b[i] = strings.ToUpper(string(b[i : i+1]))[0]
		}
	}
	return string(b)
}

func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"

// attrName draws a valid header name of the given length (0: any) that means nothing.
func (r *relayer) attrName(n int, used map[string]bool) string {
	for {
		l := n
		if l == 0 {
			switch r.p.n(4) {
			case 0:
				l = 70
			case 1:
				l = 60 + r.p.n(11)
			default:
				l = 1 + r.p.n(20)
			}
		}
		b := make([]byte, l)
		for i := range b {
			if b[i] = nameChars[r.p.n(len(nameChars))]; i == 0 {
				b[i] = nameChars[r.p.n(62)]
			}
		}
		low := strings.ToLower(string(b))
		if used[low] || strings.Contains(low, "digest") || strings.HasPrefix(low, "x-android") || low == "name" || low == "created-by" || strings.HasSuffix(low, "-version") {
			continue
		}
		used[low] = true
		return string(b)
	}
}

// value draws the value of a meaningless attribute.
func (r *relayer) value() string {
	n := []int{0, 1, 5, 40, 64, 65, 66, 67, 68, 69, 70, 71, 130, 300, 3000}[r.p.n(15)]
	b := make([]byte, n)
	mode := r.p.n(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = " :x"[r.p.n(3)]
		case 1:
			b[i] = byte(0x20 + r.p.n(0x5f))
		default:
			b[i] = byte(r.p.next() >> 20)
		}
		if b[i] == 0 || b[i] == '\r' || b[i] == '\n' {
			b[i] = ' '
		}
	}
	return string(b)
}

func (r *relayer) line(b *bytes.Buffer, name, v string) {
	r.attrs++
	b.WriteString(name + ": ")
	room := r.limit - len(name) - 2
	folding := r.p.n(100) < r.fold
	for {
		n := len(v)
		if r.limit > 0 && n > room {
			if n = room; n < 0 {
				n = 0
			}
		}
		if folding && n > 0 {
			if k := r.p.n(n + 1); r.p.n(3) > 0 {
				n = k
			}
		}
		b.WriteString(v[:n])
		v = v[n:]
		if len(v) == 0 && !(r.p.n(100) < r.empty) {
			break
		}
		r.folds++
		b.WriteString(r.nl() + " ")
		for r.p.n(100) < r.empty { // an empty continuation line
			r.hasEmpty = true
			b.WriteString(r.nl() + " ")
		}
		if len(v) == 0 {
			r.hasEmpty = true
			break
		}
		if room = r.limit - 1; room < 1 {
			room = 1
		}
	}
	b.WriteString(r.nl())
}

// section writes one section; the first attribute stays first if named is set.
func (r *relayer) section(s mfSection, named, last bool) []byte {
	var b bytes.Buffer
	used := map[string]bool{}
	for _, a := range s {
		used[strings.ToLower(a.K)] = true
	}
	var head, list mfSection
	list = append(list, s...)
	if named {
		head, list = list[:1:1], list[1:]
	}
	for r.p.n(100) < r.extra {
		list = append(list, mfAttr{r.attrName(0, used), r.value()})
		if len(list) > 12 {
			break
		}
	}
	if r.shuffle {
		for i := len(list) - 1; i > 0; i-- {
			k := r.p.n(i + 1)
			list[i], list[k] = list[k], list[i]
		}
	}
	for _, a := range append(head, list...) {
		r.line(&b, r.name(a.K), a.V)
	}
	if !last {
		b.WriteString(r.nl())
		for i := r.p.n(r.blank + 1); i > 0; i-- {
			b.WriteString(r.nl())
		}
	} else if r.blank > 0 {
		for i := r.p.n(r.blank + 2); i > 0; i-- {
			b.WriteString(r.nl())
		}
	}
	return b.Bytes()
}

func (r *relayer) encode(d *mfDoc) ([]byte, [][]byte) {
	secs := [][]byte{r.section(d.Main, false, len(d.Entries) == 0 && d.NoFinal)}
	for i, e := range d.Entries {
		secs = append(secs, r.section(e, true, i == len(d.Entries)-1 && d.NoFinal))
	}
	return cat(secs...), secs
}

func c22Jar(t *T, signers int) (*JarAPK, int32, int32) {
	j := t.genJar(zipOpts{maxEntries: 5, maxComment: 20, maxSize: 300}, signers)
	if t.Pct("longname", 30) {
		n := t.Range("ln", 60, 700)
		p := &prng{t.Seed("lns")}
		b := make([]byte, n)
		for i := range b {
			b[i] = "abc : \xc3\xa9."[p.n(9)]
		}
		nm := "L" + strings.ToValidUTF8(string(b), "u") + "x"
		j.Zip.Entries = append(j.Zip.Entries, &ZEntry{Name: nm, Data: t.Bytes("lnd", 0, 20)})
	}
	min, max := t.genV1Range()
	t.usableFor(j, min, max)
	return j, min, max
}

// c22Case: another layout of MANIFEST.MF and the .SF files makes no difference, and still protects the files.
func c22Case(t *T) {
	j, min, max := c22Jar(t, 2)
	j.MakeMF()
	var d []string
	var rs []*relayer
	mfRelaid := t.Pct("mf", 75)
	if mfRelaid {
		r := t.genRelayer("mfr")
		j.MF, j.Secs = r.encode(j.Doc)
		rs = append(rs, r)
		d = append(d, "MF "+r.String())
	}
	downgrade := t.Pct("downgrade", 12)
	if downgrade {
		j.Signers[t.Uni("dgs", len(j.Signers))].ApkSigned = pick(t, "ids", []string{"2", "2, 3", "1, 2", " 2"})
	}
	for _, s := range j.Signers {
		j.MakeSF(s)
		if !mfRelaid || t.Pct("sf", 70) {
			r := t.genRelayer("sfr")
			s.SF, _ = r.encode(s.Doc)
			rs = append(rs, r)
			d = append(d, s.Base+" "+r.String())
		}
		s.MakeBlock()
	}
	apk := j.Bytes()
	for _, r := range rs {
		t.Class("line ends %q", r.eol)
		for _, c := range []struct {
			b bool
			n string
		}{{r.folds > 0, "folded"}, {r.hasEmpty, "empty continuation lines"}, {r.blank > 0, "extra blank lines"}, {r.kase, "attribute name case"},
			{r.shuffle, "attribute order"}, {r.extra > 0, "extra attributes"}, {r.limit == 0, "unlimited lines"}} {
			if c.b {
				t.Class("%s", c.n)
			}
		}
	}
	what := strings.Join(d, " ")
	t.Note("%s %s <%d;%d>", jarStr(j), what, min, max)
	t.Sample("%s", what)
	t.Attach("manifest", j.MF)
	t.Attach("sf", j.Signers[0].SF)
	t.NonTrivial(j.MF, j.Signers[0].SF, min, max)
	if downgrade && max >= 24 {
		t.Class("X-Android-APK-Signed in another layout")
		t.mustReject("APK that names scheme v2 in a re-laid .SF", apk, min, max)
		return
	}
	v := t.mustAccept("APK with re-laid manifests", apk, min, max, 1, nil)
	if !sameChains(v.Certs, j.chains()) {
		t.Violate("certificates %s reported, want %s", chainStr(v.Certs), chainStr(j.chains()))
	}
	if t.Pct("tamper", 40) {
		z := j.Zip.clone()
		c := *j
		c.Zip = z
		how := t.alterEntry(z)
		t.Class("content altered under a re-laid manifest")
		t.mustReject("re-laid APK with altered entry ("+how+")", c.Bytes(), min, max)
	}
}

// The documents of c22Bad are lists of raw lines per section.
type rawDoc [][]string

func (d *mfDoc) raw() rawDoc {
	var r rawDoc
	for _, s := range append([]mfSection{d.Main}, d.Entries...) {
		var l []string
		for _, a := range s {
			l = append(l, a.K+": "+a.V)
		}
		r = append(r, l)
	}
	return r
}

// encode writes the lines, folded to 70 bytes, in the layout l.
func (r rawDoc) encode(eol string, width int) ([]byte, [][]byte) {
	var secs [][]byte
	for _, s := range r {
		var b strings.Builder
		for _, line := range s {
			first := width
			if c := strings.Index(line, ": "); c >= 0 && c+2 > first {
				first = c + 2 // a name is never folded
			} else if c < 0 {
				first = len(line)
			}
			for len(line) > first {
				b.WriteString(line[:first] + eol + " ")
				line = line[first:]
				first = width - 1
			}
			b.WriteString(line + eol)
		}
		secs = append(secs, []byte(b.String()+eol))
	}
	return cat(secs...), secs
}

// c22Bad: one malformed header, section or duplicate makes a file unusable even if everything is signed as it is.
func c22Bad(t *T) {
	j, min, max := c22Jar(t, 2)
	for _, s := range j.Signers {
		// a parser that skips the damage would accept
		s.Whole, s.MainAttr, s.NoEntryDg = true, false, t.Pct("nodg", 30)
	}
	sort.Strings(j.MFDigests)
	j.MakeMF()
	if len(j.Doc.Entries) == 0 {
		panic("no entries")
	}
	eol := pick(t, "eol", []string{"\r\n", "\n", "\r"})
	width := pick(t, "width", []int{70, 30, 1000})
	inMF := t.Pct("inmf", 60)
	victim := j.Signers[t.Uni("victim", len(j.Signers))]
	p := &prng{t.Seed("seed")}
	r := &relayer{p: p}

	how := pick(t, "how", []string{"name character", "empty name", "name too long", "no space", "no separator", "Name not first", "no Name", "NUL in value", "NUL in name", "continued after blank", "duplicate"})
	if how == "duplicate" {
		inMF = true
	}
	control := "" // the same line without the damage
	damage := func(doc rawDoc, bad bool) rawDoc {
		var c rawDoc
		for _, s := range doc {
			c = append(c, append([]string(nil), s...))
		}
		return c
	}
	// where the line goes: section and position
	var at, pos int
	place := func(doc rawDoc) {
		at = t.Uni("section", len(doc))
		pos = t.Range("pos", 1, len(doc[at]))
		if at == 0 && t.Pct("veryfirst", 20) {
			pos = 0
		}
	}
	insert := func(doc rawDoc, line string) rawDoc {
		c := damage(doc, false)
		s := c[at]
		c[at] = append(append(append([]string(nil), s[:pos]...), line), s[pos:]...)
		return c
	}
	name, val := "", ""
	draw := func(n int) {
		name = r.attrName(n, map[string]bool{"manifest-version": true})
		val = r.value()
		if len(val) > 200 {
			val = val[:200]
		}
		val = strings.ReplaceAll(val, ":", ".")
		control = name + ": " + val
	}
	var build func(doc rawDoc, bad bool) rawDoc
	detail := ""
	switch how {
	case "name character":
		draw(0)
		ch := byte(1 + t.Uni("ch", 255))
		for strings.IndexByte(nameChars+":\r\n ", ch) >= 0 {
			ch++
		}
		if ch == 0 {
			ch = '/'
		}
		i := t.Uni("ci", len(name))
		if i > 0 && t.Pct("space", 20) {
			ch = ' '
		}
		bad := name[:i] + string([]byte{ch}) + name[i+1:]
		detail = fmt.Sprintf("%q", bad)
		build = func(doc rawDoc, b bool) rawDoc {
			if b {
				return insert(doc, bad+": "+val)
			}
			return insert(doc, control)
		}
	case "empty name":
		draw(0)
		build = func(doc rawDoc, b bool) rawDoc {
			if b {
				return insert(doc, ": "+val)
			}
			return insert(doc, control)
		}
	case "name too long":
		draw(70)
		over := name + strings.Repeat("x", pick(t, "over", []int{1, 2, 5, 58, 200, 65536}))
		detail = fmt.Sprint(len(over))
		build = func(doc rawDoc, b bool) rawDoc {
			if b {
				return insert(doc, over+": "+val)
			}
			return insert(doc, control)
		}
	case "no space":
		draw(0)
		val = strings.TrimLeft(val, " ")
		line := name + ":" + pick(t, "sep", []string{"", "\t", "x", "\xa0", "_ "}) + val
		detail = fmt.Sprintf("%.20q", line)
		build = func(doc rawDoc, b bool) rawDoc {
			if b {
				return insert(doc, line)
			}
			return insert(doc, control)
		}
	case "no separator":
		draw(0)
		line := name
		if t.Pct("withval", 50) {
			line += " " + val
		}
		detail = fmt.Sprintf("%.20q", line)
		build = func(doc rawDoc, b bool) rawDoc {
			if b {
				c := insert(doc, line)
				if at == len(c)-1 && pos == len(c[at])-1 { // a header has to follow
					c[at][pos], c[at][pos-1] = c[at][pos-1], c[at][pos]
				}
				return c
			}
			return insert(doc, control)
		}
	case "Name not first":
		draw(0)
		build = func(doc rawDoc, b bool) rawDoc {
			at = 1 + at%(len(doc)-1)
			if pos = 1; b {
				pos = 0
			}
			return insert(doc, control)
		}
	case "no Name":
		draw(0)
		build = func(doc rawDoc, b bool) rawDoc {
			c := damage(doc, false)
			if !b {
				return c
			}
			i := 1 + p.n(len(c))
			return append(append(append(rawDoc(nil), c[:i]...), []string{control}), c[i:]...)
		}
	case "NUL in value":
		draw(0)
		i := t.Uni("ni", len(val)+1)
		bad := val[:i] + "\x00" + val[i:]
		build = func(doc rawDoc, b bool) rawDoc {
			if b {
				return insert(doc, name+": "+bad)
			}
			return insert(doc, control)
		}
	case "NUL in name":
		draw(0)
		i := t.Uni("ni", len(name)+1)
		bad := name[:i] + "\x00" + name[i:]
		build = func(doc rawDoc, b bool) rawDoc {
			if b {
				return insert(doc, bad+": "+val)
			}
			return insert(doc, control)
		}
	case "continued after blank": // a line that looks like a continuation, but follows an empty one
		draw(0)
		line := " " + r.attrName(0, map[string]bool{"manifest-version": true}) + ": " + pick(t, "cv", []string{"1", "", "x y", "abc="})
		if t.Pct("bare", 30) {
			line = " " + pick(t, "bt", []string{"", "x", "abc=", " "})
		}
		alone := t.Pct("alone", 50)
		detail = fmt.Sprintf("%.20q, section of its own %v", line, alone)
		build = func(doc rawDoc, b bool) rawDoc {
			at, pos = at%(len(doc)-1), len(doc[at%(len(doc)-1)])
			c := insert(doc, control)
			if !b {
				return c
			}
			if alone {
				return append(append(append(rawDoc(nil), c[:at+1]...), []string{line}), c[at+1:]...)
			}
			c[at+1] = append([]string{line}, c[at+1]...)
			return c
		}
	case "duplicate":
		from := t.Uni("from", len(j.Doc.Entries)) + 1
		to := t.Range("to", 1, len(j.Doc.Entries)+1)
		same := t.Pct("same", 50)
		detail = fmt.Sprintf("section %d again before %d, identical %v", from, to, same)
		build = func(doc rawDoc, b bool) rawDoc {
			c := damage(doc, false)
			if !b {
				return c
			}
			x := append([]string(nil), c[from]...)
			if !same {
				if x = x[:1]; p.n(2) == 0 {
					x = append(x, "Other: 1")
				}
			}
			return append(append(append(rawDoc(nil), c[:to]...), x), c[to:]...)
		}
	}
	build2 := func(bad bool) []byte {
		j.MakeMF()
		if inMF {
			j.MF, j.Secs = build(j.Doc.raw(), bad).encode(eol, width)
			// the sections of the entries, for the .SF digests
			if len(j.Secs) != len(j.Doc.Entries)+1 {
				j.Secs = make([][]byte, len(j.Doc.Entries)+1)
			}
		}
		for _, s := range j.Signers {
			j.MakeSF(s)
			if s == victim && !inMF {
				s.SF, _ = build(s.Doc.raw(), bad).encode(eol, width)
			}
			s.MakeBlock()
		}
		return j.Bytes()
	}
	if how == "duplicate" && !t.Pct("lfmf", 50) {
		eol, width = "\r\n", 70
	}
	// places are drawn once, on a document of the right shape
	j.MakeMF()
	if inMF {
		place(j.Doc.raw())
	} else {
		j.MakeSF(victim)
		place(victim.Doc.raw())
	}
	where := "MANIFEST.MF"
	if !inMF {
		where = victim.Base + ".SF"
	}
	ctl := build2(false)
	t.Note("%s in %s %s, section %d line %d eol %q width %d <%d;%d> %s", how, where, detail, at, pos, eol, width, min, max, jarStr(j))
	t.Sample("%s in %s %s, section %d line %d", how, where, detail, at, pos)
	t.mustAccept("the APK without the damage", ctl, min, max, 1, nil)
	bad := build2(true)
	t.Attach("manifest", j.MF)
	t.Attach("sf", victim.SF)
	t.NonTrivial(j.MF, victim.SF, min, max)
	t.Class("%s in %s", how, map[bool]string{true: "MANIFEST.MF", false: ".SF"}[inMF])
	t.mustReject("APK with "+how+" in "+where, bad, min, max)
}

func init() {
	register("C22", "a correctly v1-signed APK whose MANIFEST.MF or .SF files are re-laid (folds, line ends, name case, order, extra attributes, blank lines), digests and signatures computed over the new bytes, or carry exactly one malformed header, section or duplicate; distinct by manifest bytes and SDK range",
		Sub{"layout", 4000, 60000, c22Case},
		Sub{"malformed", 4000, 60000, c22Bad})
}

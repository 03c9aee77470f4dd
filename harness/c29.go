package main

import (
	"encoding/base64"
	"fmt"
	"strings"
)

// dgSet is a set of digests of one thing, each with a right or wrong value, and a Digest-Algorithms list.
type dgSet struct {
	names []string          // in the order they are written
	kind  map[string]string // right, wrong, undecodable
	seed  map[string]uint64
	list  string // Digest-Algorithms, "" = absent
	odd   bool   // the names are written in another case
	md5   bool   // an MD5 digest nobody asks for
}

func (s *dgSet) String() string {
	r := ""
	for _, n := range s.names {
		r += " " + n + "=" + s.kind[n]
	}
	if s.list != "" {
		r += " Digest-Algorithms=" + s.list
	}
	return "[" + strings.TrimSpace(r) + "]"
}

func (t *T) genDgSet(pRight int) *dgSet {
	s := &dgSet{kind: map[string]string{}, seed: map[string]uint64{}, odd: t.Pct("odd", 15), md5: t.Pct("md5", 10)}
	for _, i := range t.perm(len(v1Names)) {
		n := v1Names[i]
		if !t.Pct("has", 55) {
			continue
		}
		s.names = append(s.names, n)
		s.seed[n] = t.Seed("wseed")
		switch {
		case t.Pct("right", pRight):
			s.kind[n] = "right"
		case t.Pct("undec", 15):
			s.kind[n] = "undecodable"
		default:
			s.kind[n] = "wrong"
		}
	}
	if t.Pct("list", 55) {
		var l []string
		tokens := append([]string{"MD5", "SHA", "SHA-224"}, v1Names...)
		for k := t.Range("ln", 1, 4); k > 0; k-- {
			n := pick(t, "token", tokens)
			if t.Pct("lower", 30) {
				n = strings.ToLower(n)
			}
			l = append(l, n)
		}
		s.list = strings.Join(l, " ")
		if t.Pct("spaces", 10) {
			s.list = strings.Join(l, "  ")
		}
		if s.md5 && strings.Contains(strings.ToUpper(s.list), "MD5") {
			s.md5 = false
		}
	}
	return s
}

// goodSet satisfies every platform.
func goodSet(names ...string) *dgSet {
	s := &dgSet{names: names, kind: map[string]string{}, seed: map[string]uint64{}}
	for _, n := range names {
		s.kind[n] = "right"
	}
	return s
}

func (s *dgSet) attrs(suffix string, data []byte) []mfAttr {
	var r []mfAttr
	for i, n := range s.names {
		d := hashOf(v1Hash[n], data)
		v := b64(d)
		p := &prng{s.seed[n]}
		switch s.kind[n] {
		case "wrong":
			switch p.n(6) {
			case 0:
				d[p.n(len(d))] ^= 1 << p.n(8)
			case 1:
				d = hashOf(v1Hash[n], cat(data, []byte{'\n'}))
			case 2:
				d = d[:len(d)-1]
			case 3:
				d = cat(d, []byte{0})
			case 4:
				o := v1Names[p.n(len(v1Names))]
				if o == n {
					d[0] ^= 0x80
				} else {
					d = hashOf(v1Hash[o], data)
				}
			case 5:
				d[len(d)-1] ^= 1
			}
			v = b64(d)
		case "undecodable":
			switch p.n(3) {
			case 0:
				v = "!!!!"
			case 1:
				v = base64.RawURLEncoding.EncodeToString(d[:len(d)-len(d)%3-1])
			case 2:
				v = "*" + v[1:]
			}
		}
		k := n + suffix
		if s.odd {
			if i%2 == 0 {
				k = strings.ToLower(k)
			} else {
				k = strings.ToUpper(k)
			}
		}
		r = append(r, mfAttr{k, v})
	}
	if s.md5 {
		r = append(r, mfAttr{"MD5" + suffix, b64(make([]byte, 16))})
	}
	if s.list != "" {
		r = append(r, mfAttr{"Digest-Algorithms", s.list})
	}
	return r
}

// checked is the set of digests that count in a range of platforms.
func (s *dgSet) checked(min, max int32, list string) map[string]bool {
	r := map[string]bool{}
	has := func(n string) bool { return s.kind[n] != "" }
	if min < 18 {
		if list == "" {
			list = "SHA1"
		}
		for _, tok := range strings.Fields(strings.ToUpper(list)) {
			if has(tok) && (min >= 9 || tok != "SHA-384" && tok != "SHA-512") {
				r[tok] = true
			}
		}
	}
	if max >= 18 {
		for _, n := range []string{"SHA-512", "SHA-384", "SHA-256", "SHA1"} {
			if has(n) {
				r[n] = true
				break
			}
		}
	}
	return r
}

// state is what the range makes of the set: ok, bad or none (nothing to check).
func (s *dgSet) state(min, max int32, list string) string {
	c := s.checked(min, max, list)
	if len(c) == 0 {
		return "none"
	}
	for n := range c {
		if s.kind[n] != "right" {
			return "bad"
		}
	}
	return "ok"
}

// c29Signer is what one signature file says.
type c29Signer struct {
	whole, main *dgSet
	entries     map[string]*dgSet
	list        string // Digest-Algorithms of the main section
}

func (t *T) genC29Range() (int32, int32) {
	min := int32(pick(t, "min", []int{-1, -1, 1, 4, 7, 8, 8, 9, 9, 10, 16, 17, 17, 18, 18, 19, 24, 30}))
	max := int32(anyMax)
	if t.Pct("maxlow", 65) {
		max = int32(pick(t, "max", []int{1, 7, 8, 9, 16, 17, 17, 18, 18, 19, 23, 24, 30}))
	}
	if max < min {
		max = min
	}
	return min, max
}

func c29Case(t *T) {
	j := t.genJar(zipOpts{maxEntries: 4, maxSize: 300, plainNames: true}, 2)
	min, max := t.genC29Range()
	eff := min
	for i, e := range j.Zip.Entries {
		if e.Name != "AndroidManifest.xml" {
			continue
		}
		if min == anyMin {
			lv := int32(pick(t, "declared", []int{1, 7, 8, 9, 16, 17, 18, 19}))
			if lv > max {
				lv = max
			}
			j.Zip.Entries[i].Data = ManifestSpec{Min: i32p(lv)}.Encode()
			eff = lv
		}
	}
	if eff == anyMin {
		eff = 1
	}
	pRight := pick(t, "pright", []int{40, 80, 95, 100})
	var why []string
	// manifest entries
	sets := map[string]*dgSet{}
	j.MFDigests = nil
	base := pick(t, "base", [][]string{{"SHA1"}, {"SHA1", "SHA-256"}, {"SHA-512", "SHA1"}})
	data := map[string][]byte{}
	var names []string
	for _, e := range j.Zip.Entries {
		if strings.HasPrefix(e.Name, "META-INF/") || strings.HasSuffix(e.Name, "/") {
			continue
		}
		names = append(names, e.Name)
		data[e.Name] = e.Data
		sets[e.Name] = goodSet(base...)
	}
	focus := t.Uni("focus", 6)
	d := ""
	if focus <= 1 || focus == 5 {
		for k := t.Range("nfocus", 1, 2); k > 0; k-- {
			n := names[t.Uni("which", len(names))]
			sets[n] = t.genDgSet(pRight)
			d += " MF " + n + sets[n].String()
		}
	}
	for _, n := range names {
		if st := sets[n].state(eff, max, sets[n].list); st != "ok" {
			why = append(why, fmt.Sprintf("manifest entry %s: %s", n, st))
		}
	}
	j.ExtraAttr = func(name string) []mfAttr { return sets[name].attrs("-Digest", data[name]) }
	j.MakeMF()
	// signature files
	for i, s := range j.Signers {
		s.Digests, s.Whole, s.MainAttr, s.NoEntryDg = nil, false, false, false
		c := &c29Signer{whole: goodSet(), main: goodSet(), entries: map[string]*dgSet{}}
		for _, n := range names {
			c.entries[n] = goodSet(base...)
		}
		pick1 := focus == 5 || focus >= 2
		if t.Pct("whole", 60) {
			c.whole = goodSet(base...)
			if pick1 && t.Pct("wset", 60) {
				c.whole = t.genDgSet(pRight)
			}
		}
		if t.Pct("main", 50) {
			c.main = goodSet(base...)
			if pick1 && t.Pct("mset", 50) {
				c.main = t.genDgSet(pRight)
			}
		}
		if pick1 && t.Pct("eset", 70) {
			c.entries[names[t.Uni("which", len(names))]] = t.genDgSet(pRight)
		}
		if t.Pct("sflist", 25) {
			c.list = t.genDgSet(100).list
		}
		if strings.Contains(strings.ToUpper(c.list), "MD5") {
			c.whole.md5, c.main.md5 = false, false
		}
		c.whole.list, c.main.list = "", ""
		d += fmt.Sprintf(" SF%d{signtool=%v list=%q whole%v main%v", i, s.Signtool, c.list, c.whole, c.main)
		for _, n := range names {
			d += " " + c.entries[n].String()
		}
		d += "}"
		j.MakeSF(s)
		suffix := "-Digest-Manifest"
		if s.Signtool {
			suffix = "-Digest"
		}
		s.Doc.Main = append(s.Doc.Main, c.whole.attrs(suffix, j.MF)...)
		s.Doc.Main = append(s.Doc.Main, c.main.attrs("-Digest-Manifest-Main-Attributes", j.Secs[0])...)
		if c.list != "" {
			s.Doc.Main = append(s.Doc.Main, mfAttr{"Digest-Algorithms", c.list})
		}
		for k := range s.Doc.Entries {
			n := s.Doc.Entries[k][0].V
			sec := j.Secs[k+1]
			if s.Signtool {
				sec = signtoolCut(sec)
			}
			s.Doc.Entries[k] = append(s.Doc.Entries[k], c.entries[n].attrs("-Digest", sec)...)
		}
		s.SF, _ = s.Doc.Encode()
		s.MakeBlock()
		// the model
		if !s.Signtool && c.main.state(eff, max, c.list) == "bad" {
			why = append(why, fmt.Sprintf("main attributes digest of signature file %d", i))
		}
		if c.whole.state(eff, max, c.list) != "ok" {
			for _, n := range names {
				if st := c.entries[n].state(eff, max, c.entries[n].list); st != "ok" {
					why = append(why, fmt.Sprintf("entry %s of signature file %d: %s", n, i, st))
				}
			}
		}
	}
	apk := j.Bytes()
	d = fmt.Sprintf("<%d;%d> min %d%s", min, max, eff, d)
	t.Note("%s", d)
	t.Note("expected: %v", why)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	side := func(v int32) string {
		switch {
		case v < 9:
			return "<9"
		case v < 18:
			return "<18"
		}
		return ">=18"
	}
	t.Class("min %s max %s accept=%v", side(eff), side(max), len(why) == 0)
	if len(why) == 0 {
		v := t.mustAccept("right in every digest that counts", apk, min, max, 1, nil)
		if !sameChains(v.Certs, j.chains()) {
			t.Violate("certificates %s reported, want %s", chainStr(v.Certs), chainStr(j.chains()))
		}
	} else {
		t.mustReject(strings.Join(why, "; "), apk, min, max)
	}
}

// c29Single flips the value of one digest of one correctly signed thing: the verdict follows from whether it counts.
func c29Single(t *T) {
	j := t.genJar(zipOpts{maxEntries: 3, maxSize: 200, plainNames: true}, 1)
	min := int32(pick(t, "min", []int{1, 8, 9, 17, 18, 24}))
	max := int32(pick(t, "max", []int{8, 17, 18, 28, anyMax}))
	if max < min {
		max = min
	}
	s := j.Signers[0]
	s.Signtool = false
	names := append([]string{}, v1Names...)
	j.MFDigests = names
	s.Digests, s.Whole, s.MainAttr, s.NoEntryDg = names, false, false, false
	where := t.Uni("where", 3)
	j.MakeMF()
	var nm []string
	for _, e := range j.Doc.Entries {
		nm = append(nm, e[0].V)
	}
	e := t.Uni("entry", len(nm))
	n := pick(t, "digest", names)
	list := ""
	if t.Pct("list", 60) {
		list = strings.Join(t.subset("lst", names), " ")
	}
	set := goodSet(names...)
	set.list, set.kind[n], set.seed[n] = list, "wrong", t.Seed("wseed")
	what := ""
	switch where {
	case 0:
		what = "manifest entry"
		var d []byte
		for _, z := range j.Zip.Entries {
			if z.Name == nm[e] {
				d = z.Data
			}
		}
		j.Doc.Entries[e] = append(mfSection{{"Name", nm[e]}}, set.attrs("-Digest", d)...)
		j.MF, j.Secs = j.Doc.Encode()
		j.MakeSF(s)
	case 1:
		what = "entry of the signature file"
		j.MakeSF(s)
		s.Doc.Entries[e] = append(mfSection{{"Name", nm[e]}}, set.attrs("-Digest", j.Secs[e+1])...)
		s.SF, _ = s.Doc.Encode()
	case 2:
		what = "main attributes"
		j.MakeSF(s)
		s.Doc.Main = append(s.Doc.Main, set.attrs("-Digest-Manifest-Main-Attributes", j.Secs[0])...)
		s.SF, _ = s.Doc.Encode()
	}
	s.MakeBlock()
	apk := j.Bytes()
	st := set.state(min, max, list)
	d := fmt.Sprintf("<%d;%d> %s, Digest-Algorithms %q, wrong %s: %s", min, max, what, list, n, st)
	t.Note("%s", d)
	t.Sample("%s", d)
	t.NonTrivial(apk, min, max)
	t.Class("%s %s %s", what, n, st)
	if st == "bad" || st == "none" && where < 2 {
		t.mustReject(d, apk, min, max)
	} else {
		t.mustAccept(d, apk, min, max, 1, nil)
	}
}

func init() {
	register("C29", "a case counts if at least one digest set of the signed JAR was drawn at random or had one value changed; distinct by APK bytes and SDK range",
		Sub{"sets", 9000, 400000, c29Case},
		Sub{"single", 5000, 200000, c29Single})
}

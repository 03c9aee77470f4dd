package main

import (
	"bytes"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/avast/apkverifier/internal/asn1andr"
)

// ---- generated Go types ----

type (
	intSET []int
	strSET []string
	oidSEQ []asn1.ObjectIdentifier
	rawCer struct {
		Raw     asn1.RawContent
		TBS     tbsLike
		Alg     pkix.AlgorithmIdentifier
		SigBits asn1.BitString
	}
	tbsLike struct {
		Raw      asn1.RawContent
		Version  int `asn1:"optional,explicit,default:0,tag:0"`
		Serial   *big.Int
		Alg      pkix.AlgorithmIdentifier
		Issuer   pkix.RDNSequence
		Validity struct{ NotBefore, NotAfter time.Time }
		Subject  asn1.RawValue
		Key      struct {
			Raw asn1.RawContent
			Alg pkix.AlgorithmIdentifier
			Key asn1.BitString
		}
		UniqueId asn1.BitString   `asn1:"optional,tag:1"`
		Exts     []pkix.Extension `asn1:"optional,explicit,tag:3"`
	}
	p7Like struct {
		ContentType asn1.ObjectIdentifier
		Content     asn1.RawValue `asn1:"explicit,optional,tag:0"`
	}
	attrsLike struct {
		Attrs []struct {
			Type  asn1.ObjectIdentifier
			Value asn1.RawValue `asn1:"set"`
		} `asn1:"optional,omitempty,tag:0"`
		N int `asn1:"optional,default:7"`
	}
)

var staticTypes = []reflect.Type{
	reflect.TypeOf(intSET{}), reflect.TypeOf(strSET{}), reflect.TypeOf(oidSEQ{}), reflect.TypeOf(rawCer{}), reflect.TypeOf(p7Like{}), reflect.TypeOf(attrsLike{}),
	reflect.TypeOf(pkix.RDNSequence{}), reflect.TypeOf(pkix.AlgorithmIdentifier{}), reflect.TypeOf(pkix.Extension{}), reflect.TypeOf([]pkix.RelativeDistinguishedNameSET{}),
}

var (
	tBig   = reflect.TypeOf((*big.Int)(nil))
	tBits  = reflect.TypeOf(asn1.BitString{})
	tOID   = reflect.TypeOf(asn1.ObjectIdentifier{})
	tEnum  = reflect.TypeOf(asn1.Enumerated(0))
	tFlag  = reflect.TypeOf(asn1.Flag(false))
	tTime  = reflect.TypeOf(time.Time{})
	tRawV  = reflect.TypeOf(asn1.RawValue{})
	tRawC  = reflect.TypeOf(asn1.RawContent(nil))
	tAny   = reflect.TypeOf((*interface{})(nil)).Elem()
	tBytes = reflect.TypeOf([]byte(nil))
)

type typeOpts struct{ raw, anyT bool }

func (t *T) genType(depth int, o typeOpts) reflect.Type {
	n := 15
	if depth <= 0 {
		n = 12
	}
	switch t.Uni("type", n) {
	case 0:
		return reflect.TypeOf(0)
	case 1:
		return reflect.TypeOf(int32(0))
	case 2:
		return reflect.TypeOf(int64(0))
	case 3:
		return tBig
	case 4:
		return reflect.TypeOf(false)
	case 5:
		return tEnum
	case 6:
		return tBits
	case 7:
		return tOID
	case 8:
		return reflect.TypeOf("")
	case 9:
		return tBytes
	case 10:
		return tTime
	case 11:
		if o.raw && t.Pct("rawv", 60) {
			return tRawV
		}
		if o.anyT {
			return tAny
		}
		return tBytes
	case 12, 13:
		return t.genStructType(depth, o)
	default:
		e := t.genType(depth-1, o)
		if e.Kind() == reflect.Uint8 || e == tFlag {
			e = tOID
		}
		return reflect.SliceOf(e)
	}
}

func (t *T) genStructType(depth int, o typeOpts) reflect.Type {
	var fs []reflect.StructField
	if o.raw && t.Pct("rawc", 20) {
		fs = append(fs, reflect.StructField{Name: "Raw", Type: tRawC})
	}
	n := t.Range("fields", 0, 5)
	for i := 0; i < n; i++ {
		ft := t.genType(depth-1, o)
		tag := t.genParams(ft, i)
		if strings.Contains(tag, "explicit") && t.Pct("flag", 8) {
			ft, tag = tFlag, strings.Replace(tag, "set,", "", 1)
			if !strings.Contains(tag, "optional") {
				tag += ",optional"
			}
		}
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft}
		if tag != "" {
			f.Tag = reflect.StructTag(`asn1:"` + tag + `"`)
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// genParams draws field parameters that make sense for the type.
func (t *T) genParams(ft reflect.Type, i int) string {
	var p []string
	set := false
	switch {
	case ft.Kind() == reflect.String:
		p = append(p, pick(t, "strtag", []string{"", "", "ia5", "utf8", "printable", "numeric"}))
	case ft == tTime:
		p = append(p, pick(t, "timetag", []string{"", "", "utc", "generalized"}))
	case strings.HasSuffix(ft.Name(), "SET"):
		set = true
	case ft.Kind() == reflect.Slice && ft != tBytes && ft != tOID:
		if t.Pct("set", 35) {
			p, set = append(p, "set"), true
		}
		if t.Pct("omitempty", 20) {
			p = append(p, "omitempty", "optional")
		}
	case ft.Kind() == reflect.Struct && ft != tTime && ft != tBits && ft != tRawV:
		if t.Pct("setS", 20) {
			p, set = append(p, "set"), true
		}
	}
	tagged := false
	if ft != tAny && t.Pct("tag", 45) {
		// an implicit tag on a time needs the kind of time, which only newer codecs know
		if t.Pct("explicit", 50) || ft == tTime || ft == tRawV || set {
			p = append(p, "explicit")
		}
		p = append(p, fmt.Sprintf("tag:%d", pick(t, "tagno", []int{i, i, i + 10, 30, 31, 32, 127, 128, 20000})))
		if ft != tRawV && t.Pct("class", 25) {
			p = append(p, pick(t, "classname", []string{"application", "application", "private"}))
			if p[len(p)-1] == "private" && containsStr(p, "explicit") {
				p = p[:len(p)-1]
			}
		}
		tagged = true
	}
	if (tagged || t.Pct("opt0", 20)) && t.Pct("optional", 50) && !containsStr(p, "optional") {
		p = append(p, "optional")
		if k := ft.Kind(); (k == reflect.Int || k == reflect.Int32 || k == reflect.Int64) && t.Pct("default", 40) {
			p = append(p, fmt.Sprintf("default:%d", pick(t, "defval", []int{0, 1, -1, 200})))
		}
	}
	// the order of the parts does not matter
	out := ""
	for _, k := range t.perm(len(p)) {
		if p[k] != "" {
			out += "," + p[k]
		}
	}
	return strings.TrimPrefix(out, ",")
}

func containsStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---- generated values ----

var intEdges = []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 1 << 31, -1 << 31, 1<<31 - 1, math.MaxInt64, math.MinInt64, 1 << 55, -1 << 55, 1<<56 - 1}

func (t *T) genInt() int64 {
	if t.Pct("iedge", 50) {
		return pick(t, "ie", intEdges)
	}
	return int64(t.bits(64, "ival")) >> uint(t.Uni("ishift", 64))
}

const printableSet = "ABCXYZabcxyz0189 '()+,-./:=?"

func (t *T) genStr(tag string) string {
	n := pick(t, "slen", []int{0, 1, 2, 5, 20, 127, 128, 300})
	p := &prng{t.Seed("sseed")}
	b := make([]byte, n)
	set := printableSet
	switch {
	case strings.Contains(tag, "numeric"):
		set = "0123456789 "
	case strings.Contains(tag, "ia5"):
		set = printableSet + "@&*\x00\x7f\n_~"
	case strings.Contains(tag, "utf8"):
		set = printableSet
	case !strings.Contains(tag, "printable") && p.n(3) == 0:
		set = printableSet + "@_&*~\x01"
	}
	for i := range b {
		b[i] = set[p.n(len(set))]
	}
	if strings.Contains(tag, "utf8") || !strings.Contains(tag, "printable") && !strings.Contains(tag, "ia5") && !strings.Contains(tag, "numeric") {
		if p.n(3) == 0 {
			return string(b) + pick(t, "suni", []string{"ä", "日本", "\U0001f600", "\u0000", "ÿ"})
		}
	}
	if t.Pct("sbad", 4) {
		return string(b) + pick(t, "sbadv", []string{"\xff", "é", "@", "*", "&", "a", "\x00"})
	}
	return string(b)
}

func (t *T) genOID() asn1.ObjectIdentifier {
	o := asn1.ObjectIdentifier{t.Uni("oid0", 3), t.Uni("oid1", 40)}
	if o[0] == 2 && t.Pct("oidbig1", 40) {
		o[1] = pick(t, "oid1b", []int{40, 47, 48, 79, 80, 175, 176, 16000, 1 << 30})
	}
	for n := t.Uni("oidn", 7); n > 0; n-- {
		o = append(o, pick(t, "oidc", []int{0, 1, 39, 40, 79, 80, 127, 128, 255, 256, 16383, 16384, 113549, 1<<21 - 1, 1 << 21, 1 << 28, math.MaxInt32}))
	}
	return o
}

func (t *T) genTime() time.Time {
	y := pick(t, "year", []int{1950, 1969, 1970, 1999, 2000, 2024, 2049, 2050, 2051, 1949, 1, 0, 9999, 1900})
	if t.Pct("year?", 40) {
		y = t.Range("yearv", 1900, 2200)
	}
	loc := time.UTC
	if t.Pct("zone", 25) {
		loc = time.FixedZone("", 60*pick(t, "zmin", []int{60, -60, 90, 330, -719, 840, 1}))
	}
	return time.Date(y, time.Month(1+t.Uni("mon", 12)), 1+t.Uni("day", 31), t.Uni("h", 24), t.Uni("mi", 60), t.Uni("s", 60), 0, loc)
}

func (t *T) genTLV(depth int) []byte {
	if depth > 0 && t.Pct("rawcons", 40) {
		var c []byte
		for n := t.Uni("rawn", 4); n > 0; n-- {
			c = append(c, t.genTLV(depth-1)...)
		}
		return tlv(pick(t, "rawt", []byte{0x30, 0x31, 0xa0, 0x61}), c)
	}
	switch t.Uni("rawk", 5) {
	case 0:
		return dint(t.genInt())
	case 1:
		return doct(t.Bytes("rawo", 0, 200))
	case 2:
		return dnull()
	case 3:
		return tlv(0x0c, []byte(t.genStr("utf8")))
	}
	return tlv(pick(t, "rawp", []byte{0x80, 0x8f, 0x41, 0xc3, 0x13, 0x16}), []byte(t.genStr("printable")))
}

// fill sets v to a generated value.
func (t *T) fill(v reflect.Value, tag string, depth int) {
	switch v.Type() {
	case tBig:
		b := new(big.Int).SetBytes(bulk(t.Seed("bigseed"), pick(t, "biglen", []int{0, 1, 7, 8, 9, 16, 20, 64, 128, 257})))
		switch t.Uni("bigkind", 5) {
		case 0:
			b.SetInt64(t.genInt())
		case 1:
			b.Neg(b)
		case 2:
			b.Lsh(big.NewInt(1), uint(t.Range("bigsh", 1, 300)))
			if t.Pct("bigm", 50) {
				b.Sub(b, big.NewInt(1))
			}
			if t.Pct("bign", 50) {
				b.Neg(b)
			}
		}
		v.Set(reflect.ValueOf(b))
		return
	case tBits:
		b := t.Bytes("bits", 0, 40)
		k := len(b) * 8
		if len(b) > 0 {
			u := t.Uni("unused", 8)
			k -= u
			b[len(b)-1] &^= 1<<u - 1
		}
		v.Set(reflect.ValueOf(asn1.BitString{Bytes: b, BitLength: k}))
		return
	case tOID:
		v.Set(reflect.ValueOf(t.genOID()))
		return
	case tEnum:
		v.SetInt(int64(int32(t.genInt())))
		return
	case tFlag:
		v.SetBool(t.Pct("flagv", 70))
		return
	case tTime:
		if strings.Contains(tag, "optional") && t.Pct("zerotime", 30) {
			return
		}
		v.Set(reflect.ValueOf(t.genTime()))
		return
	case tRawV:
		if strings.Contains(tag, "optional") && t.Pct("noraw", 30) {
			return
		}
		d := t.genTLV(2)
		if strings.Contains(tag, "explicit") && t.Pct("rawnull", 20) {
			d = dnull()
		}
		var r asn1.RawValue
		rest, err := asn1.Unmarshal(d, &r)
		if err != nil || len(rest) > 0 {
			panic(err)
		}
		if t.Pct("parts", 50) {
			r.FullBytes = nil
		}
		v.Set(reflect.ValueOf(r))
		return
	case tRawC:
		return
	case tBytes:
		if t.Pct("octedge", 4) { // lengths next to those that need another length octet
			n := pick(t, "octlen", []int{127, 128, 255, 256, 65535, 65536, 65537, 70000})
			if t.Pct("octhuge", 1) {
				n = 1<<24 + t.Range("octhd", -8, 1)
			}
			v.SetBytes(bulk(t.Seed("octs"), n))
			return
		}
		v.SetBytes(t.Bytes("oct", 0, pick(t, "octmax", []int{0, 1, 130, 300, 70000})))
		return
	case tAny:
		var x interface{}
		switch t.Uni("any", 6) {
		case 0:
			x = t.genInt()
		case 1:
			x = t.genStr("")
		case 2:
			x = t.Bytes("anyo", 0, 20)
		case 3:
			x = t.genOID()
		case 4:
			x = asn1.BitString{Bytes: []byte{0xf0}, BitLength: 5}
		case 5:
			x = t.genTime()
		}
		v.Set(reflect.ValueOf(x))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(t.Pct("bool", 50))
	case reflect.Int, reflect.Int64:
		v.SetInt(t.genInt())
	case reflect.Int32:
		v.SetInt(int64(int32(t.genInt())))
	case reflect.String:
		v.SetString(t.genStr(tag))
	case reflect.Slice:
		n := pick(t, "elems", []int{0, 1, 2, 3, 3, 5, 9})
		if depth < 1 && n > 3 {
			n = 3
		}
		switch v.Type().Elem().Kind() {
		case reflect.Int, reflect.Bool, reflect.String:
			if t.Pct("long", 2) {
				n = pick(t, "longn", []int{40, 43, 128, 300})
			}
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			t.fill(s.Index(i), "", depth-1)
		}
		v.Set(s)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			tag := f.Tag.Get("asn1")
			if f.Type != tAny && strings.Contains(tag, "optional") && !strings.Contains(tag, "default") && t.Pct("absent", 30) {
				continue
			}
			t.fill(v.Field(i), tag, depth-1)
		}
	default:
		panic("fill: " + v.Type().String())
	}
}

// ---- comparison ----

type asnCmp struct {
	// strings and times whose treatment by newer versions of encoding/asn1 differs are equated
	latin, mask bool
	noRaw       bool // do not compare raw sections
}

func unlatin(s string) string {
	b := make([]rune, 0, len(s))
	for i := 0; i < len(s); i++ {
		b = append(b, rune(s[i]))
	}
	return string(b)
}

// same compares a value of the tested codec with the reference value.
func (c asnCmp) same(a, r reflect.Value) string {
	if a.Type() != r.Type() {
		return fmt.Sprintf("type %v instead of %v", a.Type(), r.Type())
	}
	switch a.Type() {
	case tBig:
		x, y := a.Interface().(*big.Int), r.Interface().(*big.Int)
		if (x == nil) != (y == nil) || x != nil && x.Cmp(y) != 0 {
			return fmt.Sprintf("integer %v instead of %v", x, y)
		}
		return ""
	case tTime:
		x, y := a.Interface().(time.Time), r.Interface().(time.Time)
		_, ox := x.Zone()
		_, oy := y.Zone()
		if !x.Equal(y) || ox != oy {
			return fmt.Sprintf("time %v instead of %v", x, y)
		}
		return ""
	case tRawV:
		x, y := a.Interface().(asn1.RawValue), r.Interface().(asn1.RawValue)
		if x.Class != y.Class || x.Tag != y.Tag || x.IsCompound != y.IsCompound {
			return fmt.Sprintf("raw value %+v instead of %+v", x, y)
		}
		if !c.noRaw && (!bytes.Equal(x.Bytes, y.Bytes) || !bytes.Equal(x.FullBytes, y.FullBytes)) {
			return fmt.Sprintf("raw bytes %x instead of %x", x.FullBytes, y.FullBytes)
		}
		return ""
	case tRawC:
		if !c.noRaw && !bytes.Equal(a.Bytes(), r.Bytes()) {
			return fmt.Sprintf("raw content %x instead of %x", a.Bytes(), r.Bytes())
		}
		return ""
	case tAny:
		if a.IsNil() != r.IsNil() {
			if _, ok := r.Interface().(bool); ok && a.IsNil() {
				return "" // older codecs leave booleans out
			}
			return fmt.Sprintf("%v instead of %v", a, r)
		}
		if a.IsNil() {
			return ""
		}
		return c.same(a.Elem(), r.Elem())
	}
	switch a.Kind() {
	case reflect.String:
		x, y := a.String(), r.String()
		if x == y || c.latin && unlatin(x) == y {
			return ""
		}
		if c.mask {
			m := func(s string) string {
				b := []byte(s)
				for i := range b {
					if !printableByte(b[i]) {
						b[i] = 'x'
					}
				}
				return string(b)
			}
			if m(x) == m(y) {
				return ""
			}
		}
		return fmt.Sprintf("string %q instead of %q", x, y)
	case reflect.Slice:
		if a.Len() != r.Len() {
			return fmt.Sprintf("%d elements instead of %d", a.Len(), r.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if s := c.same(a.Index(i), r.Index(i)); s != "" {
				return fmt.Sprintf("[%d]: %s", i, s)
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if s := c.same(a.Field(i), r.Field(i)); s != "" {
				return a.Type().Field(i).Name + ": " + s
			}
		}
		return ""
	}
	if !reflect.DeepEqual(a.Interface(), r.Interface()) {
		return fmt.Sprintf("%v instead of %v", a, r)
	}
	return ""
}

func printableByte(b byte) bool {
	return 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' || '0' <= b && b <= '9' || strings.IndexByte(" '()+,-./:=?*&", b) >= 0
}

// sortSets orders the elements of every universal SET below n.
func (n *node) sortSets() {
	for _, k := range n.kids {
		k.sortSets()
	}
	if len(n.id) == 1 && n.id[0] == 0x31 {
		sort.SliceStable(n.kids, func(i, j int) bool { return bytes.Compare(n.kids[i].encode(nil), n.kids[j].encode(nil)) < 0 })
	}
}

func setsSorted(b []byte) []byte {
	n, rest, ok := parseNode(b)
	if !ok {
		return b
	}
	n.sortSets()
	return cat(n.encode(nil), rest)
}

func typeString(rt reflect.Type, params string) string {
	s := rt.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return fmt.Sprintf("%s params %q", s, params)
}

func (t *T) genASN1(o typeOpts) (rt reflect.Type, params string, v reflect.Value) {
	if o.raw && t.Pct("static", 30) {
		rt = pick(t, "stype", staticTypes)
	} else {
		rt = t.genType(3, o)
	}
	if t.Pct("params", 30) {
		params = t.genParams(rt, 0)
	}
	v = reflect.New(rt).Elem()
	t.fill(v, params, 3)
	return
}

func init() {
	register("C17", "the type is composite (struct, slice, set, tagged, optional or raw parts) or the input is a mutated or leniently encoded one",
		Sub{"encode", 40000, 700000, c17encode},
		Sub{"mutated", 40000, 700000, c17mutated},
		Sub{"lenient", 25000, 450000, c17lenient},
		Sub{"truncated", 15000, 200000, c17truncated},
	)
}

func leafType(rt reflect.Type) bool {
	return !(rt.Kind() == reflect.Struct && rt != tTime && rt != tBits || rt.Kind() == reflect.Slice && rt != tBytes && rt != tOID)
}

// c17encode: Marshal gives the bytes of encoding/asn1, and Unmarshal gives the value back.
func c17encode(t *T) {
	rt, params, v := t.genASN1(typeOpts{true, true})
	want, werr := asn1.MarshalWithParams(v.Interface(), params)
	got, gerr := asn1andr.MarshalWithParams(v.Interface(), params)
	desc := typeString(rt, params)
	t.Note("type %s value %.500s", desc, fmt.Sprintf("%+v", v))
	t.Class("kind %v, error %v", rt.Kind(), werr != nil)
	if (werr != nil) != (gerr != nil) {
		t.Violate("Marshal of %s: error %v, encoding/asn1 has %v", desc, gerr, werr)
	}
	if !leafType(rt) || params != "" {
		t.NonTrivial(want, desc)
	}
	if werr != nil {
		if len(got) != 0 {
			t.Violate("Marshal of %s returns %x with an error", desc, got)
		}
		return
	}
	if !bytes.Equal(got, want) {
		if bytes.Equal(setsSorted(got), setsSorted(want)) {
			t.Class("unsorted set")
		} else {
			t.Violate("Marshal of %s gives %x, encoding/asn1 %x", desc, got, want)
		}
	}
	tail := t.Bytes("tail", 0, 3)
	in := cat(got, tail)
	keep := append([]byte(nil), in...)
	back, ref := reflect.New(rt), reflect.New(rt)
	rest, err := asn1andr.UnmarshalWithParams(in, back.Interface(), params)
	rrest, rerr := asn1.UnmarshalWithParams(in, ref.Interface(), params)
	if !bytes.Equal(in, keep) {
		t.Violate("Unmarshal of %s changed its input", desc)
	}
	if rerr != nil {
		// e.g. an absent optional element that the tail or the next element is mistaken for
		if err == nil {
			t.Class("reference rejects its own encoding")
			if !lenientASN1(rerr) {
				t.Violate("Unmarshal of %s accepts %x, encoding/asn1 says %v", desc, in, rerr)
			}
		}
		return
	}
	if err != nil {
		t.Violate("Unmarshal of its own encoding %x of %s fails: %v", in, desc, err)
		return
	}
	if !bytes.Equal(rest, rrest) {
		t.Violate("Unmarshal of %x as %s leaves %x, encoding/asn1 %x", in, desc, rest, rrest)
	}
	if d := (asnCmp{}).same(back.Elem(), ref.Elem()); d != "" {
		t.Violate("Unmarshal of %x as %s: %s", in, desc, d)
	}
	// the decoded value encodes to the same bytes, sets in the order given
	again, err := asn1andr.MarshalWithParams(back.Elem().Interface(), params)
	ragain, rerr := asn1.MarshalWithParams(ref.Elem().Interface(), params)
	if (err != nil) != (rerr != nil) {
		t.Violate("Marshal of the decoded %s: error %v, encoding/asn1 has %v", desc, err, rerr)
	}
	if err == nil && len(tail) == 0 {
		if !bytes.Equal(setsSorted(again), setsSorted(ragain)) {
			t.Violate("Marshal of the decoded %s gives %x, encoding/asn1 %x", desc, again, ragain)
		}
		if bytes.Equal(ragain, want) && bytes.Equal(got, want) && !bytes.Equal(again, got) {
			t.Violate("Marshal of the decoded %s gives %x, its first encoding was %x", desc, again, got)
		}
	}
	t.Sample("%s: %x", desc, got)
}

// lenientASN1 tells whether encoding/asn1 rejects the input for a reason that the lenient codec is meant to ignore.
func lenientASN1(err error) bool {
	s := err.Error()
	for _, m := range []string{"superfluous leading zeros in length", "non-minimal length", "non-minimal tag", "integer is not minimally encoded", "PrintableString contains invalid character", "invalid BMPString"} {
		if strings.Contains(s, m) {
			return true
		}
	}
	return false
}

// c17mutated: what encoding/asn1 accepts is accepted with the same value, and what it rejects for another reason than
// the documented deviations is rejected.
func c17mutated(t *T) {
	rt, params, v := t.genASN1(typeOpts{true, true})
	der, err := asn1.MarshalWithParams(v.Interface(), params)
	if err != nil || len(der) == 0 {
		der = t.genTLV(3)
	}
	if len(der) > 4000 {
		der = der[:4000]
	}
	var in []byte
	switch t.Uni("mut", 5) {
	case 4: // strings of other types
		in = t.retagStrings(der)
	case 0:
		in = t.mutBytes(der, 3)
	case 1: // another value's encoding
		_, p2, v2 := t.genASN1(typeOpts{true, true})
		in, _ = asn1.MarshalWithParams(v2.Interface(), p2)
		params = pick(t, "whichp", []string{params, p2, ""})
	default:
		in = t.mutDER(der, 3)
	}
	t.compareASN1(rt, params, in)
}

// retagStrings writes some of the strings (and now and then other things) as strings of another type.
func (t *T) retagStrings(der []byte) []byte {
	root, rest, ok := parseNode(der)
	if !ok || root == nil {
		return der
	}
	all := t.Pct("allstr", 50)
	tag := pick(t, "totag", []byte{0x0c, 0x12, 0x13, 0x14, 0x16, 0x1b, 0x1e, 0x1e, 0x1e, 0x1c, 0x04})
	one := t.Uni("onestr", 4)
	k := 0
	root.walk(func(n *node) {
		if n.constr || len(n.id) != 1 || (n.id[0] != 0x0c && n.id[0] != 0x13 && n.id[0] != 0x16 && n.id[0] != 0x12) {
			return
		}
		k++
		if !all && k-1 != one {
			return
		}
		n.id = []byte{tag}
		if tag == 0x1e { // mostly two octets a character
			var c []byte
			for _, b := range n.content {
				c = append(c, 0, b)
			}
			n.content = c
			if t.Pct("oddbmp", 10) {
				n.content = append(n.content, 'x')
			}
		}
	})
	t.Class("strings retagged %#x: %v", tag, k > 0)
	return append(root.encode(nil), rest...)
}

func (t *T) compareASN1(rt reflect.Type, params string, in []byte) {
	desc := typeString(rt, params)
	t.Attach("input", in)
	back, ref := reflect.New(rt), reflect.New(rt)
	var rest []byte
	var err error
	t.Guard("Unmarshal", in, func() { rest, err = asn1andr.UnmarshalWithParams(in, back.Interface(), params) })
	rrest, rerr := asn1.UnmarshalWithParams(in, ref.Interface(), params)
	t.Class("reference error %v", rerr != nil)
	if rerr == nil {
		t.NonTrivial(in, desc)
		if err != nil {
			// newer versions of encoding/asn1 know fractional seconds
			if bytes.IndexByte(in, '.') >= 0 && strings.Contains(err.Error(), "parsing time") {
				t.Class("fractional seconds")
				return
			}
			t.Violate("Unmarshal of %x as %s fails (%v), encoding/asn1 accepts it", in, desc, err)
			return
		}
		if !bytes.Equal(rest, rrest) {
			t.Violate("Unmarshal of %x as %s leaves %x, encoding/asn1 %x", in, desc, rest, rrest)
		}
		if d := (asnCmp{latin: bytes.IndexByte(in, 0x14) >= 0 || bytes.IndexByte(in, 0x1b) >= 0}).same(back.Elem(), ref.Elem()); d != "" {
			t.Violate("Unmarshal of %x as %s: %s", in, desc, d)
		}
		return
	}
	if lenientASN1(rerr) || strings.Contains(rerr.Error(), "invalid boolean") && hasAny(rt) {
		t.NonTrivial(in, desc)
		t.Class("lenient: %v", err == nil)
		return
	}
	if err == nil {
		t.Violate("Unmarshal accepts %x as %s, encoding/asn1 says %v", in, desc, rerr)
	}
}

func hasAny(rt reflect.Type) bool {
	switch {
	case rt == tAny:
		return true
	case rt == tTime:
	case rt.Kind() == reflect.Slice:
		return hasAny(rt.Elem())
	case rt.Kind() == reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if hasAny(rt.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// c17lenient: superfluous octets in lengths, tags and OID components, and unprintable characters change nothing.
func c17lenient(t *T) {
	rt, params, v := t.genASN1(typeOpts{t.Pct("raw?", 30), true})
	der, err := asn1andr.MarshalWithParams(v.Interface(), params)
	if err != nil || len(der) == 0 {
		t.Class("not encodable")
		return
	}
	if rest, rerr := asn1.UnmarshalWithParams(der, reflect.New(rt).Interface(), params); rerr != nil || len(rest) != 0 {
		t.Class("not decodable")
		return
	}
	root, rest, ok := parseNode(der)
	if !ok || len(rest) != 0 {
		t.Class("not a single element")
		return
	}
	root = root.clone()
	p := &prng{t.Seed("lenient")}
	kinds := t.Range("lkinds", 1, 15)
	changed := map[string]bool{}
	cmp := asnCmp{noRaw: true}
	var inStrict []func()
	root.walk(func(n *node) {
		if kinds&1 != 0 && n.id[0] == 6 && len(n.content) > 0 && p.n(2) == 0 {
			n.content = padOID(n.content, p)
			changed["oid"] = true
		}
		if kinds&2 != 0 && n.id[0] == 0x13 && len(n.content) > 0 && p.n(2) == 0 {
			// the strict form has a printable character in the place
			at := p.n(len(n.content))
			strict := append([]byte(nil), n.content...)
			strict[at] = 'x'
			n.content = append([]byte(nil), n.content...)
			n.content[at] = "\x00@_\xff\x1b\n~"[p.n(7)]
			inStrict = append(inStrict, func() { n.content = strict })
			changed["printable"], cmp.mask = true, true
		}
		if kinds&4 != 0 && p.n(3) == 0 {
			tag := int(n.id[0] & 0x1f)
			if tag < 0x1f {
				n.id = cat([]byte{n.id[0] | 0x1f}, bytes.Repeat([]byte{0x80}, p.n(4)), []byte{byte(tag)})
			} else if len(n.id) < 5 {
				n.id = cat(n.id[:1], bytes.Repeat([]byte{0x80}, 1+p.n(2)), n.id[1:])
			}
			changed["tag"] = true
		}
	})
	in := root.encode(func(n *node, l int) (bool, int) {
		if kinds&8 != 0 && p.n(2) == 0 {
			changed["length"] = true
			return false, 1 + p.n([]int{3, 8, 126}[p.n(3)])
		}
		return false, 0
	})
	if len(changed) == 0 {
		return
	}
	// the strict form
	for _, f := range inStrict {
		f()
	}
	ref := reflect.New(rt)
	if len(inStrict) > 0 {
		strict := mustNode(der).clone()
		copyStrings(strict, root)
		der = strict.encode(nil)
	}
	if _, rerr := asn1.UnmarshalWithParams(der, ref.Interface(), params); rerr != nil {
		t.Class("strict form not decodable")
		return
	}
	var what []string
	for k := range changed {
		what = append(what, k)
	}
	sort.Strings(what)
	desc := typeString(rt, params)
	t.Class("%v", what)
	t.NonTrivial(in, desc)
	t.Attach("input", in)
	tail := t.Bytes("tail", 0, 3)
	back := reflect.New(rt)
	got, err := asn1andr.UnmarshalWithParams(cat(in, tail), back.Interface(), params)
	if err != nil {
		t.Violate("Unmarshal of the lenient form (%v) %x of %x as %s fails: %v", what, in, der, desc, err)
		return
	}
	if !bytes.Equal(got, tail) {
		t.Violate("Unmarshal of the lenient form (%v) %x as %s leaves %x", what, in, desc, got)
	}
	if d := cmp.same(back.Elem(), ref.Elem()); d != "" {
		t.Violate("Unmarshal of the lenient form (%v) %x of %x as %s: %s", what, in, der, desc, d)
	}
	if cmp.mask {
		// the string itself comes out unchanged
		var s string
		b := tlv(0x13, bytes.Repeat([]byte("a\x00\x1b"), 1+p.n(4)), []byte{byte(p.n(256))})
		if _, err := asn1andr.Unmarshal(b, &s); err != nil || s != string(b[2:]) {
			t.Violate("PrintableString %x is read as %q, %v", b, s, err)
		}
	}
	t.Sample("%v of %s: %x", what, desc, in)
}

// copyStrings copies the PrintableStrings of a tree to another one of the same shape.
func copyStrings(to, from *node) {
	if to.id[0] == 0x13 {
		to.content = from.content
	}
	for i := range to.kids {
		copyStrings(to.kids[i], from.kids[i])
	}
}

// padOID puts leading zero groups into the components of an OID.
func padOID(c []byte, p *prng) []byte {
	var out []byte
	for i := 0; i < len(c); {
		j := i
		for j < len(c) && c[j]&0x80 != 0 {
			j++
		}
		j++
		if j > len(c) {
			j = len(c)
		}
		if k := 5 - (j - i); k > 0 && p.n(2) == 0 {
			out = append(out, bytes.Repeat([]byte{0x80}, 1+p.n(k))...)
		}
		out = append(out, c[i:j]...)
		i = j
	}
	return out
}

// c17truncated: an encoding cut short is rejected, as is one with another type's tag.
func c17truncated(t *T) {
	rt, params, v := t.genASN1(typeOpts{true, false})
	if rt == tRawV {
		params = ""
	}
	der, err := asn1.MarshalWithParams(v.Interface(), params)
	if err != nil || len(der) == 0 {
		t.Class("not encodable")
		return
	}
	if rest, err := asn1.UnmarshalWithParams(der, reflect.New(rt).Interface(), params); err != nil || len(rest) != 0 {
		t.Class("not decodable")
		return
	}
	desc := typeString(rt, params)
	opt := strings.Contains(params, "optional")
	cut := func(n int) {
		rest, err := asn1andr.UnmarshalWithParams(der[:n:n], reflect.New(rt).Interface(), params)
		if err == nil && !(opt && (n == 0 || len(rest) == n)) {
			t.Violate("Unmarshal accepts the first %d of the %d bytes %x as %s", n, len(der), der, desc)
		}
	}
	if len(der) <= 150 {
		for n := 0; n < len(der); n++ {
			cut(n)
		}
		t.Evals(len(der))
	} else {
		for i := 0; i < 40; i++ {
			cut(t.Uni("cut", len(der)))
		}
		t.Evals(40)
	}
	if rt != tRawV || params != "" {
		for i := 0; i < 10; i++ {
			in := append([]byte(nil), der...)
			in[0] ^= 1 << uint(t.Uni("tagbit", 8))
			if in[0]&0x1f == 0x1f {
				continue
			}
			_, rerr := asn1.UnmarshalWithParams(in, reflect.New(rt).Interface(), params)
			_, err := asn1andr.UnmarshalWithParams(in, reflect.New(rt).Interface(), params)
			if rerr != nil && !lenientASN1(rerr) && err == nil {
				t.Violate("Unmarshal accepts %x with the wrong tag as %s (encoding/asn1: %v)", in, desc, rerr)
			}
			if rerr == nil && err != nil && !bytes.Contains(in, []byte(".")) {
				t.Violate("Unmarshal rejects %x as %s: %v", in, desc, err)
			}
		}
		t.Evals(10)
	}
	t.NonTrivial(der, desc)
	t.Class("%v", rt.Kind())
	if !utf8.Valid(der) {
		t.Sample("%s: %x", desc, der)
	}
}

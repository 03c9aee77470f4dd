package main

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"hash/crc32"
	"sync"
)

// ---- ZIP writer (independent of archive/zip) ----

func u16(v uint16) []byte { return []byte{byte(v), byte(v >> 8)} }
func u32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
func u64(v uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b
}

// ZEntry is one file of a ZIP.
type ZEntry struct {
	Name       string
	Data       []byte
	Deflate    bool
	ExtAttrs   uint32
	Creator    byte
	LocalExtra []byte
	CDExtra    []byte
	Comment    []byte
	DataDesc   bool
	Time, Date uint16
	Pad        int // zero bytes after the data

	// overrides for malformed files
	NoCD bool

	LocalOff, DataOff, CompLen int // filled by Build
}

func (e *ZEntry) clone() *ZEntry { c := *e; return &c }

// ZipSpec describes a whole ZIP file without signing block.
type ZipSpec struct {
	Prefix    []byte
	Entries   []*ZEntry
	Align     int // contents are zero-padded to a multiple of this
	Comment   []byte
	CDOrder   []int // order of the central directory (nil: same)
	TailPad   int
	OffsetsOf int // subtracted from offsets stored in the CD and EOCD (unadjusted prefix)
}

func (z *ZipSpec) clone() *ZipSpec {
	c := *z
	c.Entries = make([]*ZEntry, len(z.Entries))
	for i, e := range z.Entries {
		c.Entries[i] = e.clone()
	}
	return &c
}

func (z *ZipSpec) find(name string) *ZEntry {
	for _, e := range z.Entries {
		if e.Name == name {
			return e
		}
	}
	return nil
}

// Sections of a ZIP as the signature schemes see them.
type Sections struct {
	Contents, CD, Comment []byte
	N                     int
	Shift                 int

	// for malformed files
	Gap     []byte              // between central directory and end record
	FixEOCD func([]byte) []byte // changes the end record
}

func deflate(b []byte) []byte {
	var buf bytes.Buffer
	w, _ := flate.NewWriter(&buf, 5)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

func (z *ZipSpec) Build() *Sections {
	var c bytes.Buffer
	c.Write(z.Prefix)
	cds := make([][]byte, len(z.Entries))
	for i, e := range z.Entries {
		data := e.Data
		method := uint16(0)
		if e.Deflate {
			data = deflate(e.Data)
			method = 8
		}
		e.CompLen = len(data)
		crc := crc32.ChecksumIEEE(e.Data)
		flags := uint16(0)
		lcrc, lcs, lus := crc, uint32(len(data)), uint32(len(e.Data))
		if e.DataDesc {
			flags |= 8
			lcrc, lcs, lus = 0, 0, 0
		}
		for k := 0; k < len(e.Name); k++ {
			if e.Name[k] >= 0x80 {
				flags |= 0x800
			}
		}
		e.LocalOff = c.Len()
		c.Write(cat([]byte("PK\x03\x04"), u16(20), u16(flags), u16(method), u16(e.Time), u16(e.Date), u32(lcrc), u32(lcs), u32(lus),
			u16(uint16(len(e.Name))), u16(uint16(len(e.LocalExtra))), []byte(e.Name), e.LocalExtra))
		e.DataOff = c.Len()
		c.Write(data)
		if e.DataDesc {
			c.Write(cat([]byte("PK\x07\x08"), u32(crc), u32(uint32(len(data))), u32(uint32(len(e.Data)))))
		}
		c.Write(make([]byte, e.Pad))
		cds[i] = cat([]byte("PK\x01\x02"), []byte{20, e.Creator}, u16(20), u16(flags), u16(method), u16(e.Time), u16(e.Date), u32(crc),
			u32(uint32(len(data))), u32(uint32(len(e.Data))), u16(uint16(len(e.Name))), u16(uint16(len(e.CDExtra))), u16(uint16(len(e.Comment))),
			u16(0), u16(0), u32(e.ExtAttrs), u32(uint32(e.LocalOff-z.OffsetsOf)), []byte(e.Name), e.CDExtra, e.Comment)
	}
	c.Write(make([]byte, z.TailPad))
	if z.Align > 0 {
		if r := c.Len() % z.Align; r != 0 {
			c.Write(make([]byte, z.Align-r))
		}
	}
	s := &Sections{Contents: c.Bytes(), Comment: z.Comment, Shift: z.OffsetsOf}
	order := z.CDOrder
	if len(order) != len(cds) {
		order = nil
		for i := range cds {
			order = append(order, i)
		}
	}
	for _, i := range order {
		if z.Entries[i].NoCD {
			continue
		}
		s.CD = append(s.CD, cds[i]...)
		s.N++
	}
	return s
}

// EOCD with the given central directory offset.
func (s *Sections) EOCD(cdOff int) []byte {
	b := cat([]byte("PK\x05\x06"), u16(0), u16(0), u16(uint16(s.N)), u16(uint16(s.N)), u32(uint32(len(s.CD))), u32(uint32(cdOff-s.Shift)),
		u16(uint16(len(s.Comment))), s.Comment)
	if s.FixEOCD != nil {
		b = s.FixEOCD(b)
	}
	return b
}

// Assemble joins the sections around a signing block (nil: none).
func (s *Sections) Assemble(block []byte) []byte {
	return cat(s.Contents, block, s.CD, s.Gap, s.EOCD(len(s.Contents)+len(block)))
}

// ---- binary AndroidManifest.xml ----

type axAttr struct {
	Name string
	Type byte   // 0x10 dec, 0x11 hex, 0x12 bool, 0x03 string
	Data uint32 // value; for strings the index is filled in
	Str  string
}

type axTag struct {
	Name  string
	Attrs []axAttr
	Kids  []*axTag
}

func axInt(name string, v int32) axAttr { return axAttr{Name: name, Type: 0x10, Data: uint32(v)} }
func axStr(name, v string) axAttr       { return axAttr{Name: name, Type: 3, Str: v} }

const androidNS = "http://schemas.android.com/apk/res/android"

// axml encodes a tag tree as Android binary XML.
func axml(root *axTag, utf8 bool) []byte {
	var strs []string
	idx := map[string]uint32{}
	str := func(s string) uint32 {
		if i, ok := idx[s]; ok {
			return i
		}
		idx[s] = uint32(len(strs))
		strs = append(strs, s)
		return idx[s]
	}
	const none = 0xffffffff
	var body []byte
	str("android")
	str(androidNS)
	chunk := func(id, hdr uint16, content ...[]byte) []byte {
		c := cat(content...)
		return cat(u16(id), u16(hdr), u32(uint32(len(c)+8)), c)
	}
	line := cat(u32(1), u32(none))
	body = append(body, chunk(0x0100, 16, line, u32(str("android")), u32(str(androidNS)))...)
	var rec func(t *axTag)
	rec = func(t *axTag) {
		var at []byte
		for _, a := range t.Attrs {
			ns := str(androidNS)
			raw := uint32(none)
			data := a.Data
			if a.Type == 3 {
				raw = str(a.Str)
				data = raw
			}
			at = append(at, cat(u32(ns), u32(str(a.Name)), u32(raw), u16(8), []byte{0, a.Type}, u32(data))...)
		}
		body = append(body, chunk(0x0102, 16, line, u32(none), u32(str(t.Name)), u16(20), u16(20), u16(uint16(len(t.Attrs))), u16(0), u16(0), u16(0), at)...)
		for _, k := range t.Kids {
			rec(k)
		}
		body = append(body, chunk(0x0103, 16, line, u32(none), u32(str(t.Name)))...)
	}
	rec(root)
	body = append(body, chunk(0x0101, 16, line, u32(str("android")), u32(str(androidNS)))...)

	var offs, data []byte
	for _, s := range strs {
		offs = append(offs, u32(uint32(len(data)))...)
		if utf8 {
			data = append(data, byte(len(s)), byte(len(s)))
			data = append(data, s...)
			data = append(data, 0)
		} else {
			data = append(data, u16(uint16(len(s)))...)
			for i := 0; i < len(s); i++ {
				data = append(data, s[i], 0)
			}
			data = append(data, 0, 0)
		}
	}
	for len(data)%4 != 0 {
		data = append(data, 0)
	}
	flags := uint32(0)
	if utf8 {
		flags = 0x100
	}
	st := chunk(0x0001, 28, u32(uint32(len(strs))), u32(0), u32(flags), u32(uint32(28+len(offs))), u32(0), offs, data)
	return chunk(0x0003, 8, st, body)
}

// Manifest values; nil = attribute absent.
type ManifestSpec struct {
	Min, Target, Sandbox *int32
	NoUsesSdk            bool
	AsString             bool
	UTF8                 bool
	Extra                int32 // versionCode, when set
	Decoy                int   // other tags with attributes of the same names
}

// manifestInfo is what a manifest says about platforms.
type manifestInfo struct{ Min, Target, Sandbox int32 }

// manifestInfos remembers every manifest that was encoded.
var (
	manifestInfos = map[string]manifestInfo{}
	manifestMu    sync.Mutex
)

func manifestMinOf(b []byte) int32 {
	manifestMu.Lock()
	defer manifestMu.Unlock()
	return manifestInfos[string(b)].Min
}

func manifestInfoOf(b []byte) (manifestInfo, bool) {
	manifestMu.Lock()
	defer manifestMu.Unlock()
	i, ok := manifestInfos[string(b)]
	return i, ok
}

func i32p(v int32) *int32 { return &v }

func itoa(v int32) string {
	if v < 0 {
		return "-" + itoa(-v)
	}
	if v < 10 {
		return string(rune('0' + v))
	}
	return itoa(v/10) + string(rune('0'+v%10))
}

func (m ManifestSpec) Encode() []byte {
	val := func(name string, v *int32) []axAttr {
		if v == nil {
			return nil
		}
		if m.AsString {
			return []axAttr{axStr(name, itoa(*v))}
		}
		return []axAttr{axInt(name, *v)}
	}
	root := &axTag{Name: "manifest", Attrs: append([]axAttr{axStr("package", "com.example.app"), axInt("versionCode", 7+m.Extra)}, val("targetSandboxVersion", m.Sandbox)...)}
	app := &axTag{Name: "application", Attrs: []axAttr{axStr("label", "x")}}
	if m.Decoy&1 != 0 {
		root.Kids = append(root.Kids, &axTag{Name: "uses-permission", Attrs: []axAttr{axInt("maxSdkVersion", 3), axInt("minSdkVersion", 31), axInt("targetSdkVersion", 32)}})
		app.Attrs = append(app.Attrs, axInt("targetSandboxVersion", 2), axInt("targetSdkVersion", 33))
	}
	if m.Decoy&2 != 0 {
		app.Kids = append(app.Kids, &axTag{Name: "uses-sdk-x", Attrs: []axAttr{axInt("minSdkVersion", 35), axInt("targetSdkVersion", 35)}})
		root.Kids = append(root.Kids, app)
	}
	if !m.NoUsesSdk && (m.Min != nil || m.Target != nil) {
		at := append(val("minSdkVersion", m.Min), val("targetSdkVersion", m.Target)...)
		if m.Decoy&4 != 0 {
			at = append([]axAttr{axInt("maxSdkVersion", 36)}, at...)
			at = append(at, axInt("minSdkVersionX", 37))
			if len(at) > 3 {
				at[1], at[2] = at[2], at[1]
			}
		}
		root.Kids = append(root.Kids, &axTag{Name: "uses-sdk", Attrs: at})
	}
	if m.Decoy&2 == 0 {
		root.Kids = append(root.Kids, app)
	}
	b := axml(root, m.UTF8)
	manifestMu.Lock()
	defer manifestMu.Unlock()
	i := manifestInfo{Min: 1, Sandbox: 1}
	if m.Sandbox != nil {
		i.Sandbox = *m.Sandbox
	}
	if !m.NoUsesSdk && (m.Min != nil || m.Target != nil) {
		if m.Min != nil {
			i.Min = *m.Min
		}
		i.Target = i.Min
		if m.Target != nil {
			i.Target = *m.Target
		}
	}
	manifestInfos[string(b)] = i
	return b
}

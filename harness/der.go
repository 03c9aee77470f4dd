package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---- DER writer (independent of encoding/asn1 and of the code under test) ----

func cat(parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	out := make([]byte, 0, n)
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func derLen(n int) []byte {
	if n < 128 {
		return []byte{byte(n)}
	}
	var b []byte
	for m := n; m > 0; m >>= 8 {
		b = append([]byte{byte(m)}, b...)
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

func tlv(tag byte, parts ...[]byte) []byte {
	c := cat(parts...)
	return cat([]byte{tag}, derLen(len(c)), c)
}
func dseq(parts ...[]byte) []byte { return tlv(0x30, parts...) }
func dset(parts ...[]byte) []byte { return tlv(0x31, parts...) }

// dsetSorted is a DER SET OF (elements in ascending order).
func dsetSorted(parts ...[]byte) []byte {
	p := append([][]byte(nil), parts...)
	sort.SliceStable(p, func(i, j int) bool { return string(p[i]) < string(p[j]) })
	return tlv(0x31, p...)
}
func doct(b []byte) []byte    { return tlv(0x04, b) }
func dbits(b []byte) []byte   { return tlv(0x03, []byte{0}, b) }
func dnull() []byte           { return []byte{5, 0} }
func dintRaw(b []byte) []byte { return tlv(0x02, b) }
func dint(v int64) []byte     { return dbig(big.NewInt(v)) }
func dbool(v bool) []byte {
	if v {
		return []byte{1, 1, 0xff}
	}
	return []byte{1, 1, 0}
}

// intContent is the two's complement content of an INTEGER.
func intContent(v *big.Int) []byte {
	if v.Sign() == 0 {
		return []byte{0}
	}
	if v.Sign() > 0 {
		b := v.Bytes()
		if b[0] >= 0x80 {
			b = append([]byte{0}, b...)
		}
		return b
	}
	n := uint(8)
	for {
		lim := new(big.Int).Lsh(big.NewInt(1), n-1)
		if new(big.Int).Neg(v).Cmp(lim) <= 0 {
			break
		}
		n += 8
	}
	m := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), n), v)
	b := m.Bytes()
	for len(b) < int(n/8) {
		b = append([]byte{0xff}, b...)
	}
	return b
}
func dbig(v *big.Int) []byte { return dintRaw(intContent(v)) }

func doid(s string) []byte {
	var ids []uint64
	for _, p := range strings.Split(s, ".") {
		v, err := strconv.ParseUint(p, 10, 64)
		if err != nil {
			panic(err)
		}
		ids = append(ids, v)
	}
	var c []byte
	put := func(v uint64) {
		b := []byte{byte(v & 0x7f)}
		for v >>= 7; v > 0; v >>= 7 {
			b = append([]byte{byte(v&0x7f) | 0x80}, b...)
		}
		c = append(c, b...)
	}
	put(ids[0]*40 + ids[1])
	for _, v := range ids[2:] {
		put(v)
	}
	return tlv(6, c)
}

// algID with NULL or absent or given parameters.
func algID(oid string, params []byte) []byte { return dseq(doid(oid), params) }

// ---- minimal DER/BER tree, used to re-encode and to mutate ----

type node struct {
	id       []byte // identifier octets
	kids     []*node
	constr   bool
	content  []byte // primitive
	openable bool
}

func parseNode(b []byte) (*node, []byte, bool) {
	if len(b) < 2 {
		return nil, nil, false
	}
	i := 1
	if b[0]&0x1f == 0x1f {
		for i < len(b) && b[i]&0x80 != 0 {
			i++
		}
		i++
	}
	if i >= len(b) {
		return nil, nil, false
	}
	id := b[:i]
	l := int(b[i])
	i++
	if l == 0x80 {
		return nil, nil, false
	}
	if l > 0x80 {
		k := l & 0x7f
		if k > 4 || i+k > len(b) {
			return nil, nil, false
		}
		l = 0
		for j := 0; j < k; j++ {
			l = l<<8 | int(b[i])
			i++
		}
	}
	if l < 0 || i+l > len(b) {
		return nil, nil, false
	}
	n := &node{id: id, constr: id[0]&0x20 != 0}
	c := b[i : i+l]
	if n.constr {
		for len(c) > 0 {
			k, rest, ok := parseNode(c)
			if !ok {
				return nil, nil, false
			}
			n.kids = append(n.kids, k)
			c = rest
		}
	} else {
		n.content = c
	}
	return n, b[i+l:], true
}

func mustNode(b []byte) *node {
	n, rest, ok := parseNode(b)
	if !ok || len(rest) != 0 {
		panic("mustNode: bad DER")
	}
	return n
}

func (n *node) walk(f func(*node)) {
	f(n)
	for _, k := range n.kids {
		k.walk(f)
	}
}

// encode writes the node; style chooses the length form of each node (nil = DER).
// style returns: indefinite, number of superfluous leading zero length octets, force long form
func (n *node) encode(style func(n *node, contentLen int) (indef bool, longBytes int)) []byte {
	var c []byte
	if n.constr {
		for _, k := range n.kids {
			c = append(c, k.encode(style)...)
		}
	} else {
		c = n.content
	}
	indef, long := false, 0
	if style != nil {
		indef, long = style(n, len(c))
	}
	if indef && n.constr {
		return cat(n.id, []byte{0x80}, c, []byte{0, 0})
	}
	if long > 0 {
		need := 1
		for m := len(c) >> 8; m > 0; m >>= 8 {
			need++
		}
		if long < need {
			long = need
		}
		lb := make([]byte, long)
		for i, v := long-1, len(c); i >= 0; i-- {
			lb[i] = byte(v)
			v >>= 8
		}
		return cat(n.id, []byte{0x80 | byte(long)}, lb, c)
	}
	return cat(n.id, derLen(len(c)), c)
}

// find returns the first node for which f holds.
func (n *node) find(f func(*node) bool) *node {
	if f(n) {
		return n
	}
	for _, k := range n.kids {
		if r := k.find(f); r != nil {
			return r
		}
	}
	return nil
}

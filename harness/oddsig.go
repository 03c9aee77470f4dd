package main

import (
	"crypto"
	"math/big"
)

// oddSignature makes, with the right private key, what is close to a signature of data but is none: a verifier that
// takes it accepts more than the algorithm defines, often something that can be made without the key.
func (t *T) oddSignature(k *Key, h crypto.Hash, pss bool, data []byte) (sig []byte, what string) {
	d := hashOf(h, data)
	otherHash := func() crypto.Hash {
		for {
			if o := pick(t, "odd.hash", []crypto.Hash{crypto.SHA1, crypto.SHA224, crypto.SHA256, crypto.SHA384, crypto.SHA512}); o != h {
				return o
			}
		}
	}
	if k.Kind != "rsa" {
		q := k.order()
		trunc := func(d []byte) []byte {
			if k.Kind == "dsa" {
				return dsaTrunc(k.DSA, d)
			}
			return d
		}
		sign := func(d []byte) (r, s *big.Int) {
			if k.Kind == "ec" {
				return signEC(k.EC, d)
			}
			return signDSA(k.DSA, trunc(d))
		}
		r, s := sign(d)
		switch t.Uni("odd", 8) {
		case 0:
			s.Add(s, q)
			what = "s not reduced"
		case 1:
			r.Add(r, q)
			what = "r not reduced"
		case 2:
			s.Neg(s)
			what = "s negative"
		case 3:
			r.Neg(r)
			what = "r negative"
		case 4:
			r, s = s, r
			what = "r and s swapped"
		case 5:
			r, s = sign(hashOf(otherHash(), data))
			what = "made with another hash"
		case 6:
			r, s = sign(hashOf(h, d))
			what = "hashed twice"
		default:
			s.SetInt64(0)
			if t.Pct("odd.r", 50) {
				r.Set(q)
			}
			what = "s = 0"
		}
		return dseq(dbig(r), dbig(s)), what
	}

	n := (k.RSA.N.BitLen() + 7) / 8
	if pss && t.Pct("odd.pss", 80) {
		max := (k.RSA.N.BitLen()-1+7)/8 - h.Size() - 2
		for _, l := range []int{pick(t, "odd.salt", []int{0, 1, 16, 20, 28, 32, 48, 64, h.Size() - 1, h.Size() + 1, max}), 0} {
			if l <= max && l != h.Size() {
				return signPSS(k.RSA, h, d, l), "salt of another length"
			}
		}
	}
	block := func(typ byte, pad byte, body []byte, trailing []byte) []byte {
		em := make([]byte, n)
		em[1] = typ
		end := n - len(body) - 1 - len(trailing)
		for i := 2; i < end; i++ {
			em[i] = pad
		}
		if end < 0 {
			return nil
		}
		copy(em[end+1:], body)
		copy(em[end+1+len(body):], trailing)
		return rsaPriv(k.RSA, em)
	}
	di := func(h crypto.Hash, d []byte) []byte { return dseq(algID(pkcs1Prefix[h], dnull()), doct(d)) }
	info := di(h, d)
	switch t.Uni("odd", 9) {
	case 0:
		sig, what = block(2, 0x55, info, nil), "padding of an encryption"
	case 1:
		sig, what = block(0, 0, info, nil), "padded with zeros"
	case 2:
		if room := n - len(info) - 3 - 8; room > 0 {
			sig, what = block(1, 0xff, info, bulk(t.Seed("odd.tail"), t.Range("odd.n", 1, room))), "something after the digest"
		}
	case 3:
		o := otherHash()
		sig, what = signPKCS1(k.RSA, o, hashOf(o, data)), "made with another hash"
	case 4:
		sig, what = block(1, 0xff, d, nil), "digest without its algorithm"
	case 5:
		if o := otherHash(); o.Size() == h.Size() || true {
			sig, what = block(1, 0xff, di(o, d), nil), "digest named after another hash"
		}
	case 6:
		sig, what = block(1, 0xff, di(h, hashOf(h, d)), nil), "hashed twice"
	case 7:
		sig, what = block(1, 0xff, dseq(algID(pkcs1Prefix[h], dnull()), doct(d), dint(1)), nil), "more than a digest in the signature"
	default:
		s := new(big.Int).SetBytes(signPKCS1(k.RSA, h, d))
		if pss {
			s.SetBytes(signPSS(k.RSA, h, d, h.Size()))
		}
		s.Add(s, k.RSA.N)
		sig, what = s.Bytes(), "not reduced"
	}
	if pss && what != "not reduced" {
		what = "not PSS: " + what
	}
	if sig == nil {
		return make([]byte, n), "zero"
	}
	return
}

// order is the order of the group that an EC or DSA key works in.
func (k *Key) order() *big.Int {
	if k.Kind == "ec" {
		return k.EC.Curve.Params().N
	}
	return k.DSA.Q
}

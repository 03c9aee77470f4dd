package main

import (
	"crypto"
	"fmt"
	"math/big"
	"sync"
)

type nameAttr struct {
	OID string
	Tag byte
	Val []byte
}

// Name is a list of RDNs.
type Name [][]nameAttr

const (
	oidCN = "2.5.4.3"
	oidC  = "2.5.4.6"
	oidL  = "2.5.4.7"
	oidST = "2.5.4.8"
	oidO  = "2.5.4.10"
	oidOU = "2.5.4.11"
)

func (n Name) DER() []byte {
	var rdns [][]byte
	for _, r := range n {
		var av [][]byte
		for _, a := range r {
			av = append(av, dseq(doid(a.OID), tlv(a.Tag, a.Val)))
		}
		rdns = append(rdns, dsetSorted(av...))
	}
	return dseq(rdns...)
}

func cnName(cn string) Name {
	return Name{
		{{oidC, 0x13, []byte("CZ")}},
		{{oidO, 0x0c, []byte("Harness")}},
		{{oidCN, 0x0c, []byte(cn)}},
	}
}

type CertSpec struct {
	Serial              []byte // INTEGER content octets
	Issuer, Subject     []byte // DER names
	NotBefore, NotAfter []byte // DER times
	SPKI                []byte
	SignKey             *Key
	Hash                crypto.Hash
	Exts                [][]byte
	V1                  bool
}

var sigOIDs = map[string]map[crypto.Hash]string{
	"rsa": {crypto.MD5: "1.2.840.113549.1.1.4", crypto.SHA1: "1.2.840.113549.1.1.5", crypto.SHA224: "1.2.840.113549.1.1.14",
		crypto.SHA256: "1.2.840.113549.1.1.11", crypto.SHA384: "1.2.840.113549.1.1.12", crypto.SHA512: "1.2.840.113549.1.1.13"},
	"ec": {crypto.SHA1: "1.2.840.10045.4.1", crypto.SHA224: "1.2.840.10045.4.3.1", crypto.SHA256: "1.2.840.10045.4.3.2",
		crypto.SHA384: "1.2.840.10045.4.3.3", crypto.SHA512: "1.2.840.10045.4.3.4"},
	"dsa": {crypto.SHA1: "1.2.840.10040.4.3", crypto.SHA224: "2.16.840.1.101.3.4.3.1", crypto.SHA256: "2.16.840.1.101.3.4.3.2"},
}

func sigAlgDER(kind string, h crypto.Hash) []byte {
	if kind == "rsa" {
		return algID(sigOIDs[kind][h], dnull())
	}
	return algID(sigOIDs[kind][h], nil)
}

func utcTime(s string) []byte { return tlv(0x17, []byte(s)) }
func genTime(s string) []byte { return tlv(0x18, []byte(s)) }

func (c *CertSpec) TBS() []byte {
	var ver, exts []byte
	if !c.V1 {
		ver = tlv(0xa0, dint(2))
	}
	if len(c.Exts) > 0 {
		exts = tlv(0xa3, dseq(c.Exts...))
	}
	return dseq(ver, dintRaw(c.Serial), sigAlgDER(c.SignKey.Kind, c.Hash), c.Issuer, dseq(c.NotBefore, c.NotAfter), c.Subject, c.SPKI, exts)
}

func (c *CertSpec) DER() []byte {
	tbs := c.TBS()
	return dseq(tbs, sigAlgDER(c.SignKey.Kind, c.Hash), dbits(c.SignKey.SignHash(c.Hash, tbs)))
}

func defaultCert(k *Key, cn string, serial int64) *CertSpec {
	n := cnName(cn).DER()
	h := crypto.SHA256
	return &CertSpec{Serial: intContent(big.NewInt(serial)), Issuer: n, Subject: n,
		NotBefore: utcTime("150101000000Z"), NotAfter: utcTime("450101000000Z"), SPKI: k.SPKI, SignKey: k, Hash: h}
}

// ---- certificate pool (made once per process, deterministic) ----

var (
	certMu    sync.Mutex
	certCache = map[string][]byte{}
)

func cached(key string, f func() []byte) []byte {
	certMu.Lock()
	b, ok := certCache[key]
	certMu.Unlock()
	if ok {
		return b
	}
	b = f()
	certMu.Lock()
	certCache[key] = b
	certMu.Unlock()
	return b
}

// selfCert is a self-signed certificate of k; variant changes name and serial.
func selfCert(k *Key, variant int) []byte {
	return cached(fmt.Sprintf("self/%s/%d", k.Name, variant), func() []byte {
		return defaultCert(k, fmt.Sprintf("%s v%d", k.Name, variant), int64(1000+variant*77)+int64(len(k.Name))).DER()
	})
}

// issuedCert is a certificate of k issued by parent (subject names as in selfCert(parent, pv)).
func issuedCert(k *Key, variant int, parent *Key, parentVariant int) []byte {
	return cached(fmt.Sprintf("iss/%s/%d/%s/%d", k.Name, variant, parent.Name, parentVariant), func() []byte {
		c := defaultCert(k, fmt.Sprintf("%s leaf%d", k.Name, variant), int64(5000+variant*31))
		c.Issuer = cnName(fmt.Sprintf("%s v%d", parent.Name, parentVariant)).DER()
		c.SignKey = parent
		return c.DER()
	})
}

// interCert is like issuedCert, with the subject name of selfCert(k, variant): it can issue certificates itself.
func interCert(k *Key, variant int, parent *Key, parentVariant int) []byte {
	return cached(fmt.Sprintf("inter/%s/%d/%s/%d", k.Name, variant, parent.Name, parentVariant), func() []byte {
		c := defaultCert(k, fmt.Sprintf("%s v%d", k.Name, variant), int64(9000+variant*31))
		c.Issuer = cnName(fmt.Sprintf("%s v%d", parent.Name, parentVariant)).DER()
		c.SignKey = parent
		return c.DER()
	})
}

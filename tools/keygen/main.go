// Command keygen writes ../../harness/keys_gen.go: the fixed private keys the
// harness signs with. It was run once; its output is committed.
package main

import (
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"fmt"
	"os"
)

func main() {
	f, _ := os.Create("../../harness/keys_gen.go")
	defer f.Close()
	fmt.Fprintf(f, "// Code generated by tools/keygen; DO NOT EDIT.\n// Test keys only: nothing outside this harness trusts them.\n\npackage main\n\nvar rsaKeyData = []struct{ name, pkcs1 string }{\n")
	for _, s := range []struct {
		bits, n int
	}{{1024, 6}, {2048, 4}, {3072, 1}, {4096, 1}, {1031, 1}} {
		for i := 0; i < s.n; i++ {
			k, err := rsa.GenerateKey(rand.Reader, s.bits)
			if err != nil {
				panic(err)
			}
			fmt.Fprintf(f, "\t{%q, %q},\n", fmt.Sprintf("rsa%d-%c", s.bits, 'a'+i), base64.StdEncoding.EncodeToString(x509.MarshalPKCS1PrivateKey(k)))
		}
	}
	fmt.Fprintf(f, "}\n\nvar ecKeyData = []struct{ name, sec1 string }{\n")
	for _, s := range []struct {
		c elliptic.Curve
		n int
	}{{elliptic.P256(), 6}, {elliptic.P384(), 2}, {elliptic.P521(), 2}, {elliptic.P224(), 1}} {
		for i := 0; i < s.n; i++ {
			k, err := ecdsa.GenerateKey(s.c, rand.Reader)
			if err != nil {
				panic(err)
			}
			b, err := x509.MarshalECPrivateKey(k)
			if err != nil {
				panic(err)
			}
			fmt.Fprintf(f, "\t{%q, %q},\n", fmt.Sprintf("ec%d-%c", s.c.Params().BitSize, 'a'+i), base64.StdEncoding.EncodeToString(b))
		}
	}
	fmt.Fprintf(f, "}\n\nvar dsaKeyData = []struct{ name, p, q, g, y, x string }{\n")
	for _, s := range []struct {
		sz   dsa.ParameterSizes
		name string
		n    int
	}{{dsa.L1024N160, "dsa1024q160", 2}, {dsa.L2048N224, "dsa2048q224", 1}, {dsa.L2048N256, "dsa2048q256", 2}, {dsa.L3072N256, "dsa3072q256", 1}} {
		for i := 0; i < s.n; i++ {
			var k dsa.PrivateKey
			if err := dsa.GenerateParameters(&k.Parameters, rand.Reader, s.sz); err != nil {
				panic(err)
			}
			if err := dsa.GenerateKey(&k, rand.Reader); err != nil {
				panic(err)
			}
			fmt.Fprintf(f, "\t{%q,\n\t\t%q,\n\t\t%q,\n\t\t%q,\n\t\t%q,\n\t\t%q},\n", fmt.Sprintf("%s-%c", s.name, 'a'+i), k.P.Text(16), k.Q.Text(16), k.G.Text(16), k.Y.Text(16), k.X.Text(16))
		}
	}
	fmt.Fprintf(f, "}\n")
}

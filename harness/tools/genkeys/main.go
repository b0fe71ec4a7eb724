// genkeys writes gen/keys_data.go: the fixed key pairs of the harness. Run once; the output is committed.
package main

import (
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"fmt"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	fmt.Println("package gen\n\n// Generated once by tools/genkeys; fixed test keys.\nvar rawKeys = []rawKey{")
	put := func(name string, k any) {
		b, err := x509.MarshalPKCS8PrivateKey(k)
		must(err)
		fmt.Printf("\t{name: %q, pkcs8: %q},\n", name, base64.StdEncoding.EncodeToString(b))
	}
	for i := 0; i < 10; i++ {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		put(fmt.Sprintf("ec256-%d", i), k)
	}
	for n, c := range map[string]elliptic.Curve{"ec224-0": elliptic.P224(), "ec384-0": elliptic.P384(), "ec521-0": elliptic.P521()} {
		k, err := ecdsa.GenerateKey(c, rand.Reader)
		must(err)
		put(n, k)
	}
	for _, bits := range []int{1024, 2048} {
		for i := 0; i < 3; i++ {
			k, err := rsa.GenerateKey(rand.Reader, bits)
			must(err)
			put(fmt.Sprintf("rsa%d-%d", bits, i), k)
		}
	}
	for _, sz := range []struct {
		n string
		s dsa.ParameterSizes
		c int
	}{{"dsa1024", dsa.L1024N160, 2}, {"dsa2048", dsa.L2048N256, 1}, {"dsa2048q224", dsa.L2048N224, 1}} {
		var p dsa.Parameters
		must(dsa.GenerateParameters(&p, rand.Reader, sz.s))
		for i := 0; i < sz.c; i++ {
			k := &dsa.PrivateKey{}
			k.Parameters = p
			must(dsa.GenerateKey(k, rand.Reader))
			fmt.Printf("\t{name: \"%s-%d\", p: %q, q: %q, g: %q, y: %q, x: %q},\n", sz.n, i, p.P.Text(16), p.Q.Text(16), p.G.Text(16), k.Y.Text(16), k.X.Text(16))
		}
	}
	fmt.Println("}")
}

//verif:dir proxy

package proxy

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/pem"
	"math/big"
	mrand "math/rand"
	"net/http"
	"net/url"
	"strings"
	"testing"
)

// vParseXFCC is a parser that honours quotes and backslashes.
func vParseXFCC(s string) (fields [][2]string, ok bool) {
	i := 0
	for {
		j := strings.IndexByte(s[i:], '=')
		if j < 0 {
			return nil, false
		}
		key := s[i : i+j]
		i += j + 1
		var v []byte
		quoted := i < len(s) && s[i] == '"'
		if quoted {
			i++
		}
		for {
			if i >= len(s) {
				if quoted {
					return nil, false
				}
				break
			}
			c := s[i]
			if c == '\\' {
				if i+1 >= len(s) {
					return nil, false
				}
				v = append(v, s[i+1])
				i += 2
				continue
			}
			if c == '"' {
				if !quoted {
					return nil, false
				}
				i++
				quoted = false
				if i < len(s) && s[i] != ';' && s[i] != ',' {
					return nil, false
				}
				break
			}
			if !quoted && (c == ';' || c == ',') {
				break
			}
			if !quoted && c == '=' {
				return nil, false
			}
			v = append(v, c)
			i++
		}
		fields = append(fields, [2]string{key, string(v)})
		if i >= len(s) {
			return fields, true
		}
		i++
	}
}

func TestVerifC29(t *testing.T) {
	r := mrand.New(mrand.NewSource(1))
	alpha := []string{`"`, `\`, ",", ";", "=", "a", "Hash=0", "/", "+", "#", " ", "<", "é", "%"}
	str := func() string {
		var b strings.Builder
		for n := r.Intn(7); n > 0; n-- {
			b.WriteString(alpha[r.Intn(len(alpha))])
		}
		return b.String()
	}
	for k := 0; k < 100000; k++ {
		s := str()
		if k%500 == 0 {
			s += strings.Repeat("a", 1<<r.Intn(17)) + `"` + str()
		}
		f, ok := vParseXFCC("K=" + encodeXFCC(s) + ";Z=1")
		if !ok || len(f) != 2 || f[0] != [2]string{"K", s} || f[1] != [2]string{"Z", "1"} {
			t.Fatalf("VIOLATION C29: %q is encoded as %q, which is read back as %q", s, encodeXFCC(s), f)
		}
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	mk := func() *x509.Certificate {
		tmpl := &x509.Certificate{
			SerialNumber: big.NewInt(r.Int63()),
			Subject:      pkix.Name{CommonName: str(), Organization: []string{str(), str()}, OrganizationalUnit: []string{str()}},
		}
		for n := r.Intn(3); n > 0; n-- {
			tmpl.URIs = append(tmpl.URIs, &url.URL{Scheme: "spiffe", Host: "example.com", Path: "/x" + strings.ToValidUTF8(str(), "")})
		}
		for n := r.Intn(3); n > 0; n-- {
			tmpl.DNSNames = append(tmpl.DNSNames, "a"+strings.ReplaceAll(str(), "é", "e"))
		}
		b, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, key.Public(), key)
		if err != nil {
			t.Fatal(err)
		}
		c, err := x509.ParseCertificate(b)
		if err != nil {
			// The parser refuses some names. The header is what matters.
			c = tmpl
			c.Raw = b
		}
		return c
	}
	names := []string{"cert", "chain", "hash", "subject", "uri", "dns", "Hash", "DNS", "URI"}
	for k := 0; k < 700; k++ {
		leaf, ca, ca2 := mk(), mk(), mk()
		req := &http.Request{
			Header: http.Header{"X-Other": {"x"}},
			TLS:    &tls.ConnectionState{PeerCertificates: []*x509.Certificate{leaf, ca}, VerifiedChains: [][]*x509.Certificate{{leaf, ca}, {leaf, ca, ca2}}},
		}
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		which := names[:1+r.Intn(len(names))]
		addXFCCHeader(req, which)
		var got string
		for h, v := range req.Header {
			switch {
			case strings.EqualFold(h, "x-forwarded-client-cert") && len(v) == 1:
				got = v[0]
			case h != "X-Other":
				t.Fatalf("VIOLATION C29: header %q is set to %q", h, v)
			}
		}
		var want [][2]string
		enc := func(cs ...*x509.Certificate) string {
			var b bytes.Buffer
			for _, c := range cs {
				pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: c.Raw})
			}
			return b.String()
		}
		for _, w := range which {
			switch strings.ToLower(w) {
			case "cert":
				want = append(want, [2]string{"Cert", enc(leaf)})
			case "chain":
				for _, ch := range req.TLS.VerifiedChains {
					want = append(want, [2]string{"Chain", enc(ch...)})
				}
			case "hash":
				h := sha256.Sum256(leaf.Raw)
				want = append(want, [2]string{"Hash", hex.EncodeToString(h[:])})
			case "subject":
				want = append(want, [2]string{"Subject", ""})
			case "uri":
				for _, u := range leaf.URIs {
					want = append(want, [2]string{"URI", u.String()})
				}
			case "dns":
				for _, n := range leaf.DNSNames {
					want = append(want, [2]string{"DNS", n})
				}
			}
		}
		var fields [][2]string
		if got != "" {
			var ok bool
			if fields, ok = vParseXFCC(got); !ok {
				t.Fatalf("VIOLATION C29: header cannot be read: %q", got)
			}
		}
		if len(fields) != len(want) {
			t.Fatalf("VIOLATION C29: subject %q, uri %v, dns %q: header %q has fields %q, want %q", leaf.Subject, leaf.URIs, leaf.DNSNames, got, fields, want)
		}
		for i, f := range fields {
			v := f[1]
			if f[0] != "Subject" && f[0] != "Hash" {
				var err error
				if v, err = url.QueryUnescape(v); err != nil {
					t.Fatalf("VIOLATION C29: field %q: %v", f, err)
				}
			}
			if f[0] != want[i][0] || (f[0] != "Subject" && v != want[i][1]) {
				t.Fatalf("VIOLATION C29: field %d is %q, want %q (header %q)", i, f, want[i], got)
			}
		}
	}
}

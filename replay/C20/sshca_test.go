//verif:dir proxy/internal/sshca

package sshca

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"crypto/rand"
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ssh"
)

func TestVerifC20(t *testing.T) {
	mk, err := crypto.CreateAESMasterKeyForTest()
	if err != nil {
		t.Fatal(err)
	}
	var claims jwt.MapClaims
	ca, err := New(Options{Name: "test", Store: storage.New(t.TempDir(), mk), ClaimsFromCtx: func(context.Context) jwt.MapClaims { return claims }})
	if err != nil {
		t.Fatal(err)
	}
	key := func() ssh.PublicKey {
		pub, _, _ := ed25519.GenerateKey(rand.Reader)
		k, _ := ssh.NewPublicKey(pub)
		return k
	}
	k1, k2 := key(), key()
	marshal := ssh.MarshalAuthorizedKey
	for _, cl := range []jwt.MapClaims{nil, {}, {"email": ""}, {"email": 5}, {"email": "a@example.com"}, {"email": "Bob+x@Example.COM", "name": "root", "sub": "root"},
		{"sub": "a@example.com"}, {"email": []string{"root"}}, {"email": "root"}, {"email": "a,b@example.com"}, {"email": "x@example.com", "preferred_username": "y", "groups": []string{"admin"}}} {
		for _, method := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "post", ""} {
			for _, hdr := range []http.Header{
				{"X-Csrf-Check": {"1"}, "Content-Type": {"text/plain"}},
				{"X-Csrf-Check": {"1"}, "Content-Type": {"text/plain"}, "X-Http-Method-Override": {"POST"}, "X-Http-Method": {"POST"}},
				{"X-Csrf-Check": {"1"}, "Content-Type": {"text/plain"}, "X-Lifetime": {"1000h"}, "X-Principal": {"root"}, "X-Email": {"root"}},
				{"Content-Type": {"text/plain"}}, {"X-Csrf-Check": {"1"}},
			} {
				for bi, body := range [][]byte{
					marshal(k1), append(marshal(k1), marshal(k2)...), append([]byte("# comment\n"), marshal(k1)...),
					append([]byte("cert-authority,principals=\"root\" "), marshal(k1)...), append(bytes.TrimSpace(marshal(k1)), []byte(" root@host\n")...),
					nil, []byte("junk"),
				} {
					for _, query := range []string{"", "?principal=root&email=root&validity=1000h&ttl=90000"} {
						claims = cl
						req := httptest.NewRequest("POST", "/cert"+query, bytes.NewReader(body))
						req.Method = method
						req.Header = hdr.Clone()
						w := httptest.NewRecorder()
						before := time.Now()
						ca.ServeCertificate(w, req)
						after := time.Now()
						email, _ := cl["email"].(string)
						desc := fmt.Sprintf("%q request %v%s by %v, body %d", method, hdr, query, cl, bi)
						pk, _, _, _, err := ssh.ParseAuthorizedKey(w.Body.Bytes())
						cert, ok := pk.(*ssh.Certificate)
						if err != nil || !ok {
							if w.Code == 200 || method == "POST" && email != "" && bi < 5 && len(hdr) > 1 {
								t.Fatalf("VIOLATION C20: %s: no certificate (%d %q)", desc, w.Code, w.Body.String())
							}
							continue
						}
						if method != "POST" || email == "" {
							t.Fatalf("VIOLATION C20: %s: a certificate was issued", desc)
						}
						if cert.CertType != ssh.UserCert || len(cert.ValidPrincipals) != 1 || cert.ValidPrincipals[0] != email || cert.KeyId != email {
							t.Fatalf("VIOLATION C20: %s: certificate type %d for %q (%s)", desc, cert.CertType, cert.ValidPrincipals, cert.KeyId)
						}
						if !bytes.Equal(cert.Key.Marshal(), k1.Marshal()) {
							t.Fatalf("VIOLATION C20: %s: certificate of another key", desc)
						}
						if int64(cert.ValidBefore) > after.Add(10*time.Minute).Unix() || cert.ValidBefore == ssh.CertTimeInfinity || int64(cert.ValidBefore) < before.Unix() {
							t.Fatalf("VIOLATION C20: %s: valid until %d, now is %d", desc, cert.ValidBefore, after.Unix())
						}
						if !bytes.Equal(cert.SignatureKey.Marshal(), ca.signer.PublicKey().Marshal()) {
							t.Fatalf("VIOLATION C20: %s: not signed by the CA", desc)
						}
					}
				}
			}
		}
	}
}

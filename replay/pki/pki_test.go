//verif:dir proxy/internal/pki

package pki

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ocsp"
)

type verifLogger struct{}

func (verifLogger) Errorf(string, ...any) {}

type verifPKI struct {
	*PKIManager
	t    *testing.T
	dir  string
	user string
	no   bool // no e-mail claim at all
	key  *ecdsa.PrivateKey
}

func verifNew(t *testing.T) *verifPKI {
	v := &verifPKI{t: t, dir: t.TempDir()}
	mk, err := scrypto.CreateAESMasterKeyForTest()
	if err != nil {
		t.Fatal(err)
	}
	if v.key, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader); err != nil {
		t.Fatal(err)
	}
	opts := Options{
		Name:     "verif",
		Endpoint: "https://pki.example.com",
		Store:    storage.New(v.dir, mk),
		Admins:   []string{"admin@example.com"},
		Logger:   verifLogger{},
		ClaimsFromCtx: func(context.Context) jwt.MapClaims {
			if v.no {
				a := "admin@example.com"
				return jwt.MapClaims{"sub": a, "name": a, "preferred_username": a, "upn": a, "username": a, "nickname": a}
			}
			return jwt.MapClaims{"email": v.user}
		},
	}
	if v.PKIManager, err = New(opts); err != nil {
		t.Fatal(err)
	}
	return v
}

// reload is what the next start of the program finds.
func (v *verifPKI) reload() *PKIManager {
	m, err := New(v.opts)
	if err != nil {
		v.t.Fatal(err)
	}
	return m
}

func (v *verifPKI) post(user, query, ct string, body []byte) *httptest.ResponseRecorder {
	v.user = user
	req := httptest.NewRequest("POST", "https://pki.example.com/?"+query, bytes.NewReader(body))
	req.Header.Set("content-type", ct)
	req.Header.Set("x-csrf-check", "1")
	w := httptest.NewRecorder()
	v.ServeCertificateManagement(w, req)
	return w
}

func (v *verifPKI) csr(templ *x509.CertificateRequest) []byte {
	raw, err := x509.CreateCertificateRequest(rand.Reader, templ, v.key)
	if err != nil {
		v.t.Fatal(err)
	}
	return raw
}

func (v *verifPKI) request(user string, csr []byte) *x509.Certificate {
	w := v.post(user, "get=requestCert", "application/x-pem-file", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: csr}))
	if w.Code != http.StatusOK {
		return nil
	}
	var res struct{ Cert string }
	if json.Unmarshal(w.Body.Bytes(), &res) != nil {
		return nil
	}
	b, _ := pem.Decode([]byte(res.Cert))
	if b == nil {
		return nil
	}
	c, err := x509.ParseCertificate(b.Bytes)
	if err != nil {
		v.t.Fatal(err)
	}
	return c
}

func TestVerifC18(t *testing.T) {
	v := verifNew(t)
	uri, _ := url.Parse("spiffe://example.com/admin")
	yes, _ := asn1.Marshal(struct {
		IsCA bool
	}{true})
	for i, templ := range []*x509.CertificateRequest{
		{},
		{Subject: pkix.Name{CommonName: "laptop"}},
		{Subject: pkix.Name{CommonName: "admin@example.com", ExtraNames: []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 1}, Value: "admin@example.com"}}}},
		{EmailAddresses: []string{"admin@example.com"}, URIs: []*url.URL{uri}, IPAddresses: []net.IP{{127, 0, 0, 1}}},
		{DNSNames: []string{"www.example.com", "b.example.com"}},
		{ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 19}, Critical: true, Value: yes}}},
		{ExtraExtensions: []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 15}, Critical: true, Value: []byte{3, 2, 1, 6}}}},
	} {
		ca, err := v.CACert()
		if err != nil {
			t.Fatal(err)
		}
		before := time.Now().Add(-time.Second)
		c := v.request("bob@example.com", v.csr(templ))
		if c == nil {
			t.Fatalf("%d: refused", i)
		}
		if err := c.CheckSignatureFrom(ca); err != nil {
			t.Fatalf("%d: %v", i, err)
		}
		if c.IsCA || !c.BasicConstraintsValid || c.KeyUsage&(x509.KeyUsageCertSign|x509.KeyUsageCRLSign) != 0 {
			t.Fatalf("%d: not a leaf: %v %v", i, c.IsCA, c.KeyUsage)
		}
		if c.NotAfter.Sub(c.NotBefore) > 10*366*24*time.Hour || c.NotBefore.Before(before) {
			t.Fatalf("%d: valid from %s to %s", i, c.NotBefore, c.NotAfter)
		}
		if len(c.EmailAddresses) != 1 || c.EmailAddresses[0] != "bob@example.com" || len(c.URIs) != 0 || len(c.IPAddresses) != 0 {
			t.Fatalf("%d: names %q %q %q", i, c.EmailAddresses, c.URIs, c.IPAddresses)
		}
		if cn := c.Subject.CommonName; cn != "bob@example.com" && !strings.HasPrefix(cn, "bob@example.com::") {
			t.Fatalf("%d: subject %q", i, cn)
		}
		for _, n := range c.Subject.Names {
			if n.Type.String() == "1.2.840.113549.1.9.1" {
				t.Fatalf("%d: e-mail in the subject: %v", i, n.Value)
			}
		}
		if k, ok := c.PublicKey.(*ecdsa.PublicKey); !ok || !k.Equal(v.key.Public()) {
			t.Fatalf("%d: another public key", i)
		}
		found := false
		for _, r := range v.reload().db.IssuedCerts {
			if bytes.Equal(r.Raw, c.Raw) && r.SerialNumber == bytesToHex(c.SerialNumber.Bytes()) {
				found = true
			}
		}
		if !found {
			t.Fatalf("%d: not recorded", i)
		}
	}
	good := v.csr(&x509.CertificateRequest{DNSNames: []string{"a.example.com"}})
	for i := range good {
		bad := append([]byte(nil), good...)
		bad[i] ^= 1
		if in, err := x509.ParseCertificateRequest(bad); err != nil || in.CheckSignature() == nil {
			continue
		}
		if c := v.request("bob@example.com", bad); c != nil {
			t.Fatalf("request with a bad signature (byte %d) was granted", i)
		}
	}
	if c := v.request("", good); c != nil {
		t.Fatal("certificate for a user without an e-mail address")
	}
	v.no = true
	if c := v.request("", good); c != nil {
		t.Fatal("certificate for a user without an e-mail claim")
	}
}

// The certificate is not returned when it cannot be saved.
func TestVerifC18NotSaved(t *testing.T) {
	v := verifNew(t)
	templ := &x509.Certificate{SerialNumber: big.NewInt(77), PublicKey: v.key.Public(), NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour)}
	raw, err := v.signCertificate(templ, func(*certificate) error {
		if err := os.RemoveAll(v.dir); err != nil {
			t.Fatal(err)
		}
		return os.WriteFile(v.dir, nil, 0o600)
	})
	if err == nil || raw != nil {
		t.Fatal("a certificate that was not saved was returned")
	}
}

func (v *verifPKI) ocsp(c *x509.Certificate, f func(*ocsp.Request)) int {
	ca, err := v.CACert()
	if err != nil {
		v.t.Fatal(err)
	}
	raw, err := ocsp.CreateRequest(c, ca, nil)
	if err != nil {
		v.t.Fatal(err)
	}
	req, err := ocsp.ParseRequest(raw)
	if err != nil {
		v.t.Fatal(err)
	}
	if f != nil {
		f(req)
	}
	if raw, err = v.OCSPResponse(req); err != nil {
		return -1
	}
	resp, err := ocsp.ParseResponse(raw, nil)
	if err != nil {
		return -1
	}
	if resp.SerialNumber.Cmp(req.SerialNumber) != 0 {
		v.t.Fatalf("answer about %s, asked about %s", resp.SerialNumber, req.SerialNumber)
	}
	return resp.Status
}

func (v *verifPKI) crl() *x509.RevocationList {
	_, crl, err := v.RevocationList()
	if err != nil {
		v.t.Fatal(err)
	}
	rl, err := x509.ParseRevocationList(crl)
	if err != nil {
		v.t.Fatal(err)
	}
	if !rl.NextUpdate.After(time.Now()) {
		v.t.Fatalf("list was to be updated at %s", rl.NextUpdate)
	}
	return rl
}

func (v *verifPKI) check(what string, revoked bool, c *x509.Certificate) {
	v.t.Helper()
	if got := v.IsRevoked(c.SerialNumber); got != revoked {
		v.t.Fatalf("%s: IsRevoked = %v", what, got)
	}
	if got := v.reload().IsRevoked(c.SerialNumber); got != revoked {
		v.t.Fatalf("%s: IsRevoked after a restart = %v", what, got)
	}
	if got := v.ocsp(c, nil); (got == ocsp.Good) == revoked {
		v.t.Fatalf("%s: OCSP status %d", what, got)
	}
	listed := false
	for _, e := range v.crl().RevokedCertificateEntries {
		listed = listed || e.SerialNumber.Cmp(c.SerialNumber) == 0
	}
	if listed != revoked {
		v.t.Fatalf("%s: in the revocation list: %v", what, listed)
	}
}

func TestVerifC19Revocation(t *testing.T) {
	v := verifNew(t)
	var certs []*x509.Certificate
	for i := 0; i < 5; i++ {
		certs = append(certs, v.request("bob@example.com", v.csr(&x509.CertificateRequest{Subject: pkix.Name{CommonName: fmt.Sprint(i)}})))
	}
	v.crl()
	// Any order, any reason, with lists made in between.
	rev := map[int]bool{}
	for n, i := range []int{3, 0, 4, 1} {
		if err := v.RevokeCertificate(certs[i].SerialNumber, []int{RevokeReasonUnspecified, RevokeReasonRemoveFromCRL, RevokeReasonCertificateHold, RevokeReasonKeyCompromise}[n]); err != nil {
			t.Fatal(err)
		}
		rev[i] = true
		for j := range certs {
			v.check(fmt.Sprintf("after %d, certificate %d", i, j), rev[j], certs[j])
		}
	}
	unknown := *certs[0]
	for _, n := range []int64{0, 1, 1 << 40} {
		unknown.SerialNumber = big.NewInt(n)
		if v.ocsp(&unknown, nil) == ocsp.Good {
			t.Fatalf("unknown serial number %d is good", n)
		}
		if v.RevokeCertificate(unknown.SerialNumber, 0) == nil {
			t.Fatalf("unknown serial number %d was revoked", n)
		}
	}
	if v.ocsp(certs[2], func(r *ocsp.Request) { r.IssuerNameHash[0] ^= 1 }) == ocsp.Good || v.ocsp(certs[2], func(r *ocsp.Request) { r.IssuerKeyHash[0] ^= 1 }) == ocsp.Good {
		t.Fatal("a certificate of another issuer is good")
	}
}

// A list that is about to need an update is not served, and one that has an
// entry for a certificate that is about to expire still has it.
func TestVerifC19List(t *testing.T) {
	v := verifNew(t)
	sn := big.NewInt(4711)
	if _, err := v.signCertificate(&x509.Certificate{SerialNumber: sn, PublicKey: v.key.Public(), NotBefore: time.Now(), NotAfter: time.Now().Add(10 * time.Minute)}, nil); err != nil {
		t.Fatal(err)
	}
	if err := v.RevokeCertificate(sn, 0); err != nil {
		t.Fatal(err)
	}
	if l := v.crl().RevokedCertificateEntries; len(l) != 1 || l[0].SerialNumber.Cmp(sn) != 0 {
		t.Fatalf("not listed: %v", l)
	}
	for _, left := range []time.Duration{-time.Hour, -time.Second, 0} {
		sign, err := v.db.DelegateCerts[0].parse()
		if err != nil {
			t.Fatal(err)
		}
		key, err := v.parseKeyBytes(v.db.DelegateKey)
		if err != nil {
			t.Fatal(err)
		}
		old, err := x509.CreateRevocationList(rand.Reader, &x509.RevocationList{
			Issuer:                    sign.Subject,
			Number:                    big.NewInt(1),
			ThisUpdate:                time.Now().Add(left - crlRefreshPeriod),
			NextUpdate:                time.Now().Add(left),
			RevokedCertificateEntries: []x509.RevocationListEntry{{SerialNumber: sn, RevocationTime: time.Now()}},
		}, sign, key.(crypto.Signer))
		if err != nil {
			t.Fatal(err)
		}
		commit, err := v.open()
		if err != nil {
			t.Fatal(err)
		}
		v.db.RevocationLists = append(v.db.RevocationLists, revocationList{RawCert: sign.Raw, RawCRL: old})
		if err := commit(true, nil); err != nil {
			t.Fatal(err)
		}
		v.crl()
	}
}

func TestVerifC19Authorised(t *testing.T) {
	v := verifNew(t)
	cert := func() *x509.Certificate {
		return v.request("bob@example.com", v.csr(&x509.CertificateRequest{Subject: pkix.Name{CommonName: "laptop"}}))
	}
	c := cert()
	sn := bytesToHex(c.SerialNumber.Bytes())
	for _, user := range []string{"", "eve@example.com", "bob@example.co", "bob@example.com.au", "b", "bob", "@example.com", "example.com", "dmin@example.com", "admin@example.co", "bob@example.com::laptop"} {
		for _, q := range []string{"", "&admin=1", "&admin=true", "&admin="} {
			v.post(user, "get=revokeCert&sn="+sn+q, "application/json", nil)
			if v.IsRevoked(c.SerialNumber) {
				t.Fatalf("%q revoked the certificate with %q", user, q)
			}
		}
	}
	v.post("bob@example.com", "get=revokeCert&sn="+sn, "application/json", nil)
	v.check("owner", true, c)
	c = cert()
	v.post("admin@example.com", "get=revokeCert&admin=1&sn="+bytesToHex(c.SerialNumber.Bytes()), "application/json", nil)
	v.check("administrator", true, c)
}

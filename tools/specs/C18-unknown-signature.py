id='C18-unknown-signature'; prop='C18'; pkg='proxy/internal/pki'
edits=[('proxy/internal/pki/pki.go', '\tif err := cr.CheckSignature(); err != nil {\n', '\tif err := cr.CheckSignature(); err != nil && cr.SignatureAlgorithm != x509.UnknownSignatureAlgorithm {\n')]
demo='\npackage pki\n\nimport (\n\t"bytes"\n\t"context"\n\t"crypto"\n\t"crypto/ecdsa"\n\t"crypto/elliptic"\n\t"crypto/rand"\n\t"crypto/x509"\n\t"crypto/x509/pkix"\n\t"encoding/asn1"\n\t"encoding/json"\n\t"encoding/pem"\n\t"fmt"\n\t"math/big"\n\t"net"\n\t"net/http"\n\t"net/http/httptest"\n\t"net/url"\n\t"os"\n\t"strings"\n\t"testing"\n\t"time"\n\n\t"github.com/c2FmZQ/storage"\n\tscrypto "github.com/c2FmZQ/storage/crypto"\n\tjwt "github.com/golang-jwt/jwt/v5"\n\t"golang.org/x/crypto/ocsp"\n)\n\ntype demoLogger struct{}\n\nfunc (demoLogger) Errorf(string, ...any) {}\n\ntype demoPKI struct {\n\t*PKIManager\n\tt    *testing.T\n\tdir  string\n\tuser string\n\tno   bool // no e-mail claim at all\n\tkey  *ecdsa.PrivateKey\n}\n\nfunc demoNew(t *testing.T) *demoPKI {\n\tv := &demoPKI{t: t, dir: t.TempDir()}\n\tmk, err := scrypto.CreateAESMasterKeyForTest()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif v.key, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader); err != nil {\n\t\tt.Fatal(err)\n\t}\n\topts := Options{\n\t\tName:     "demo",\n\t\tEndpoint: "https://pki.example.com",\n\t\tStore:    storage.New(v.dir, mk),\n\t\tAdmins:   []string{"admin@example.com"},\n\t\tLogger:   demoLogger{},\n\t\tClaimsFromCtx: func(context.Context) jwt.MapClaims {\n\t\t\tif v.no {\n\t\t\t\treturn jwt.MapClaims{"sub": "x"}\n\t\t\t}\n\t\t\treturn jwt.MapClaims{"email": v.user}\n\t\t},\n\t}\n\tif v.PKIManager, err = New(opts); err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn v\n}\n\n// reload is what the next start of the program finds.\nfunc (v *demoPKI) reload() *PKIManager {\n\tm, err := New(v.opts)\n\tif err != nil {\n\t\tv.t.Fatal(err)\n\t}\n\treturn m\n}\n\nfunc (v *demoPKI) post(user, query, ct string, body []byte) *httptest.ResponseRecorder {\n\tv.user = user\n\treq := httptest.NewRequest("POST", "https://pki.example.com/?"+query, bytes.NewReader(body))\n\treq.Header.Set("content-type", ct)\n\treq.Header.Set("x-csrf-check", "1")\n\tw := httptest.NewRecorder()\n\tv.ServeCertificateManagement(w, req)\n\treturn w\n}\n\nfunc (v *demoPKI) csr(templ *x509.CertificateRequest) []byte {\n\traw, err := x509.CreateCertificateRequest(rand.Reader, templ, v.key)\n\tif err != nil {\n\t\tv.t.Fatal(err)\n\t}\n\treturn raw\n}\n\nfunc (v *demoPKI) request(user string, csr []byte) *x509.Certificate {\n\tw := v.post(user, "get=requestCert", "application/x-pem-file", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: csr}))\n\tif w.Code != http.StatusOK {\n\t\treturn nil\n\t}\n\tvar res struct{ Cert string }\n\tif json.Unmarshal(w.Body.Bytes(), &res) != nil {\n\t\treturn nil\n\t}\n\tb, _ := pem.Decode([]byte(res.Cert))\n\tif b == nil {\n\t\treturn nil\n\t}\n\tc, err := x509.ParseCertificate(b.Bytes)\n\tif err != nil {\n\t\tv.t.Fatal(err)\n\t}\n\treturn c\n}\n\nfunc (v *demoPKI) ocsp(c *x509.Certificate, f func(*ocsp.Request)) int {\n\tca, err := v.CACert()\n\tif err != nil {\n\t\tv.t.Fatal(err)\n\t}\n\traw, err := ocsp.CreateRequest(c, ca, nil)\n\tif err != nil {\n\t\tv.t.Fatal(err)\n\t}\n\treq, err := ocsp.ParseRequest(raw)\n\tif err != nil {\n\t\tv.t.Fatal(err)\n\t}\n\tif f != nil {\n\t\tf(req)\n\t}\n\tif raw, err = v.OCSPResponse(req); err != nil {\n\t\treturn -1\n\t}\n\tresp, err := ocsp.ParseResponse(raw, nil)\n\tif err != nil {\n\t\treturn -1\n\t}\n\tif resp.SerialNumber.Cmp(req.SerialNumber) != 0 {\n\t\tv.t.Fatalf("answer about %s, asked about %s", resp.SerialNumber, req.SerialNumber)\n\t}\n\treturn resp.Status\n}\n\nfunc (v *demoPKI) crl() *x509.RevocationList {\n\t_, crl, err := v.RevocationList()\n\tif err != nil {\n\t\tv.t.Fatal(err)\n\t}\n\trl, err := x509.ParseRevocationList(crl)\n\tif err != nil {\n\t\tv.t.Fatal(err)\n\t}\n\tif !rl.NextUpdate.After(time.Now()) {\n\t\tv.t.Fatalf("list was to be updated at %s", rl.NextUpdate)\n\t}\n\treturn rl\n}\n\nfunc (v *demoPKI) check(what string, revoked bool, c *x509.Certificate) {\n\tv.t.Helper()\n\tif got := v.IsRevoked(c.SerialNumber); got != revoked {\n\t\tv.t.Fatalf("%s: IsRevoked = %v", what, got)\n\t}\n\tif got := v.reload().IsRevoked(c.SerialNumber); got != revoked {\n\t\tv.t.Fatalf("%s: IsRevoked after a restart = %v", what, got)\n\t}\n\tif got := v.ocsp(c, nil); (got == ocsp.Good) == revoked {\n\t\tv.t.Fatalf("%s: OCSP status %d", what, got)\n\t}\n\tlisted := false\n\tfor _, e := range v.crl().RevokedCertificateEntries {\n\t\tlisted = listed || e.SerialNumber.Cmp(c.SerialNumber) == 0\n\t}\n\tif listed != revoked {\n\t\tv.t.Fatalf("%s: in the revocation list: %v", what, listed)\n\t}\n}\n\n\nvar (\n\t_ = crypto.SHA256\n\t_ = asn1.Marshal\n\t_ = fmt.Sprint\n\t_ net.IP\n\t_ *url.URL\n\t_ = os.Remove\n\t_ = strings.Repeat\n\t_ = big.NewInt\n\t_ pkix.Name\n\t_ time.Time\n\t_ ocsp.Request\n)\n\nfunc TestDemo(t *testing.T) {\n\tv := demoNew(t)\n\tder := v.csr(&x509.CertificateRequest{DNSNames: []string{"a.example.com"}})\n\tfor i := range der {\n\t\tbad := append([]byte(nil), der...)\n\t\tbad[i] ^= 1\n\t\tif in, err := x509.ParseCertificateRequest(bad); err != nil || in.CheckSignature() == nil {\n\t\t\tcontinue\n\t\t}\n\t\tif v.request("bob@example.com", bad) != nil {\n\t\t\tt.Fatalf("a request with a bad signature was granted (byte %d)", i)\n\t\t}\n\t}\n}\n'
needs='A certificate request with a signature algorithm that is not known.'
breaks='The signature of such a request is not checked at all.'

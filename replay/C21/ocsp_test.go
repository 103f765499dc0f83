//verif:dir proxy/internal/ocspcache

package ocspcache

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"
	"golang.org/x/crypto/ocsp"
)

type verifLog struct{}

func (verifLog) Errorf(string, ...any)        {}
func (verifLog) Fatalf(f string, args ...any) { panic(fmt.Sprintf(f, args...)) }

type verifCA struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
}

var verifSerial atomic.Int64

func verifCert(t *testing.T, ca *verifCA, name string, isCA bool, servers ...string) *verifCA {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	templ := &x509.Certificate{
		SerialNumber: big.NewInt(1000 + verifSerial.Add(1)), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		BasicConstraintsValid: true, IsCA: isCA, OCSPServer: servers,
		KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
	}
	parent, signer := templ, key
	if ca != nil {
		parent, signer = ca.cert, ca.key
	}
	raw, err := x509.CreateCertificate(rand.Reader, templ, parent, key.Public(), signer)
	if err != nil {
		t.Fatal(err)
	}
	c, err := x509.ParseCertificate(raw)
	if err != nil {
		t.Fatal(err)
	}
	return &verifCA{c, key}
}

func TestVerifC21(t *testing.T) {
	mk, err := scrypto.CreateAESMasterKeyForTest()
	if err != nil {
		t.Fatal(err)
	}
	store := storage.New(t.TempDir(), mk)

	// The responders. The last element of the path is what they do; the first
	// one names the certificates' authority.
	cas := map[string]*verifCA{}
	var other *verifCA
	answer := func(ca *verifCA, serial *big.Int, what string) []byte {
		now := time.Now().Truncate(time.Second)
		r := ocsp.Response{Status: ocsp.Good, SerialNumber: serial, ThisUpdate: now.Add(-2 * time.Hour), NextUpdate: now.Add(time.Hour)}
		signer := ca
		switch what {
		case "revoked":
			r.Status, r.RevokedAt = ocsp.Revoked, now.Add(-time.Hour)
		case "unknown":
			r.Status = ocsp.Unknown
		case "expired":
			r.NextUpdate = now.Add(-time.Minute)
		case "soon":
			r.NextUpdate = now.Add(2 * time.Second)
		case "nonext":
			r.NextUpdate = time.Time{}
		case "otherserial":
			r.SerialNumber = new(big.Int).Add(serial, big.NewInt(7))
		case "othersigner":
			signer = other
		case "trylater":
			return ocsp.TryLaterErrorResponse
		}
		b, err := ocsp.CreateResponse(signer.cert, signer.cert, r, crypto.Signer(signer.key))
		if err != nil {
			t.Error(err)
		}
		return b
	}
	mode := map[string]string{}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		p := strings.Split(strings.Trim(req.URL.Path, "/"), "/")
		what := p[1]
		if m, ok := mode[what]; ok {
			what = m
		}
		body, _ := io.ReadAll(req.Body)
		oreq, err := ocsp.ParseRequest(body)
		if err != nil {
			w.WriteHeader(http.StatusBadRequest)
			return
		}
		switch what {
		case "500":
			w.WriteHeader(http.StatusInternalServerError)
		case "junk":
			io.WriteString(w, "junk")
		case "empty":
		default:
			w.Write(answer(cas[p[0]], oreq.SerialNumber, what))
		}
	}))
	defer srv.Close()
	root := verifCert(t, nil, "root", true)
	other = verifCert(t, nil, "other", true)
	cas["root"] = root
	u := func(ca, what string) string {
		switch what {
		case "badurl":
			return "http://[::1"
		case "down":
			return "http://127.0.0.1:1/"
		case "ldap":
			return "ldap://example.com/"
		}
		return srv.URL + "/" + ca + "/" + what
	}
	whats := []string{"good", "revoked", "unknown", "expired", "nonext", "otherserial", "othersigner", "trylater", "500", "junk", "empty", "badurl", "down", "ldap"}
	good := map[string]bool{"good": true, "nonext": true, "soon": true}
	// may: there is a good answer about the certificate at some responder.
	may := func(servers []string) bool {
		for _, s := range servers {
			if good[s] {
				return true
			}
		}
		return len(servers) == 0
	}
	urls := func(ca string, l []string) (r []string) {
		for _, s := range l {
			r = append(r, u(ca, s))
		}
		return
	}
	var lists [][]string
	lists = append(lists, nil)
	for _, a := range whats {
		lists = append(lists, []string{a})
	}
	for _, l := range []string{"down badurl", "badurl down", "unknown 500", "500 unknown", "unknown badurl", "otherserial expired", "badurl badurl", "expired unknown", "revoked badurl", "unknown otherserial"} {
		lists = append(lists, strings.Fields(l))
	}
	check := func(c *OCSPCache, chains [][]*x509.Certificate, stapled []byte, ok bool, what string) {
		t.Helper()
		err, pan := func() (err error, pan any) {
			defer func() { pan = recover() }()
			return c.VerifyChains(chains, stapled), nil
		}()
		if pan != nil {
			t.Errorf("%s: panic %v", what, pan)
		} else if err == nil && !ok {
			t.Errorf("%s: the chain passes without a current good answer about each of its certificates", what)
		}
	}
	chainOf := func(l ...*verifCA) (r []*x509.Certificate) {
		for _, c := range l {
			r = append(r, c.cert)
		}
		return
	}
	for i, leafL := range lists {
		for j, intL := range [][]string{nil, {"good"}, {"revoked"}, {"unknown"}, {"badurl"}, {"expired"}} {
			if j > 1 && i%4 != 1 {
				continue
			}
			name := fmt.Sprintf("int%d-%d", i, j)
			in := verifCert(t, root, name, true, urls("root", intL)...)
			cas[name] = in
			leaf := verifCert(t, in, "leaf", false, urls(name, leafL)...)
			what := fmt.Sprintf("leaf %v, intermediate %v", leafL, intL)
			c := New(store, verifLog{})
			chain := chainOf(leaf, in, root)
			ok := may(leafL) && may(intL)
			check(c, [][]*x509.Certificate{chain}, nil, ok, what)
			check(c, [][]*x509.Certificate{chain}, nil, ok, what+", again")
			// the answers for a certificate without a server
			if len(leafL) == 0 {
				if r, err := c.Response(leaf.cert, in.cert, 0); err == nil && r == nil {
					t.Errorf("%s: no response and no error", what)
				}
			}
			// a second chain
			check(c, [][]*x509.Certificate{chain, chainOf(leaf, in, root)}, nil, ok, what+", two chains")
			// stapled
			for _, st := range []string{"expired", "otherserial", "othersigner", "unknown", "revoked"} {
				c := New(store, verifLog{})
				check(c, [][]*x509.Certificate{chain}, answer(in, leaf.cert.SerialNumber, st), ok, what+", stapled "+st)
			}
			c = New(store, verifLog{})
			check(c, [][]*x509.Certificate{chain}, answer(in, leaf.cert.SerialNumber, "good"), may(intL), what+", stapled good")
		}
	}

	// Two chains for the same certificate.
	a := verifCert(t, root, "a", true, urls("root", []string{"revoked"})...)
	b := verifCert(t, root, "b", true, urls("root", []string{"unknown"})...)
	g := verifCert(t, root, "g", true, urls("root", []string{"good"})...)
	lf := verifCert(t, a, "lf", false)
	check(New(store, verifLog{}), [][]*x509.Certificate{chainOf(lf, a, root), chainOf(lf, b, root)}, nil, false, "two bad chains")
	check(New(store, verifLog{}), [][]*x509.Certificate{chainOf(lf, a, root), chainOf(lf, g, b, root)}, nil, false, "bad chain, half good chain")
	check(New(store, verifLog{}), [][]*x509.Certificate{chainOf(lf, g, a, root), chainOf(lf, b, root)}, nil, false, "half good chain, bad chain")

	// Answers run out, and certificates do not share them.
	cas["g"] = g
	l1 := verifCert(t, g, "l1", false, u("g", "l1"))
	l2 := verifCert(t, g, "l1", false, u("g", "l2"))
	mode["l1"], mode["l2"] = "soon", "revoked"
	c := New(store, verifLog{})
	c1, c2 := [][]*x509.Certificate{chainOf(l1, g, root)}, [][]*x509.Certificate{chainOf(l2, g, root)}
	check(c, c1, nil, true, "first")
	check(c, c2, nil, false, "another certificate of the issuer")
	mode["l1"] = "revoked"
	check(c, c2, nil, false, "another certificate of the issuer")
	if err := c.flush(); err != nil {
		t.Fatal(err)
	}
	l3 := verifCert(t, g, "l3", false, u("g", "l3"))
	mode["l3"] = "revoked"
	r := New(store, verifLog{}) // restarted
	check(r, c2, nil, false, "another certificate of the issuer, after a restart")
	check(r, [][]*x509.Certificate{chainOf(l3, g, root)}, nil, false, "another certificate of the issuer, after a restart")
	time.Sleep(2100 * time.Millisecond)
	for _, m := range []string{"500", "junk", "expired", "trylater", "unknown"} {
		mode["l1"] = m
		check(c, c1, nil, false, "an answer past its next update in the cache, "+m)
	}
	mode["l1"] = "revoked"
	check(c, c1, nil, false, "an answer past its next update")
	check(r, c1, nil, false, "an answer past its next update, after a restart")
	check(New(store, verifLog{}), c1, nil, false, "an answer past its next update, after a restart")
}

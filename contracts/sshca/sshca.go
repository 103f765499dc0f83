//verif:package proxy/internal/sshca

package sshca

import (
	"context"
	"io"
	"net/http"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ssh"
)

// SSH user certificates (property C20).

var (
	g_req    *http.Request
	g_method string
	g_claims jwt.MapClaims
	g_start  time.Time

	g_key    ssh.PublicKey    // the key in the request
	g_signed *ssh.Certificate // the certificate that was signed
	g_out    string           // its encoding
	g_hasOut bool
)

// The identity of the request.
//
//verif:model field:github.com/c2FmZQ/tlsproxy/proxy/internal/sshca.Options.ClaimsFromCtx
func v_model_claims(ctx context.Context) jwt.MapClaims {
	if ctx == g_req.Context() {
		return g_claims
	}
	return v_havoc[jwt.MapClaims]()
}

// The body of the request, up to a limit.
type v_limited struct {
	io.ReadCloser
	r io.Reader
}

//verif:model net/http.MaxBytesReader
func v_model_maxBytes(w http.ResponseWriter, r io.ReadCloser, n int64) io.ReadCloser {
	l := v_new[v_limited]()
	l.r = r
	return l
}

//verif:model io.ReadAll
func v_model_readAll(r io.Reader) ([]byte, error) {
	if l, ok := r.(*io.LimitedReader); ok {
		r = l.R
	}
	if l, ok := r.(*v_limited); ok {
		r = l.r
	}
	data, err := v_havoc[string](), v_havoc[error]()
	if err == nil && any(r) == any(g_req.Body) {
		g_key = v_parsed(data)
	}
	return []byte(data), err
}

func v_parsed(s string) ssh.PublicKey { return v_pure[ssh.PublicKey]("parsedKey", s) }

//verif:model golang.org/x/crypto/ssh.ParseAuthorizedKey
func v_model_parse(in []byte) (out ssh.PublicKey, comment string, options []string, rest []byte, err error) {
	if v_havoc[bool]() {
		return nil, "", nil, nil, v_err()
	}
	k := v_parsed(string(in))
	v_assume(k != nil)
	return k, v_havoc[string](), v_havoc[[]string](), v_havoc[[]byte](), nil
}

// v_email: the verified e-mail of the user.
func v_email() string {
	if g_claims == nil {
		return ""
	}
	e, _ := g_claims["email"].(string)
	return e
}

// The CA signs.
//
//verif:model (*golang.org/x/crypto/ssh.Certificate).SignCert
func v_model_sign(c *ssh.Certificate, rand io.Reader, authority ssh.Signer) error {
	now := v_now()
	v_assert("C20.request", g_method == http.MethodPost && v_email() != "")
	v_assert("C20.principal", c.CertType == ssh.UserCert && len(c.ValidPrincipals) == 1 && c.ValidPrincipals[0] == v_email() && c.KeyId == v_email())
	v_assert("C20.key", c.Key == g_key && g_key != nil)
	v_assert("C20.lifetime", c.ValidBefore <= uint64(now.Add(10*time.Minute).Unix()) && c.ValidAfter <= c.ValidBefore)
	if v_havoc[bool]() {
		return v_err()
	}
	g_signed = c
	return nil
}

//verif:model golang.org/x/crypto/ssh.MarshalAuthorizedKey
func v_model_marshal(key ssh.PublicKey) []byte {
	out := v_havoc[[]byte]()
	if c, ok := key.(*ssh.Certificate); ok && c == g_signed {
		g_out, g_hasOut = string(out), true
	}
	return out
}

// What is returned with a good status is the certificate that was signed.
//
//verif:model (net/http.ResponseWriter).Write
func v_model_write(w http.ResponseWriter, b []byte) (int, error) {
	v_assert("C20.returned", g_signed != nil && g_hasOut && string(b) == g_out)
	return v_havoc[int](), v_havoc[error]()
}

//verif:contract (*SSHCA).ServeCertificate
//verif:covers C20.request C20.principal C20.key C20.lifetime C20.returned
func spec_ServeCertificate(ca *SSHCA, w http.ResponseWriter, req *http.Request) func() {
	v_requires(ca != nil && w != nil && req != nil && req.Body != nil && req.Header != nil)
	_, lim := req.Body.(*v_limited) // a type that exists only here
	v_requires(!lim)
	g_req, g_method, g_signed, g_hasOut = req, req.Method, nil, false
	g_claims = v_havoc[jwt.MapClaims]()
	g_key = nil
	return func() {}
}

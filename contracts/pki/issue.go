//verif:package proxy/internal/pki

package pki

import (
	"crypto/x509"
	"io"
	"math/big"
	"net/http"
	"strings"
)

// Certificates for users (property C18).

var (
	g_issue  bool                     // a certificate is issued to a user
	g_cr     *x509.CertificateRequest // for this request
	g_keyOf  []byte                   // the key in use is made from this
	g_keyGot any
	g_email  string                   // the user
	g_in     *x509.CertificateRequest // what the user sent
	g_inSig  bool                     // its signature is good
)

//verif:model crypto/rand.Int
func v_model_randInt(r io.Reader, max *big.Int) (*big.Int, error) {
	if v_havoc[bool]() {
		return nil, v_err()
	}
	n := v_havoc[*big.Int]()
	v_assume(n != nil)
	return n, nil
}

//verif:contract (*PKIManager).IssueCertificate
//verif:covers C18.leaf C18.lifetime C18.names C18.key C18.ca C18.recorded C19.durable
func spec_IssueCertificate(m *PKIManager, cr *x509.CertificateRequest) func(cert []byte, err error) {
	v_requires(m != nil && cr != nil)
	g_m, g_open, g_saved, g_issue, g_cr, g_keyOf = m, false, false, true, cr, nil
	return func(cert []byte, err error) {
		v_ensures("C18.recorded", v_imp(err == nil, g_saved && v_same(cert, g_last)))
	}
}

//verif:model crypto/x509.ParseCertificateRequest
func v_model_parseCSR(der []byte) (*x509.CertificateRequest, error) {
	if v_havoc[bool]() {
		return nil, v_err()
	}
	g_in, g_inSig = v_new[x509.CertificateRequest](), false
	*g_in = v_havoc[x509.CertificateRequest]()
	return g_in, nil
}

//verif:model (*crypto/x509.CertificateRequest).CheckSignature
func v_model_checkSig(c *x509.CertificateRequest) error {
	if v_havoc[bool]() {
		return v_err()
	}
	if c == g_in {
		g_inSig = true
	}
	return nil
}

//verif:contract (*PKIManager).ValidateCertificateRequest
//verif:covers C18.signature
func spec_ValidateRequest(m *PKIManager, csr []byte) func(cr *x509.CertificateRequest, err error) {
	g_in, g_inSig = nil, false
	return func(cr *x509.CertificateRequest, err error) {
		v_ensures("C18.signature", v_imp(err == nil, cr != nil && cr == g_in && g_inSig))
	}
}

//verif:contract (*PKIManager).handleRequestCert
//verif:covers C18.request
func spec_handleRequestCert(m *PKIManager, w http.ResponseWriter, req *http.Request) {
	v_requires(m != nil && req != nil)
	m.opts.ClaimsFromCtx = v_claimsOf
	g_m, g_in, g_inSig = m, nil, false
	g_email, _ = g_claims["email"].(string)
}

//verif:before local (*PKIManager).IssueCertificate
func v_before_issue(m *PKIManager, cr *x509.CertificateRequest) {
	v_assert("C18.request", g_email != "" && g_in != nil && g_inSig && cr.PublicKey == g_in.PublicKey)
	v_assert("C18.request", len(cr.EmailAddresses) == 1 && cr.EmailAddresses[0] == g_email && len(cr.URIs) == 0 && len(cr.IPAddresses) == 0 && len(cr.Subject.ExtraNames) == 0)
	v_assert("C18.request", cr.Subject.CommonName == g_email || strings.HasPrefix(cr.Subject.CommonName, g_email+"::"))
}

//verif:package proxy/internal/pki

package pki

import (
	"context"
	"crypto"
	"crypto/x509"
	"hash"
	"io"
	"math/big"
	"net/http"
	"time"

	"github.com/c2FmZQ/storage"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ocsp"
)

// The certificate authority (properties C18 and C19).

//verif:guard PKIManager.mu db*
//verif:locked PKIManager.mu C19.locked
//verif:lockinv PKIManager.mu C19.inv
func v_inv_pki(m *PKIManager) bool { return v_dbOK(m.db) }

var (
	g_sn  string // any serial number
	g_i   int    // the place of the certificate that has it, if there is one
	g_ack bool   // its revocation was acknowledged
	g_m   *PKIManager

	g_open   bool // the database is open for update
	g_saved  bool // it was saved, with g_sn marked as revoked if g_savedRev
	g_savRev bool
	g_last   []byte // the last certificate in what was saved
)

// v_serial: the serial number of the certificate with this encoding.
func v_serial(raw []byte) string {
	return v_pure[string]("serialOf", v_base(raw), v_off(raw), len(raw))
}

func v_hex(sn *big.Int) string { return v_pure[string]("hex", v_pure[string]("bytes", sn)) }

func v_same(a, b []byte) bool {
	return v_base(a) == v_base(b) && v_off(a) == v_off(b) && len(a) == len(b)
}

// Serial numbers are random. Each is used for one certificate.
func v_dbOK(db *certificateAuthority) bool {
	if db == nil {
		return !g_ack
	}
	l := db.IssuedCerts
	ca := db.CACert
	return (!g_ack || db.Revoked[g_sn]) &&
		(ca == nil || ca.cert == nil || v_hex(ca.cert.SerialNumber) == v_serial(ca.Raw)) &&
		v_forall(0, len(l), func(i int) bool {
			return l[i] != nil && v_serial(l[i].Raw) == l[i].SerialNumber && (l[i].SerialNumber != g_sn || i == g_i)
		}) &&
		v_forall(0, len(l), func(i int) bool {
			return l[i].cert == nil || (v_hex(l[i].cert.SerialNumber) == l[i].SerialNumber && l[i].cert.NotAfter == v_until(l[i].Raw))
		}) &&
		v_iff(db.Revoked[g_sn], 0 <= g_i && g_i < len(l) && l[g_i].SerialNumber == g_sn && l[g_i].Revocation != nil)
}

//verif:model (*math/big.Int).Bytes
func v_model_bytes(x *big.Int) []byte { return []byte(v_pure[string]("bytes", x)) }

//verif:model bytesToHex
func v_model_hex(b []byte) string { return v_pure[string]("hex", string(b)) }

//verif:model crypto/x509.ParseCertificate
func v_model_parse(der []byte) (*x509.Certificate, error) {
	if v_havoc[bool]() {
		return nil, v_err()
	}
	c := v_havoc[*x509.Certificate]()
	v_assume(c != nil && c.SerialNumber != nil && v_hex(c.SerialNumber) == v_serial(der) && c.NotAfter == v_until(der))
	return c, nil
}

//verif:model crypto/x509.CreateCertificate
func v_model_createCert(rand io.Reader, template, parent *x509.Certificate, pub, priv any) ([]byte, error) {
	if v_havoc[bool]() {
		return nil, v_err()
	}
	if g_issue {
		v_assert("C18.leaf", !template.IsCA && template.BasicConstraintsValid && len(template.ExtraExtensions) == 0 && template.KeyUsage&(x509.KeyUsageCertSign|x509.KeyUsageCRLSign) == 0)
		v_assert("C18.lifetime", template.NotAfter.Sub(template.NotBefore) <= 10*366*24*time.Hour && template.NotBefore.Sub(v_now()) <= 0)
		v_assert("C18.names", len(template.EmailAddresses) == len(g_cr.EmailAddresses) &&
			v_forall(0, len(template.EmailAddresses), func(i int) bool { return template.EmailAddresses[i] == g_cr.EmailAddresses[i] }) &&
			template.Subject.CommonName == g_cr.Subject.CommonName && v_imp(len(g_cr.Subject.ExtraNames) == 0, len(template.Subject.ExtraNames) == 0) && v_imp(len(g_cr.URIs) == 0, len(template.URIs) == 0))
		v_assert("C18.key", template.PublicKey == g_cr.PublicKey && pub == g_cr.PublicKey)
		v_assert("C18.ca", g_m.db != nil && g_m.db.CACert != nil && v_hex(parent.SerialNumber) == v_serial(g_m.db.CACert.Raw) && v_same(g_keyOf, g_m.db.PrivateKey) && priv == g_keyGot)
	}
	raw := v_havoc[[]byte]()
	v_assume(v_serial(raw) == v_hex(template.SerialNumber))
	if db := g_m.db; db != nil && v_hex(template.SerialNumber) == g_sn {
		v_assume(g_i == len(db.IssuedCerts) && !db.Revoked[g_sn])
		l := db.IssuedCerts
		v_assume(v_forall(0, len(l), func(i int) bool { return l[i].SerialNumber != g_sn }))
	}
	return raw, nil
}

// The database is what was last saved.
//
//verif:model (*github.com/c2FmZQ/storage.Storage).OpenForUpdate
func v_model_open(s *storage.Storage, f string, obj any) (func(bool, *error) error, error) {
	if v_havoc[bool]() {
		return nil, v_err()
	}
	if p, ok := obj.(**certificateAuthority); ok {
		*p = v_havoc[*certificateAuthority]()
		v_assume(v_dbOK(*p))
	}
	g_open, g_saved = true, false
	return v_commit, nil
}

func v_commit(commit bool, errp *error) error {
	if !g_open {
		return v_err()
	}
	g_open = false
	if !commit {
		if errp != nil && *errp == nil {
			*errp = storage.ErrRolledBack
			if db := g_m.db; g_rl != nil && !g_rlMade && db != nil {
				v_assert("C19.crl", v_imp(0 <= g_k && g_k < len(db.IssuedCerts) && v_needed(db), v_hasEntry(g_rl, db.IssuedCerts[g_k].SerialNumber)))
			}
		}
		return storage.ErrRolledBack
	}
	if v_havoc[bool]() {
		return v_err()
	}
	db := g_m.db
	v_assert("C19.durable", v_dbOK(db))
	g_saved, g_savRev = true, db != nil && db.Revoked[g_sn]
	if db != nil && len(db.IssuedCerts) > 0 {
		g_last = db.IssuedCerts[len(db.IssuedCerts)-1].Raw
	}
	return nil
}

//verif:contract (*PKIManager).IsRevoked
//verif:covers C19.revoked
func spec_IsRevoked(m *PKIManager, serialNumber *big.Int) func(bool) {
	g_m = m
	return func(r bool) {
		v_ensures("C19.revoked", v_imp(g_ack && v_hex(serialNumber) == g_sn, r))
	}
}

//verif:contract (*PKIManager).RevokeCertificate
//verif:covers C19.durable C19.acknowledged
func spec_RevokeCertificate(m *PKIManager, serialNumber *big.Int, reasonCode int) func(error) {
	v_requires(m != nil && serialNumber != nil)
	g_m, g_open, g_saved = m, false, false
	return func(err error) {
		v_ensures("C19.acknowledged", v_imp(err == nil && v_hex(serialNumber) == g_sn, g_saved && g_savRev))
	}
}

// OCSP answers.
var (
	g_ocspReq *ocsp.Request
	g_ocspOut []byte
	g_ocspHas bool
	g_reqSN   string
)

//verif:model golang.org/x/crypto/ocsp.CreateResponse
func v_model_ocsp(issuer, responder *x509.Certificate, r ocsp.Response, priv crypto.Signer) ([]byte, error) {
	db := g_m.db
	v_assert("C19.ocsp", db != nil && r.SerialNumber == g_ocspReq.SerialNumber)
	if g_reqSN == g_sn {
		l := db.IssuedCerts
		v_assert("C19.ocsp", v_imp(r.Status == ocsp.Good, 0 <= g_i && g_i < len(l) && l[g_i].SerialNumber == g_sn && !db.Revoked[g_sn]))
	}
	v_assert("C19.ocsp", r.ThisUpdate.Sub(v_now()) <= 0 && r.NextUpdate.Sub(v_now()) <= crlRefreshPeriod)
	if v_havoc[bool]() {
		return nil, v_err()
	}
	g_ocspOut, g_ocspHas = v_havoc[[]byte](), true
	return g_ocspOut, nil
}

//verif:contract (*PKIManager).OCSPResponse
//verif:covers C19.ocsp
func spec_OCSPResponse(m *PKIManager, req *ocsp.Request) func([]byte, error) {
	v_requires(m != nil && req != nil && req.SerialNumber != nil)
	g_m, g_ocspReq, g_ocspHas, g_reqSN = m, req, false, v_hex(req.SerialNumber)
	return func(out []byte, err error) {
		v_ensures("C19.ocsp", v_imp(err == nil, g_ocspHas && v_same(out, g_ocspOut)))
	}
}

// Revocation lists.
var (
	g_rl     *x509.RevocationList // the one that was made or found
	g_rlRaw  []byte
	g_rlMade bool
	g_now    time.Time
)

//verif:model crypto/x509.ParseRevocationList
func v_model_parseList(der []byte) (*x509.RevocationList, error) {
	if v_havoc[bool]() {
		return nil, v_err()
	}
	rl := v_new[x509.RevocationList]()
	*rl = v_havoc[x509.RevocationList]()
	g_rl, g_rlRaw, g_rlMade = rl, rl.Raw, false
	// RevocationList put all that was revoked by then in it.
	if db := g_m.db; db != nil && 0 <= g_k && g_k < len(db.IssuedCerts) {
		c := db.IssuedCerts[g_k]
		v_assume(v_imp(c.Revocation != nil && c.Revocation.Time.Before(rl.ThisUpdate) && v_needed(db), v_hasEntry(rl, c.SerialNumber)))
	}
	return rl, nil
}

//verif:model crypto/x509.CreateRevocationList
func v_model_createList(rand io.Reader, template *x509.RevocationList, issuer *x509.Certificate, priv crypto.Signer) ([]byte, error) {
	if v_havoc[bool]() {
		return nil, v_err()
	}
	db := g_m.db
	v_assert("C19.crl", v_imp(0 <= g_k && g_k < len(db.IssuedCerts) && v_needed(db), v_hasEntry(template, db.IssuedCerts[g_k].SerialNumber)))
	raw := v_havoc[[]byte]()
	g_rl, g_rlRaw, g_rlMade = template, raw, true
	return raw, nil
}

//verif:contract (*PKIManager).needDelegateCert
//verif:optional
func spec_needDelegateCert(m *PKIManager, now time.Time) func(bool, *x509.Certificate, error) {
	v_requires(m != nil)
	g_m = m
	return func(need bool, ca *x509.Certificate, err error) {
		v_ensures("C19.inv", v_imp(err == nil, ca != nil))
	}
}

//verif:contract (*PKIManager).maybeRotateDelegateCert
//verif:covers C19.durable
func spec_maybeRotate(m *PKIManager) func(error) {
	v_requires(m != nil)
	g_m, g_open, g_saved = m, false, false
	return func(error) {}
}

//verif:model bytes.Compare
func v_model_compare(a, b []byte) int { return v_havoc[int]() }

//verif:model (hash.Hash).Sum
func v_model_sum(h hash.Hash, b []byte) []byte { return v_havoc[[]byte]() }

//verif:model publicKeyFromCert
func v_model_pubKey(cert *x509.Certificate) ([]byte, error) {
	return v_havoc[[]byte](), v_havoc[error]()
}

//verif:model (*PKIManager).parseKeyBytes
func v_model_parseKey(m *PKIManager, b []byte) (any, error) {
	if v_havoc[bool]() {
		return nil, v_err()
	}
	g_keyOf, g_keyGot = b, v_havoc[any]()
	return g_keyGot, nil
}

//verif:model (hash.Hash).Write
func v_model_hwrite(h hash.Hash, b []byte) (int, error) { return len(b), nil }

//verif:model (hash.Hash).Reset
func v_model_hreset(h hash.Hash) {}

//verif:model (crypto.Hash).New
func v_model_hnew(h crypto.Hash) hash.Hash { return v_havoc[hash.Hash]() }

// Callers do not hold the lock, which is all that it changes anything under.
//
//verif:model (*PKIManager).maybeRotateDelegateCert
func v_model_maybeRotate(m *PKIManager) error { return v_havoc[error]() }

// The time until which the certificate with this encoding is valid.
func v_until(raw []byte) time.Time {
	return v_pure[time.Time]("notAfter", v_base(raw), v_off(raw), len(raw))
}

// Certificate number g_k is revoked and has not expired: a new list must have
// it.
func v_needed(db *certificateAuthority) bool {
	c := db.IssuedCerts[g_k]
	return c.Revocation != nil && v_until(c.Raw).Sub(v_now()) >= 0
}

func v_hasEntry(rl *x509.RevocationList, sn string) bool {
	l := rl.RevokedCertificateEntries
	return v_exists(0, len(l), func(i int) bool { return v_hex(l[i].SerialNumber) == sn })
}

var g_k int // any certificate

//verif:loopinv (*PKIManager).RevocationList -1 C19.crl
func v_loop_crl(rl *x509.RevocationList, m *PKIManager, done int) bool {
	return v_dbOK(m.db) && m.db != nil && g_open && !g_saved && rl != nil && rl.NextUpdate.Sub(g_now) > 0 &&
		v_imp(0 <= g_k && g_k < done && v_needed(m.db), v_hasEntry(rl, m.db.IssuedCerts[g_k].SerialNumber))
}

//verif:contract (*PKIManager).RevocationList
//verif:covers C19.crl
func spec_RevocationList(m *PKIManager) func(cert, crl []byte, err error) {
	v_requires(m != nil)
	g_m, g_open, g_saved, g_rl, g_now = m, false, false, nil, v_now()
	return func(cert, crl []byte, err error) {
		v_ensures("C19.crl", v_imp(err == nil, g_rl != nil && v_same(crl, g_rlRaw)))
		v_ensures("C19.crl", v_imp(err == nil, g_rl.NextUpdate.Sub(g_now) > 0))
	}
}

// Who may revoke.
var (
	g_claims    jwt.MapClaims // of the user
	g_isAdmin   bool
	g_foundCert *x509.Certificate
)

func v_claimsOf(ctx context.Context) jwt.MapClaims { return g_claims }

//verif:contract (*PKIManager).handleRevokeCert
//verif:covers C19.authorised
func spec_handleRevoke(m *PKIManager, w http.ResponseWriter, req *http.Request, isAdmin bool) {
	v_requires(m != nil && req != nil)
	m.opts.ClaimsFromCtx = v_claimsOf
	g_m, g_isAdmin, g_foundCert = m, isAdmin, nil
}

//verif:before local (*PKIManager).RevokeCertificate
func v_before_revoke(m *PKIManager, serialNumber *big.Int, reasonCode int) {
	email, _ := g_claims["email"].(string)
	l := g_foundCert.EmailAddresses
	v_assert("C19.authorised", g_isAdmin || v_exists(0, len(l), func(i int) bool { return l[i] == email }))
}

//verif:model (*PKIManager).findCert
func v_model_findCert(m *PKIManager, sn string) (*x509.Certificate, error) {
	if v_havoc[bool]() {
		return nil, v_err()
	}
	c := v_havoc[*x509.Certificate]()
	v_assume(c != nil && c.SerialNumber != nil)
	g_foundCert = c
	return c, nil
}

//verif:contract (*PKIManager).ServeCertificateManagement
//verif:covers C19.authorised
func spec_ServeCertificateManagement(m *PKIManager, w http.ResponseWriter, req *http.Request) {
	v_requires(m != nil && req != nil)
	m.opts.ClaimsFromCtx = v_claimsOf
	g_m = m
}

//verif:before local (*PKIManager).handleRevokeCert
func v_before_handleRevoke(m *PKIManager, w http.ResponseWriter, req *http.Request, isAdmin bool) {
	email, _ := g_claims["email"].(string)
	l := m.opts.Admins
	v_assert("C19.authorised", v_imp(isAdmin, v_exists(0, len(l), func(i int) bool { return l[i] == email })))
}

//verif:loopinv (*PKIManager).ServeCertificateManagement -1 C19.inv
func v_loop_serve(m *PKIManager) bool { return v_dbOK(m.db) }

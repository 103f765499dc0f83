//verif:package proxy/internal/ocspcache

package ocspcache

import (
	"crypto/x509"
	"time"

	"github.com/c2FmZQ/storage"
	lru "github.com/hashicorp/golang-lru/v2"
	"golang.org/x/crypto/ocsp"
)

// OCSP checks (property C21).

type v_ask struct{ cert, issuer *x509.Certificate }

var (
	g_start  time.Time
	g_issuer *x509.Certificate // the issuer of the certificate that is checked
	g_load   bool              // the cache is read from its file
	g_cached *ocsp.Response    // the last one found in the cache
	g_sum    string
	g_arr    [32]byte
	g_good   map[v_ask]bool // there was a good answer about the certificate
)

// v_about: the response is about the certificate with this key.
func v_about(r *ocsp.Response, key string) bool { return v_pure[bool]("ocspAbout", r, key) }

// v_from: it was checked with the key of this issuer.
func v_from(r *ocsp.Response, issuer *x509.Certificate) bool {
	return v_pure[bool]("ocspFrom", r, issuer)
}

func v_key(cert *x509.Certificate) string { return v_pure[string]("ocspKey", string(cert.Raw)) }

//verif:model local crypto/sha256.Sum256
func v_model_sum256(b []byte) [32]byte {
	g_sum, g_arr = string(b), v_havoc[[32]byte]()
	return g_arr
}

//verif:model local encoding/hex.EncodeToString
func v_model_hex(b []byte) string {
	if len(b) == 32 && string(b) == string(g_arr[:]) {
		return v_pure[string]("ocspKey", g_sum)
	}
	return v_havoc[string]()
}

//verif:model golang.org/x/crypto/ocsp.CreateRequest
func v_model_request(cert, issuer *x509.Certificate, opts *ocsp.RequestOptions) ([]byte, error) {
	return v_havoc[[]byte](), v_havoc[error]()
}

//verif:contract certHash
//verif:covers C21.key
func spec_certHash(b []byte) func(string) {
	return func(r string) {
		v_ensures("C21.key", r == v_pure[string]("ocspKey", string(b)))
	}
}

// The responses in the cache are about the certificates that they are kept for.
//
//verif:model (*github.com/hashicorp/golang-lru/v2.TwoQueueCache[K, V]).Get
func v_model_get(c *lru.TwoQueueCache[string, *ocsp.Response], key string) (*ocsp.Response, bool) {
	if v_havoc[bool]() {
		return nil, false
	}
	r := v_havoc[*ocsp.Response]()
	v_assume(r != nil && v_about(r, key) && v_stored(r.Raw, key))
	g_cached = r
	return r, true
}

//verif:model (*github.com/hashicorp/golang-lru/v2.TwoQueueCache[K, V]).Peek
func v_model_peek(c *lru.TwoQueueCache[string, *ocsp.Response], key string) (*ocsp.Response, bool) {
	return v_model_get(c, key)
}

// v_stored: these are the bytes of a response about the certificate with this key.
func v_stored(b []byte, key string) bool { return v_pure[bool]("ocspBytes", string(b), key) }

// The file has what was last saved in it.
//
//verif:model (*github.com/c2FmZQ/storage.Storage).ReadDataFile
func v_model_readFile(s *storage.Storage, name string, obj any) error {
	if v_havoc[bool]() {
		return v_err()
	}
	if p, ok := obj.(*[]ocspCacheItem); ok && name == ocspFile {
		*p = v_havoc[[]ocspCacheItem]()
		items := *p
		v_assume(v_forall(0, len(items), func(i int) bool { return v_stored(items[i].Value, items[i].Key) }))
	}
	return nil
}

//verif:model (*github.com/c2FmZQ/storage.Storage).SaveDataFile
func v_model_saveFile(s *storage.Storage, name string, obj any) error {
	p, ok := obj.(*[]ocspCacheItem)
	v_assert("C21.saved", ok && name == ocspFile)
	items := *p
	v_assert("C21.saved", v_forall(0, len(items), func(i int) bool { return v_stored(items[i].Value, items[i].Key) }))
	return v_havoc[error]()
}

//verif:loopinv (*OCSPCache).flush -1 C21.saved
func v_loop_flush(items []ocspCacheItem) bool {
	return v_forall(0, len(items), func(i int) bool { return v_stored(items[i].Value, items[i].Key) })
}

//verif:contract (*OCSPCache).flush
//verif:covers C21.saved
func spec_flush(c *OCSPCache) func() {
	v_requires(c != nil)
	return func() {}
}

//verif:contract (*OCSPCache).load
//verif:covers C21.about
func spec_load(c *OCSPCache) func() {
	v_requires(c != nil)
	g_load = true
	return func() {}
}

//verif:model (*github.com/hashicorp/golang-lru/v2.TwoQueueCache[K, V]).Add
func v_model_add(c *lru.TwoQueueCache[string, *ocsp.Response], key string, r *ocsp.Response) {
	v_assert("C21.about", r != nil && v_about(r, key) && (r == g_cached || v_from(r, g_issuer) || g_load))
}

// The cryptography: what a parsed response says is signed by, or on behalf of,
// the issuer and about the serial number of the certificate, if they are given.
//
//verif:model golang.org/x/crypto/ocsp.ParseResponseForCert
func v_model_parse(b []byte, cert, issuer *x509.Certificate) (*ocsp.Response, error) {
	if v_havoc[bool]() {
		return nil, v_err()
	}
	r := v_new[ocsp.Response]()
	*r = v_havoc[ocsp.Response]()
	if issuer != nil {
		v_assume(v_from(r, issuer))
		if cert != nil {
			v_assume(v_about(r, v_key(cert)))
		}
	}
	return r, nil
}

//verif:model golang.org/x/crypto/ocsp.ParseResponse
func v_model_parse1(b []byte, issuer *x509.Certificate) (*ocsp.Response, error) {
	r, err := v_model_parse(b, nil, issuer)
	if err == nil && g_load {
		v_assume(v_all(func(k string) bool { return v_imp(v_stored(b, k), v_about(r, k)) }))
	}
	return r, err
}

//verif:contract (*OCSPCache).fetchOneOCSP
//verif:covers C21.about C21.current
func spec_fetchOneOCSP(c *OCSPCache, cert, issuer *x509.Certificate, ocspReq []byte, server string) func(*ocsp.Response, error) {
	v_requires(c != nil && cert != nil && issuer != nil && c.client != nil)
	start := v_now()
	return func(r *ocsp.Response, err error) {
		v_ensures("C21.about", v_imp(err == nil, r != nil && v_about(r, v_key(cert)) && v_from(r, issuer)))
		v_ensures("C21.current", v_imp(err == nil, start.Before(r.NextUpdate) || r.NextUpdate.IsZero()))
	}
}

//verif:loopinv (*OCSPCache).fetchOCSP -1 C21.about
func v_loop_fetch(cert, issuer *x509.Certificate, ocspResp *ocsp.Response, err error, done int) bool {
	return g_start.Sub(v_now()) <= 0 && (done == 0 || err != nil || ocspResp != nil && v_about(ocspResp, v_key(cert)) && v_from(ocspResp, issuer) &&
		(g_start.Before(ocspResp.NextUpdate) || ocspResp.NextUpdate.IsZero()))
}

//verif:contract (*OCSPCache).fetchOCSP
//verif:covers C21.about C21.current
func spec_fetchOCSP(c *OCSPCache, cert, issuer *x509.Certificate) func(*ocsp.Response, error) {
	v_requires(c != nil && cert != nil && issuer != nil && c.client != nil)
	start := v_now()
	g_start = start
	return func(r *ocsp.Response, err error) {
		v_ensures("C21.about", v_imp(err == nil, r != nil && v_about(r, v_key(cert)) && v_from(r, issuer)))
		v_ensures("C21.current", v_imp(err == nil, start.Before(r.NextUpdate) || r.NextUpdate.IsZero()))
	}
}

//verif:after local (*OCSPCache).fetchOCSP
func v_after_fetch(c *OCSPCache, cert, issuer *x509.Certificate, r *ocsp.Response, err error) {
	g_cached = nil
}

//verif:contract (*OCSPCache).Response
//verif:covers C21.about C21.current
func spec_Response(c *OCSPCache, cert, issuer *x509.Certificate, margin time.Duration) func(*ocsp.Response, error) {
	v_requires(c != nil && cert != nil && issuer != nil && c.client != nil)
	v_requires_l("C21.current", margin >= 0)
	start := v_now()
	g_issuer, g_cached, g_load = issuer, nil, false
	return func(r *ocsp.Response, err error) {
		v_ensures("C21.about", v_imp(err == nil, r != nil && v_about(r, v_key(cert))))
		v_ensures("C21.current", v_imp(err == nil, start.Before(r.NextUpdate) || r.NextUpdate.IsZero() && r != g_cached))
	}
}

//verif:after local (*OCSPCache).Response
func v_after_response(c *OCSPCache, cert, issuer *x509.Certificate, margin time.Duration, r *ocsp.Response, err error) {
	if err == nil && r.Status == ocsp.Good {
		g_good[v_ask{cert, issuer}] = true
	}
}

// v_fine: there is a good answer about the certificate at this place, if it
// has an issuer in the chain and names an OCSP server.
func v_fine(chain []*x509.Certificate, i int) bool {
	return i+1 >= len(chain) || len(chain[i].OCSPServer) == 0 || g_good[v_ask{chain[i], chain[i+1]}]
}

//verif:loopinv (*OCSPCache).VerifyChains 0 C21.chain
func v_loop_chains(lastError error, done int) bool {
	return done == 0 || lastError != nil
}

//verif:loopinv (*OCSPCache).VerifyChains 1 C21.chain
func v_loop_chain(chain []*x509.Certificate, done int) bool {
	return v_forall(0, done, func(i int) bool { return v_fine(chain, i) })
}

//verif:contract (*OCSPCache).VerifyChains
//verif:covers C21.chain C21.about
func spec_VerifyChains(c *OCSPCache, chains [][]*x509.Certificate, stapled []byte) func(error) {
	v_assume(c != nil && c.client != nil) // Caches are made by New.
	v_assume(v_forall(0, len(chains), func(i int) bool {
		return v_forall(0, len(chains[i]), func(j int) bool { return chains[i][j] != nil })
	}))
	g_good, g_cached, g_issuer, g_load = map[v_ask]bool{}, nil, nil, false
	if len(chains) > 0 && len(chains[0]) > 1 {
		g_issuer = chains[0][1]
	}
	return func(err error) {
		v_ensures("C21.chain", v_imp(err == nil && len(chains) > 0, v_exists(0, len(chains), func(c int) bool {
			return v_forall(0, len(chains[c]), func(i int) bool { return v_fine(chains[c], i) })
		})))
	}
}

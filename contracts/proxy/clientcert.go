//verif:package proxy

package proxy

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"math/big"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki"
)

// Client certificates (property C03).

type v_certKey struct {
	be   *Backend
	cert *x509.Certificate
}
type v_serialKey struct {
	m      *pki.PKIManager
	serial *big.Int
}

// The decisions that were taken: the backend found for a name, a certificate
// accepted by a backend's access list, a serial number reported as not
// revoked, chains accepted by the OCSP check, connections authorised.
var (
	g_rtBackend  *Backend
	g_rtName     string
	g_rtProto    string
	g_authorized map[v_certKey]bool
	g_notRevoked map[v_serialKey]bool
	g_ocspOK     bool
	g_ocspChains [][]*x509.Certificate
	g_tlsAuth    map[*tls.Conn]bool
	g_handshake  map[*tls.Conn]bool
)

//verif:after (*github.com/c2FmZQ/tlsproxy/proxy/internal/pki.PKIManager).IsRevoked
func v_after_isRevoked(m *pki.PKIManager, serial *big.Int, revoked bool) {
	if !revoked {
		g_notRevoked[v_serialKey{m, serial}] = true
	}
}

//verif:after (*github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache.OCSPCache).VerifyChains
func v_after_verifyChains(c *ocspcache.OCSPCache, chains [][]*x509.Certificate, staple []byte, err error) {
	g_ocspOK, g_ocspChains = err == nil, chains
}

//verif:frame (*github.com/c2FmZQ/tlsproxy/proxy/internal/pki.PKIManager).IsRevoked
//verif:frame (*github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache.OCSPCache).VerifyChains

// v_certOK: the certificate is not revoked by the local PKI that issued it,
// or else passed the OCSP check if it names an OCSP server.
func v_unrevoked(be *Backend, issuer string, serial *big.Int, ocsp int, chains [][]*x509.Certificate) bool {
	if m, ok := be.pkiMap[issuer]; ok {
		return g_notRevoked[v_serialKey{m, serial}]
	}
	return ocsp == 0 || g_ocspOK && len(g_ocspChains) == len(chains)
}

// The handshake callback of backends with client authentication.
//
//verif:closure crypto/tls.Config.VerifyConnection
func spec_verifyConnection(cs tls.ConnectionState, p *Proxy) func(error) {
	v_requires(p != nil)
	g_rtBackend = nil
	g_ocspOK = false
	v_assume(v_all(func(k v_certKey) bool { return !g_authorized[k] }))
	v_assume(v_all(func(k v_serialKey) bool { return !g_notRevoked[k] }))
	issuer, ocsp := "", 0
	var serial *big.Int
	if len(cs.PeerCertificates) > 0 {
		cert := cs.PeerCertificates[0]
		issuer, serial, ocsp = hex.EncodeToString(cert.AuthorityKeyId), cert.SerialNumber, len(cert.OCSPServer)
	}
	return func(err error) {
		be := g_rtBackend
		v_ensures("C03.handshake.backend", v_imp(err == nil, be != nil && g_rtName == cs.ServerName && g_rtProto == cs.NegotiatedProtocol))
		need := err == nil && be != nil && be.ClientAuth != nil
		v_ensures("C03.handshake.verified", v_imp(need, len(cs.PeerCertificates) > 0 && len(cs.VerifiedChains) > 0))
		v_ensures("C03.handshake.unrevoked", v_imp(need && len(cs.PeerCertificates) > 0, v_unrevoked(be, issuer, serial, ocsp, cs.VerifiedChains)))
		v_ensures("C03.handshake.authorized", v_imp(need && len(cs.PeerCertificates) > 0, g_authorized[v_certKey{be, cs.PeerCertificates[0]}]))
	}
}

//verif:model (*crypto/tls.Conn).ConnectionState
func v_model_connectionState(c *tls.Conn) tls.ConnectionState {
	return v_pure[tls.ConnectionState]("connectionState", c)
}

func v_hsCert(c *tls.Conn) *x509.Certificate {
	cs := c.ConnectionState()
	if len(cs.PeerCertificates) > 0 {
		return cs.PeerCertificates[0]
	}
	return nil
}

//verif:contract (*Proxy).authorizeTLSConnection
func spec_authorizeTLSConnection(p *Proxy, conn *tls.Conn) func(bool) {
	v_requires(p != nil && conn != nil)
	nc, ok := v_tlsInner(conn).(*netw.Conn)
	v_requires(ok && nc != nil)
	v_requires_l("C02.handshake", v_acmeOnly(v_tlsConfig(conn)) || v_peerOK(conn))
	v_requires_l("C25.limit", v_counted())
	be, name := connBackend(conn), connServerName(conn)
	v_requires(be != nil)
	v_assume(!g_handshake[conn])
	v_assume(v_all(func(k v_certKey) bool { return !g_authorized[k] }))
	return func(ok bool) {
		cs := conn.ConnectionState()
		v_ensures("C03.served.handshake", v_imp(ok, g_handshake[conn]))
		v_ensures("C03.served.name", v_imp(ok && cs.ServerName != "", cs.ServerName == name))
		v_ensures("C03.served.authorized", v_imp(ok && be.ClientAuth != nil && be.ClientAuth.ACL != nil, g_authorized[v_certKey{be, v_hsCert(conn)}]))
	}
}

//verif:after (*Proxy).authorizeTLSConnection
func v_after_authorizeTLS(p *Proxy, conn *tls.Conn, ok bool) {
	if ok {
		g_tlsAuth[conn] = true
	}
}

func v_noteHandshake(c *tls.Conn, ctx context.Context, err error) {
	if err == nil {
		g_handshake[c] = true
	}
}

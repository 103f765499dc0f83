//verif:package proxy

package proxy

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"math/big"
	"net"
	"sync"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

// Dialing backends (property C22) and the PROXY header sent to them (C23).

//verif:guard backendState.mu inFlight shutdown next oNext[]

// The entry that is selected by the context: the backend, or one of its path
// overrides.
var (
	g_dlBE     *Backend // the backend that dials
	g_dlID     int      // the path override, or -1
	g_dlAddrs  []string
	g_dlQUIC   bool     // every attempt is made over QUIC
	g_dlConn   any      // the connection being forwarded
	g_dlNext   int      // the rotation when the lock was taken
	g_dlN      int      // attempts
	g_dlRaw    net.Conn // the connection of the last attempt
	g_dlHeader bool     // the PROXY header was written to it
	g_dlTLS    *tls.Conn
)

func v_select(be *Backend, ctx context.Context) {
	g_dlBE, g_dlID, g_dlAddrs, g_dlConn = be, -1, be.Addresses, ctx.Value(connCtxKey)
	if id, ok := ctx.Value(ctxOverrideIDKey).(int); ok && id >= 0 && id < len(be.PathOverrides) {
		g_dlID, g_dlAddrs = id, be.PathOverrides[id].Addresses
	}
	g_dlN, g_dlRaw, g_dlHeader, g_dlTLS = 0, nil, false, nil
}

func v_dlMode() string {
	if g_dlID >= 0 {
		return g_dlBE.PathOverrides[g_dlID].Mode
	}
	return g_dlBE.Mode
}

func v_dlProxy() byte {
	if g_dlID >= 0 {
		return g_dlBE.PathOverrides[g_dlID].proxyProtocolVersion
	}
	return g_dlBE.proxyProtocolVersion
}

func v_dlTimeout() time.Duration {
	if g_dlID >= 0 {
		return g_dlBE.PathOverrides[g_dlID].ForwardTimeout
	}
	return g_dlBE.ForwardTimeout
}

// v_tlsOK: the TLS settings are those of the selected entry.
func v_tlsOK(tc *tls.Config) bool {
	if tc == nil || tc.VerifyConnection == nil {
		return false
	}
	if g_dlID >= 0 {
		po := g_dlBE.PathOverrides[g_dlID]
		return tc.InsecureSkipVerify == po.InsecureSkipVerify && tc.ServerName == po.ForwardServerName && tc.RootCAs == po.forwardRootCAs
	}
	be := g_dlBE
	return tc.InsecureSkipVerify == be.InsecureSkipVerify && tc.ServerName == be.ForwardServerName && tc.RootCAs == be.forwardRootCAs
}

// The state belongs to one backend, whose address lists do not change once the
// configuration was checked: their sizes are a function of the state.
func v_addrCount(s *backendState) int           { return v_pure[int]("addrCount", s) }
func v_ovAddrCount(s *backendState, id int) int { return v_pure[int]("ovAddrCount", s, id) }

func v_owned(be *Backend) bool {
	s := be.state
	return s != nil && v_addrCount(s) == len(be.Addresses) && len(s.oNext) == len(be.PathOverrides) &&
		v_forall(0, len(be.PathOverrides), func(i int) bool {
			return be.PathOverrides[i] != nil && v_ovAddrCount(s, i) == len(be.PathOverrides[i].Addresses)
		})
}

// The rotation is always within the list, or zero.
//
//verif:lockinv backendState.mu C22.bounds
func v_inv_state(s *backendState) bool {
	return s.next >= 0 && (s.next == 0 || s.next < v_addrCount(s)) && v_forall(0, len(s.oNext), func(i int) bool {
		n := s.oNext[i]
		return n >= 0 && (n == 0 || n < v_ovAddrCount(s, i))
	})
}

func v_next() int {
	if g_dlID >= 0 {
		return g_dlBE.state.oNext[g_dlID]
	}
	return g_dlBE.state.next
}

//verif:after local (*sync.Mutex).Lock
func v_after_dialLock(m *sync.Mutex) {
	if m == &g_dlBE.state.mu {
		g_dlNext = v_next()
	}
}

//verif:before local (*sync.Mutex).Unlock
func v_before_dialUnlock(m *sync.Mutex) {
	v_assert("C22.rotate", m != &g_dlBE.state.mu || v_next() == (g_dlNext+1)%len(g_dlAddrs))
}

// An attempt.
func v_attempt(addr string) {
	v_assert("C22.address", g_dlNext < len(g_dlAddrs) && addr == g_dlAddrs[g_dlNext])
	v_assert("C22.attempts", g_dlN < len(g_dlAddrs))
	g_dlN++
	g_dlRaw, g_dlHeader = nil, false
}

//verif:model local (*net.Dialer).DialContext
func v_model_dialContext(d *net.Dialer, ctx context.Context, network, addr string) (net.Conn, error) {
	v_attempt(addr)
	v_assert("C22.mode", v_dlMode() != ModeQUIC && network == "tcp" && d.Timeout == v_dlTimeout())
	if v_havoc[bool]() {
		return nil, v_err()
	}
	g_dlRaw = v_new[net.TCPConn]()
	return g_dlRaw, nil
}

//verif:model local (*Backend).dialQUICStream
func v_model_dialQUICStream(be *Backend, ctx context.Context, addr string, tc *tls.Config) (net.Conn, error) {
	v_attempt(addr)
	v_assert("C22.mode", v_dlMode() == ModeQUIC)
	v_assert("C22.tls", v_tlsOK(tc))
	if v_havoc[bool]() {
		return nil, v_err()
	}
	g_dlRaw = v_new[netw.Conn]()
	return g_dlRaw, nil
}

//verif:model local (*Backend).dialQUIC
func v_model_dialQUIC(be *Backend, ctx context.Context, addr string, tc *tls.Config) (*netw.QUICConn, error) {
	v_attempt(addr)
	v_assert("C22.tls", v_tlsOK(tc))
	if v_havoc[bool]() {
		return nil, v_err()
	}
	return v_new[netw.QUICConn](), nil
}

//verif:model local crypto/tls.Client
func v_model_tlsClient(c net.Conn, tc *tls.Config) *tls.Conn {
	v_assert("C22.tls", v_tlsOK(tc) && c == g_dlRaw)
	v_assert("C23.send", v_headerOK())
	t := v_new[tls.Conn]()
	g_dlTLS = t
	return t
}

//verif:model local writeProxyHeader
func v_model_writeProxyHeader(v byte, out net.Conn, in anyConn) error {
	v_assert("C23.send", v > 0 && v == v_dlProxy() && out == g_dlRaw && !g_dlHeader && any(in) == g_dlConn)
	if v_havoc[bool]() {
		return v_err()
	}
	g_dlHeader = true
	return nil
}

// v_headerOK: the header was sent exactly if configured (never over QUIC).
func v_headerOK() bool {
	return g_dlHeader == (v_dlProxy() > 0 && v_dlMode() != ModeQUIC)
}

//verif:before local github.com/c2FmZQ/tlsproxy/proxy/internal/netw.NewConn
func v_before_newConn(c net.Conn) {
	m := v_dlMode()
	if m == ModeTLS || m == ModeHTTPS {
		v_assert("C22.tls", g_dlTLS != nil && c == net.Conn(g_dlTLS))
	} else {
		v_assert("C22.tls", c == g_dlRaw)
	}
	v_assert("C23.send", v_headerOK())
}

//verif:loopinv writes:g_dlN C22.attempts
func v_loop_dial(max int) bool {
	return g_dlTLS == nil && g_dlN >= 0 && (g_dlN == 0 && max == 0 || max > 0 && g_dlN+max == len(g_dlAddrs))
}

//verif:contract (*Backend).dial
//verif:inline
//verif:covers C22.bounds C22.address C22.rotate C22.tls C22.mode C23.send
//verif:nopanic C22.bounds index
func spec_dial(be *Backend, ctx context.Context, protos ...string) func(net.Conn, error) {
	v_requires(be != nil)
	v_assume(v_owned(be))
	v_select(be, ctx)
	return func(c net.Conn, err error) {
		v_ensures("C22.attempts", v_imp(err != nil, g_dlN == len(g_dlAddrs)))
		v_ensures("C22.result", (c != nil) == (err == nil))
	}
}

//verif:contract (*Backend).dialQUICBackend
//verif:inline
//verif:covers C22.bounds C22.address C22.rotate C22.tls
//verif:nopanic C22.bounds index
func spec_dialQUICBackend(be *Backend, ctx context.Context, proto string) func(*netw.QUICConn, error) {
	v_requires(be != nil)
	v_assume(v_owned(be))
	v_select(be, ctx)
	return func(c *netw.QUICConn, err error) {
		v_ensures("C22.attempts", v_imp(err != nil, g_dlN == len(g_dlAddrs)))
		v_ensures("C22.result", (c != nil) == (err == nil))
	}
}

// The handshake callback of connections to backends.
//
//verif:closure crypto/tls.Config.VerifyConnection without Proxy
func spec_verifyBackend(cs tls.ConnectionState, be *Backend) func(error) {
	v_requires(be != nil)
	g_ocspOK = false
	v_assume(v_all(func(k v_serialKey) bool { return !g_notRevoked[k] }))
	issuer, ocsp := "", 0
	var serial *big.Int
	var cert *x509.Certificate
	if len(cs.PeerCertificates) > 0 {
		cert = cs.PeerCertificates[0]
		issuer, serial, ocsp = hex.EncodeToString(cert.AuthorityKeyId), cert.SerialNumber, len(cert.OCSPServer)
	}
	return func(err error) {
		v_ensures("C22.revoked", v_imp(err == nil, cert != nil && v_unrevoked(be, issuer, serial, ocsp, cs.VerifiedChains)))
	}
}

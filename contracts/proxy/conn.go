//verif:package proxy

package proxy

import (
	"context"
	"crypto/tls"
	"github.com/pires/go-proxyproto"
	"net"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

// ---- effects observed on the connection path

// The connection that a TLS connection runs on, and its configuration.
var (
	g_tlsInner  map[*tls.Conn]net.Conn
	g_tlsConfig map[*tls.Conn]*tls.Config
)

func v_tlsInner(c *tls.Conn) net.Conn     { return g_tlsInner[c] }
func v_tlsConfig(c *tls.Conn) *tls.Config { return g_tlsConfig[c] }

//verif:model crypto/tls.Server
func v_model_tlsServer(conn net.Conn, cfg *tls.Config) *tls.Conn {
	r := v_new[tls.Conn]()
	g_tlsInner[r] = conn
	g_tlsConfig[r] = cfg
	return r
}

//verif:model (*crypto/tls.Conn).NetConn
func v_model_tlsNetConn(c *tls.Conn) net.Conn { return v_tlsInner(c) }

//verif:model (*crypto/tls.Conn).RemoteAddr
func v_model_tlsRemoteAddr(c *tls.Conn) net.Addr { return v_tlsInner(c).RemoteAddr() }

//verif:model (*crypto/tls.Conn).LocalAddr
func v_model_tlsLocalAddr(c *tls.Conn) net.Addr { return v_tlsInner(c).LocalAddr() }

// A TLS configuration that can only be used for ACME validation handshakes.
func v_acmeOnly(cfg *tls.Config) bool {
	return len(cfg.NextProtos) == 1 && cfg.NextProtos[0] == "acme-tls/1"
}

// The accepted TCP connection, and whether (and for which address) the policy
// of its backend accepted its peer.
var (
	g_tcpClient   *netw.Conn
	g_tcpAccepted bool
	g_tcpAddr     net.Addr
)

// v_peerOK: this TLS connection runs on the accepted connection, whose peer
// the address policy of its backend accepted.
func v_peerOK(c *tls.Conn) bool {
	nc, ok := v_tlsInner(c).(*netw.Conn)
	return ok && nc == g_tcpClient && g_tcpAccepted && g_tcpAddr == nc.RemoteAddr()
}

//verif:model (*crypto/tls.Conn).HandshakeContext
func v_model_handshake(c *tls.Conn, ctx context.Context) error {
	v_assert("C02.handshake", v_acmeOnly(v_tlsConfig(c)) || v_peerOK(c))
	v_assert("C25.limit", v_counted())
	err := v_havoc[error]()
	v_noteHandshake(c, ctx, err)
	return err
}

//verif:send
func v_send_conn(ch chan net.Conn, c net.Conn) {
	v_assert("C25.limit", v_counted())
	tc, ok := c.(*tls.Conn)
	if ok {
		v_assert("C02.http", v_peerOK(tc))
		v_assert("C03.gate", g_tlsAuth[tc])
	} else {
		// a stream of a QUIC connection
		v_assert("C02.http", g_quicClient != nil && v_quicOK(g_quicClient))
	}
}

// Two connections are bridged only for an accepted peer.
//
//verif:before (*Backend).bridgeConns
func v_before_bridge(be *Backend, client, server net.Conn) {
	v_assert("C25.limit", v_counted())
	if g_quicClient != nil {
		v_assert("C02.bridge", g_quicAccepted)
	} else {
		v_assert("C02.bridge", g_tcpClient != nil && g_tcpAccepted)
		if tc, ok := client.(*tls.Conn); ok {
			v_assert("C03.gate", g_tlsAuth[tc])
		}
	}
}

// The routing table never holds a nil backend, or one without its state.
//
//verif:guard Proxy.mu backends
//verif:lockinv Proxy.mu
func v_inv_backends(p *Proxy) bool {
	return v_all(func(k beKey) bool { be, ok := p.backends[k]; return !ok || be != nil && be.state != nil })
}

// The connection handler: everything that a connection can reach.
//
//verif:contract (*Proxy).handleConnection
//verif:covers C02.handshake C02.http C02.bridge C03.gate C25.limit C23.trusted
func spec_handleConnection(p *Proxy, conn *netw.Conn) func() {
	v_requires(p != nil && conn != nil && p.cfg != nil)
	g_quicClient = nil
	g_tcpClient, g_tcpAccepted = conn, false
	g_limConn = conn
	g_limProxy, g_limOpen, g_limServed = p, false, nil
	v_assume(v_all(func(c *tls.Conn) bool { return !g_tlsAuth[c] }))
	return func() {}
}

// The PROXY header is parsed only on connections from trusted peers: the
// underlying connection, before it is replaced (property C23).
//
//verif:before local github.com/pires/go-proxyproto.NewConn
func v_hook_proxyproto(c net.Conn, opts []func(*proxyproto.Conn)) {
	v_assert("C23.trusted", c == g_tcpClient.Conn && v_trusted(g_limProxy, g_tcpClient.RemoteAddr()))
}

// Logging and accounting helpers are used only through their inferred frames.
//
// The address of a connection does not change.
//
//verif:pure (*github.com/pires/go-proxyproto.Conn).RemoteAddr
//verif:pure (*github.com/pires/go-proxyproto.Conn).LocalAddr
//
//verif:frame (*Backend).logRequestF
//verif:frame (*Proxy).logConnF
//verif:frame (*Proxy).logErrorF
//verif:frame (*Proxy).recordEvent
//verif:frame (*Proxy).setCounters
//verif:frame formatConnDesc
//verif:frame formatReqDesc
//verif:frame certSummary
//verif:frame setKeepAlive
//verif:frame sendCloseNotify
//verif:frame sendUnrecognizedName
//verif:frame sendInternalError
//verif:frame idnaToUnicode
//verif:frame isProxyProtoConn
//verif:frame unwrapErr
//verif:frame peekClientHello

// The connection under a TLS connection.
//
//verif:contract netwConn
func spec_netwConn(c anyConn) func(*netw.Conn) {
	return func(r *netw.Conn) {
		if nc, ok := c.(*netw.Conn); ok {
			v_ensures("C03.served.name", r == nc)
		}
		if tc, ok := c.(*tls.Conn); ok {
			if nc, ok := v_tlsInner(tc).(*netw.Conn); ok {
				v_ensures("C03.served.name", r == nc)
			}
		}
	}
}

// The name of a connection is the one recorded in the handshake (property C05).
//
//verif:proof
//verif:covers C05.handshake
func v_proof_connServerName(c *netw.Conn, tc *tls.Conn, name string) {
	v_assume(c != nil && tc != nil)
	if n, ok := v_tlsInner(tc).(*netw.Conn); ok && n != nil {
		n.SetAnnotation(serverNameKey, name)
		v_assert("C05.handshake", connServerName(tc) == name)
	}
	c.SetAnnotation(serverNameKey, name)
	v_assert("C05.handshake", connServerName(c) == name)
}

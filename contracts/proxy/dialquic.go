//verif:package proxy

package proxy

import (
	"context"
	"crypto/tls"
	"net"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

// Dialing over QUIC (property C22): the address and the TLS settings reach the
// transport as they were given.
var (
	g_dqAddr   string
	g_dqTLS    *tls.Config
	g_dqDialed int
	g_dqConn   *netw.QUICConn
)

//verif:model local net.ResolveUDPAddr
func v_model_resolveUDP(network, address string) (*net.UDPAddr, error) {
	if err := v_havoc[error](); err != nil {
		return nil, err
	}
	return v_pure[*net.UDPAddr]("udpAddr", address), nil
}

//verif:model local (*github.com/c2FmZQ/tlsproxy/proxy/internal/netw.QUICTransport).DialEarly
func v_model_dialEarly(t *netw.QUICTransport, ctx context.Context, addr net.Addr, tc *tls.Config, enableDatagrams bool) (*netw.QUICConn, error) {
	u, ok := addr.(*net.UDPAddr)
	v_assert("C22.address", ok && u == v_pure[*net.UDPAddr]("udpAddr", g_dqAddr))
	v_assert("C22.tls", tc == g_dqTLS)
	g_dqDialed++
	if v_havoc[bool]() {
		return nil, v_err()
	}
	c := v_new[netw.QUICConn]()
	g_dqConn = c
	return c, nil
}

//verif:contract (*Backend).dialQUIC
//verif:inline
//verif:covers C22.address C22.tls
func spec_dialQUIC(be *Backend, ctx context.Context, addr string, tc *tls.Config) func(*netw.QUICConn, error) {
	v_requires(be != nil)
	g_dqAddr, g_dqTLS, g_dqDialed, g_dqConn = addr, tc, 0, nil
	return func(c *netw.QUICConn, err error) {
		v_ensures("C22.address", v_imp(err == nil, g_dqDialed == 1 && c != nil && c == g_dqConn))
		v_ensures("C22.attempts", g_dqDialed <= 1)
	}
}

//verif:contract (*Backend).dialQUICStream
//verif:inline
//verif:covers C22.address C22.tls
func spec_dialQUICStream(be *Backend, ctx context.Context, addr string, tc *tls.Config) func(net.Conn, error) {
	v_requires(be != nil)
	g_dqAddr, g_dqTLS, g_dqDialed, g_dqConn = addr, tc, 0, nil
	return func(c net.Conn, err error) {
		v_ensures("C22.address", v_imp(err == nil, g_dqDialed == 1 && c != nil))
		v_ensures("C22.attempts", g_dqDialed <= 1)
	}
}

//verif:package proxy

package proxy

import (
	"context"
	"net"

	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

// The client's QUIC connection.
var g_quicClient *netw.QUICConn

// The address policy of the backend assigned to it accepted its peer.
var g_quicAccepted bool

func v_quicOK(c *netw.QUICConn) bool { return c == g_quicClient && g_quicAccepted }

//verif:model (*github.com/quic-go/quic-go/http3.Server).ServeQUICConn
func v_model_serveQUIC(s *http3.Server, conn quic.Connection) error {
	c, ok := conn.(*netw.QUICConn)
	v_assert("C02.h3", ok && v_quicOK(c))
	v_assert("C25.limit", v_counted())
	return v_havoc[error]()
}

//verif:model (*github.com/c2FmZQ/tlsproxy/proxy/internal/netw.QUICConn).AcceptStream
func v_model_acceptStream(c *netw.QUICConn, ctx context.Context) (quic.Stream, error) {
	v_assert("C02.stream", c != g_quicClient || v_quicOK(c))
	v_assert("C25.limit", v_counted())
	return v_new[netw.QUICStream](), v_havoc[error]()
}

//verif:model (*github.com/c2FmZQ/tlsproxy/proxy/internal/netw.QUICConn).AcceptUniStream
func v_model_acceptUniStream(c *netw.QUICConn, ctx context.Context) (quic.ReceiveStream, error) {
	v_assert("C02.stream", c != g_quicClient || v_quicOK(c))
	v_assert("C25.limit", v_counted())
	return v_new[netw.QUICStream](), v_havoc[error]()
}

//verif:model (*github.com/c2FmZQ/tlsproxy/proxy/internal/netw.QUICConn).ReceiveDatagram
func v_model_receiveDatagram(c *netw.QUICConn, ctx context.Context) ([]byte, error) {
	v_assert("C02.datagram", c != g_quicClient || v_quicOK(c))
	v_assert("C25.limit", v_counted())
	return v_havoc[[]byte](), v_havoc[error]()
}

//verif:model (*github.com/c2FmZQ/tlsproxy/proxy/internal/netw.QUICConn).SendDatagram
func v_model_sendDatagram(c *netw.QUICConn, b []byte) error {
	v_assert("C02.datagram", c != g_quicClient || v_quicOK(c))
	v_assert("C25.limit", v_counted())
	return v_havoc[error]()
}

//verif:contract (*Proxy).handleQUICConnection
//verif:covers C02.h3 C02.stream C25.limit
func spec_handleQUICConnection(p *Proxy, qc *netw.QUICConn) func() {
	v_requires(p != nil && qc != nil && p.cfg != nil)
	g_quicClient = qc
	g_limConn = qc
	g_limProxy, g_limOpen, g_limServed = p, false, nil
	g_quicAccepted = false
	g_tcpClient = nil
	return func() {}
}

// The address of a connection does not change.
//
//verif:pure (github.com/quic-go/quic-go.Connection).RemoteAddr
//verif:pure (github.com/quic-go/quic-go.Connection).LocalAddr

//verif:model net.ResolveUDPAddr
func v_model_resolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	if err := v_havoc[error](); err != nil {
		return nil, err
	}
	a := v_new[net.UDPAddr]()
	a.IP = v_havoc[net.IP]()
	a.Port = v_havoc[int]()
	return a, nil
}

//verif:package proxy

package proxy

import (
	"io"
	"net"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/pires/go-proxyproto"
)

// The PROXY protocol (property C23).

// v_trusted: the address is a TCP address in a trusted network.
func v_trusted(p *Proxy, addr net.Addr) bool {
	a, ok := addr.(*net.TCPAddr)
	return ok && v_exists(0, len(p.cfg.acceptProxyHeaderFrom), func(i int) bool {
		return p.cfg.acceptProxyHeaderFrom[i].Contains(a.IP)
	})
}

//verif:contract (*Proxy).acceptProxyHeader
func spec_acceptProxyHeader(p *Proxy, addr net.Addr) func(bool) {
	v_requires(p != nil && p.cfg != nil)
	want := v_trusted(p, addr)
	return func(r bool) { v_ensures("C23.trusted", r == want) }
}

var (
	g_phVersion byte
	g_phIn      anyConn
	g_phOut     any
	g_phHeader  *proxyproto.Header
	g_phWritten bool
)

// The addresses of a connection that is being forwarded do not change.
//
//verif:pure (github.com/c2FmZQ/tlsproxy/proxy.anyConn).RemoteAddr
//verif:pure (github.com/c2FmZQ/tlsproxy/proxy.anyConn).LocalAddr

//verif:model local connServerName
func v_model_phName(c anyConn) string { return v_pure[string]("connServerName", c) }

//verif:model local connProto
func v_model_phProto(c anyConn) string { return v_pure[string]("connProto", c) }

//verif:model local github.com/pires/go-proxyproto.HeaderProxyFromAddrs
func v_model_header(version byte, source, dest net.Addr) *proxyproto.Header {
	v_assert("C23.addresses", version == g_phVersion && source == g_phIn.RemoteAddr() && dest == g_phIn.LocalAddr())
	h := v_new[proxyproto.Header]()
	g_phHeader = h
	return h
}

//verif:model local (*github.com/pires/go-proxyproto.Header).SetTLVs
func v_model_setTLVs(h *proxyproto.Header, tlvs []proxyproto.TLV) error {
	return v_havoc[error]()
}

//verif:model local (*github.com/pires/go-proxyproto.Header).WriteTo
func v_model_headerWrite(h *proxyproto.Header, w io.Writer) (int64, error) {
	v_assert("C23.addresses", h == g_phHeader && h != nil && any(w) == g_phOut && h.Command == proxyproto.PROXY && !g_phWritten)
	g_phWritten = true
	return v_havoc[int64](), v_havoc[error]()
}

//verif:contract writeProxyHeader
//verif:inline
//verif:covers C23.addresses
func spec_writeProxyHeader(v byte, out io.Writer, in anyConn) func(error) {
	v_requires(out != nil && in != nil)
	g_phVersion, g_phIn, g_phOut = v, in, any(out)
	g_phHeader, g_phWritten = nil, false
	return func(err error) {
		v_ensures("C23.addresses", v_imp(err == nil, g_phWritten))
	}
}

var _ *netw.Conn

id='C25-proxied-key'; prop='C25'; pkg='proxy'
edits=[('proxy/conntracker.go','''	cc := localNetConn(c)
	delete(t.conns, connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()})
''','''	delete(t.conns, connKey{src: c.LocalAddr(), dst: c.RemoteAddr()})
''')]
demo='''
package proxy

import (
	"net"
	"testing"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/pires/go-proxyproto"
)

func TestDemo(t *testing.T) {
	l, err := netw.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	for _, proxied := range []bool{false, true} {
		c, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		s, err := l.Accept()
		if err != nil {
			t.Fatal(err)
		}
		conn := s.(*netw.Conn)
		if proxied {
			proxyproto.HeaderProxyFromAddrs(2, &net.TCPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 1}, &net.TCPAddr{IP: net.IPv4(192, 0, 2, 2), Port: 2}).WriteTo(c)
			conn.Conn = proxyproto.NewConn(conn.Conn)
		}
		tr := newConnTracker()
		tr.add(conn)
		if n := tr.remove(conn); n != 0 {
			t.Errorf("proxied=%v: %d connections left after the only one was removed", proxied, n)
		}
		c.Close()
		s.Close()
	}
}
'''
needs='A connection with a PROXY protocol header.'
breaks='Closed connections stay in the tracker, until the limit refuses every new one.'

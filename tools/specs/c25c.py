id='C25-proxied-limit'; prop='C25'; pkg='proxy'
edits=[('proxy/proxy.go','''	if p.acceptProxyHeader(conn.RemoteAddr()) {
		cc := proxyproto.NewConn(conn.Conn)
		conn.Conn = cc
	}
''','''	proxied := p.acceptProxyHeader(conn.RemoteAddr())
	if proxied {
		cc := proxyproto.NewConn(conn.Conn)
		conn.Conn = cc
	}
'''),('proxy/proxy.go','''	if numOpen >= p.cfg.MaxOpen {
		p.recordEvent("too many open connections")
		p.logErrorF("ERR [-] %s: too''','''	if numOpen >= p.cfg.MaxOpen && !(proxied && numOpen < 2*p.cfg.MaxOpen) {
		p.recordEvent("too many open connections")
		p.logErrorF("ERR [-] %s: too''')]
demo='''
package proxy

import (
	"net"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

func TestDemo(t *testing.T) {
	l, err := netw.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	_, n, _ := net.ParseCIDR("127.0.0.0/8")
	for _, from := range [][]*net.IPNet{nil, {n}} {
		p := &Proxy{
			cfg:     &Config{MaxOpen: 3, acceptProxyHeaderFrom: from},
			inConns: newConnTracker(),
			events:  map[string]int64{},
		}
		p.connClosed = sync.NewCond(&p.mu)
		waiting := 0
		for i := 0; i < 5; i++ {
			c, err := net.Dial("tcp", l.Addr().String())
			if err != nil {
				t.Fatal(err)
			}
			defer c.Close()
			s, err := l.Accept()
			if err != nil {
				t.Fatal(err)
			}
			if from != nil {
				c.Write([]byte("PROXY TCP4 192.0.2.1 192.0.2.2 1234 443\\r\\n"))
			}
			go p.handleConnection(s.(*netw.Conn))
			c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
			b := make([]byte, 10)
			_, err = c.Read(b)
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				waiting++
			}
		}
		if waiting > 3 {
			t.Errorf("from=%v: %d connections are served, the maximum is 3", from, waiting)
		}
	}
}
'''
needs='Connections from a trusted PROXY protocol peer when the maximum is reached.'
breaks='Twice as many connections as configured are served.'

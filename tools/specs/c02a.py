id='C02-proxied-peer'; prop='C02'; pkg='proxy'
edits=[('proxy/proxy.go','''	if err := be.checkIP(conn.RemoteAddr()); err != nil {
		serverName := idnaToUnicode(connServerName(conn))
		p.recordEvent(serverName + " CheckIP " + err.Error())
		be.logConnF''','''	addr := conn.RemoteAddr()
	if pc, ok := conn.Conn.(*proxyproto.Conn); ok {
		addr = pc.Raw().RemoteAddr()
	}
	if err := be.checkIP(addr); err != nil {
		serverName := idnaToUnicode(connServerName(conn))
		p.recordEvent(serverName + " CheckIP " + err.Error())
		be.logConnF''')]
demo='''
package proxy

import (
	"net"
	"testing"

	"github.com/pires/go-proxyproto"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

func TestDemo(t *testing.T) {
	l, err := netw.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	hdr := proxyproto.HeaderProxyFromAddrs(1, &net.TCPAddr{IP: net.IPv4(192, 0, 2, 7), Port: 1234}, &net.TCPAddr{IP: net.IPv4(198, 51, 100, 1), Port: 443})
	if _, err := hdr.WriteTo(c); err != nil {
		t.Fatal(err)
	}
	c.Write([]byte("hello"))
	s, err := l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	conn := s.(*netw.Conn)
	conn.Conn = proxyproto.NewConn(conn.Conn)
	_, n, _ := net.ParseCIDR("192.0.2.0/24")
	be := &Backend{denyIPs: &[]*net.IPNet{n}}
	conn.SetAnnotation(backendKey, be)
	conn.SetAnnotation(serverNameKey, "example.com")
	be.recordEvent = func(string) {}
	p := &Proxy{events: map[string]int64{}}
	if err := p.checkIP(conn); err == nil {
		t.Errorf("client %s is in the deny list but was accepted", conn.RemoteAddr())
	}
}
'''
needs='a connection from a trusted PROXY-protocol peer whose header names a denied (or not allowed) client address'
breaks='the address policy is applied to the load balancer instead of the client it announced'

id='C04-no-cert'; prop='C04'; pkg='proxy'
edits=[('proxy/proxy.go','''		clientCert := connClientCert(conn)
		if err := be.authorize(clientCert); err != nil {''','''		clientCert := connClientCert(conn)
		if clientCert == nil && be.ClientAuth.ACL != nil && connMode(conn) == be.Mode {
			// No certificate was requested when this connection was opened.
			continue
		}
		if err := be.authorize(clientCert); err != nil {''')]
demo='''
package proxy

import (
	"net"
	"testing"
)

type demoConn struct {
	net.Conn
	ann    map[string]any
	closed bool
}

func (c *demoConn) Annotation(k string, d any) any {
	if v, ok := c.ann[k]; ok {
		return v
	}
	return d
}
func (c *demoConn) SetAnnotation(k string, v any) { c.ann[k] = v }
func (c *demoConn) BytesSent() int64              { return 0 }
func (c *demoConn) BytesReceived() int64          { return 0 }
func (c *demoConn) ByteRateSent() float64         { return 0 }
func (c *demoConn) ByteRateReceived() float64     { return 0 }
func (c *demoConn) Close() error                  { c.closed = true; return nil }
func (c *demoConn) RemoteAddr() net.Addr          { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (c *demoConn) LocalAddr() net.Addr           { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }

func TestDemo(t *testing.T) {
	acl := []string{"DNS:a"}
	old := &Backend{Mode: ModeTCP, state: &backendState{}}
	be := &Backend{Mode: ModeTCP, state: &backendState{}, ClientAuth: &ClientAuth{ACL: &acl}}
	p := &Proxy{cfg: &Config{}, inConns: newConnTracker(), events: map[string]int64{}, backends: map[beKey]*Backend{{serverName: "a.example.com"}: be}}
	c := &demoConn{ann: map[string]any{serverNameKey: "a.example.com", backendKey: old}}
	p.inConns.add(c)
	p.reAuthorize()
	if !c.closed {
		t.Error("a connection without certificate stays open on a backend whose access list requires one")
	}
}
'''
needs='a connection opened before the backend got an access list, then a reconfiguration that adds the list'
breaks='open connections without client certificate survive a reconfiguration that requires one'

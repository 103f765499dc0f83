//verif:dir proxy

package proxy

import (
	"crypto/x509"
	"fmt"
	"net"
	"testing"
)

type verifC04Conn struct {
	net.Conn
	id     int
	ann    map[string]any
	closed bool
}

func (c *verifC04Conn) Annotation(k string, d any) any {
	if v, ok := c.ann[k]; ok {
		return v
	}
	return d
}
func (c *verifC04Conn) SetAnnotation(k string, v any) { c.ann[k] = v }
func (c *verifC04Conn) BytesSent() int64              { return 0 }
func (c *verifC04Conn) BytesReceived() int64          { return 0 }
func (c *verifC04Conn) ByteRateSent() float64         { return 0 }
func (c *verifC04Conn) ByteRateReceived() float64     { return 0 }
func (c *verifC04Conn) Close() error                  { c.closed = true; return nil }
func (c *verifC04Conn) RemoteAddr() net.Addr          { return c.ann["remote"].(net.Addr) }
func (c *verifC04Conn) LocalAddr() net.Addr           { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: c.id} }

func TestVerifC04ReAuthorize(t *testing.T) {
	_, n10, _ := net.ParseCIDR("10.0.0.0/8")
	deny := []*net.IPNet{n10}
	certA := &x509.Certificate{DNSNames: []string{"a"}}
	certB := &x509.Certificate{DNSNames: []string{"b"}}
	acl := []string{"DNS:a"}
	noACL := &ClientAuth{}
	aclA := &ClientAuth{ACL: &acl}
	newBE := func(mode string, d *[]*net.IPNet, ca *ClientAuth) *Backend {
		be := &Backend{Mode: mode, ClientAuth: ca, denyIPs: d, state: &backendState{}}
		return be
	}
	var newBEs []*Backend
	for _, m := range []string{ModeTCP, ModeHTTP, ModeTLSPassthrough} {
		for _, d := range []*[]*net.IPNet{nil, &deny} {
			for _, ca := range []*ClientAuth{nil, noACL, aclA} {
				newBEs = append(newBEs, newBE(m, d, ca))
			}
		}
	}
	for i, be := range newBEs {
		for j, alt := range newBEs {
			p := &Proxy{cfg: &Config{}, inConns: newConnTracker(), backends: map[beKey]*Backend{
				{serverName: "a.example.com"}:              be,
				{serverName: "a.example.com", proto: "h2"}: alt,
			}}
			p.eventsmu.Lock()
			p.events = make(map[string]int64)
			p.eventsmu.Unlock()
			type tc struct {
				c    *verifC04Conn
				want bool
			}
			var conns []tc
			for _, name := range []any{nil, "", "a.example.com", "gone.example.com"} {
				for _, proto := range []any{nil, "h2", "other"} {
					for _, old := range []*Backend{nil, newBEs[0], newBEs[6], newBEs[12]} {
						for k, ip := range []string{"10.1.1.1", "11.1.1.1"} {
							for _, cert := range []*x509.Certificate{nil, certA, certB} {
								c := &verifC04Conn{id: len(conns) + 1, ann: map[string]any{"remote": &net.TCPAddr{IP: net.ParseIP(ip), Port: 1}}}
								if name != nil {
									c.ann[serverNameKey] = name
								}
								if proto != nil {
									c.ann[protoKey] = proto
								}
								if old != nil {
									c.ann[backendKey] = old
								}
								if k == j%2 {
									c.ann[modeKey] = be.Mode
								}
								if cert != nil {
									c.ann[clientCertKey] = cert
								}
								cur := be
								if proto == "h2" {
									cur = alt
								}
								ok := name == nil || name == "a.example.com" &&
									(old == nil || old.Mode == cur.Mode) &&
									(cur.denyIPs == nil || ip != "10.1.1.1") &&
									(cur.ClientAuth == nil || cur.ClientAuth.ACL == nil || cert == certA)
								conns = append(conns, tc{c, !ok})
							}
						}
					}
				}
			}
			for _, c := range conns {
				p.inConns.add(c.c)
			}
			if n := len(p.inConns.slice()); n != len(conns) {
				t.Fatalf("%d of %d open connections are listed", n, len(conns))
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						t.Fatalf("backends %d, %d: reAuthorize panicked: %v", i, j, e)
					}
				}()
				p.reAuthorize()
			}()
			for _, c := range conns {
				if c.want && !c.c.closed {
					t.Fatalf("backends %d, %d: a connection was left open: %s", i, j, fmt.Sprint(c.c.ann))
				}
			}
		}
	}
}

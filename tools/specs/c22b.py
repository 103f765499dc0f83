exec(open('/verif/tools/specs/c22base.py').read())
id='C22-override-inherits-roots'; prop='C22'; pkg='proxy'
edits=[('proxy/backend.go','''		rootCAs = po.forwardRootCAs
		proxyProtoVersion = po.proxyProtocolVersion
''','''		if po.forwardRootCAs != nil {
			rootCAs = po.forwardRootCAs
		}
		proxyProtoVersion = po.proxyProtocolVersion
''')]
demo='''
package proxy

import (
	"context"
	"crypto/tls"
	"net"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/certmanager"
)
'''+HELP+'''
func TestDemo(t *testing.T) {
	_ = demoListen
	var _ net.Conn
	ca, err := certmanager.New("ca.example.com", t.Logf)
	if err != nil {
		t.Fatal(err)
	}
	l, err := tls.Listen("tcp", "127.0.0.1:0", ca.TLSConfig())
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() { c.(*tls.Conn).Handshake(); c.Close() }()
		}
	}()
	addrs := []string{l.Addr().String()}
	be := demoBackend(&Backend{
		Mode: ModeTLS, Addresses: addrs, ForwardServerName: "a.example.com", forwardRootCAs: ca.RootCACertPool(),
		PathOverrides: []*PathOverride{{Mode: ModeTLS, Addresses: addrs, ForwardServerName: "a.example.com"}},
	})
	for _, o := range []bool{false, true} {
		ctx := context.Background()
		if o {
			ctx = context.WithValue(ctx, ctxOverrideIDKey, 0)
		}
		c, err := be.dial(ctx)
		if err != nil {
			t.Fatal(err)
		}
		c.SetDeadline(time.Now().Add(5 * time.Second))
		_, err = c.Write(nil)
		tc := netwConn(c).Conn.(*tls.Conn)
		if err == nil {
			err = tc.Handshake()
		}
		if (err != nil) != o {
			t.Fatalf("override %v: handshake: %v", o, err)
		}
		c.Close()
	}
}
'''
needs='A backend with its own root certificates and a path override without any, whose server has a certificate from those roots.'
breaks='The TLS connection for the path override trusts the root certificates of the backend instead of the system roots.'

exec(open('/verif/tools/specs/c22base.py').read())
id='C22-override-rotation'; prop='C22'; pkg='proxy'
edits=[('proxy/backend.go','''		proxyProtoVersion = po.proxyProtocolVersion
		next = &be.state.oNext[id]
''','''		proxyProtoVersion = po.proxyProtocolVersion
''')]
demo='''
package proxy

import (
	"context"
	"crypto/tls"
	"net"
	"testing"
	"time"
)
'''+HELP+'''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	a, b := demoListen(t), demoListen(t)
	be := demoBackend(&Backend{Mode: ModeTCP, Addresses: []string{a, b}, PathOverrides: []*PathOverride{{Mode: ModeTCP, Addresses: []string{b}}}})
	for i, ctx := range []context.Context{context.Background(), context.WithValue(context.Background(), ctxOverrideIDKey, 0), context.Background()} {
		c, err := be.dial(ctx)
		if err != nil {
			t.Fatalf("#%d: %v", i, err)
		}
		if got, want := c.RemoteAddr().String(), []string{a, b, b}[i]; got != want {
			t.Fatalf("#%d: connected to %s, want %s", i, got, want)
		}
		c.Close()
	}
}
'''
needs='A path override with fewer addresses than its backend, and a dial for it after a dial for the backend.'
breaks='The override uses the rotation of the backend, which can be outside of its own address list: the dial panics with the state of the backend locked.'

id='C08-last-proto'; prop='C08'; pkg='proxy'
edits=[('proxy/proxy.go','''		if be, ok = p.backends[beKey{serverName: serverName, proto: proto}]; ok {
			break
		}
	}''','''		if b, exists := p.backends[beKey{serverName: serverName, proto: proto}]; exists {
			be, ok = b, true
		}
	}''')]
demo='''
package proxy

import "testing"

func TestDemo(t *testing.T) {
	a, b := &Backend{state: new(backendState)}, &Backend{state: new(backendState)}
	p := &Proxy{backends: map[beKey]*Backend{
		{serverName: "example.com", proto: "h2"}:   a,
		{serverName: "example.com", proto: "imap"}: b,
	}}
	if be, err := p.backend("example.com", "h2", "imap"); err != nil || be != a {
		t.Errorf("backend() = %p, %v, want the h2 backend %p", be, err, a)
	}
}
'''
needs='a server name with entries for two different ALPN protocols, and a client that offers both'
breaks='the client is routed by its least preferred protocol instead of the first one that has an entry'

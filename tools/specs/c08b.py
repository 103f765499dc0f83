id='C08-shutdown-default'; prop='C08'; pkg='proxy'
edits=[('proxy/proxy.go','''	if !ok {
		be, ok = p.backends[beKey{serverName: serverName}]
	}
	if !ok {
		return nil, errors.New("unexpected SNI")
	}
	be.state.mu.Lock()''','''	if !ok || be.isShutdown() {
		if be, ok = p.backends[beKey{serverName: serverName}]; ok {
			return be, nil
		}
	}
	if !ok {
		return nil, errors.New("unexpected SNI")
	}
	be.state.mu.Lock()'''),('proxy/proxy.go','''func formatReqDesc(''','''// isShutdown reports whether the backend stopped accepting connections.
func (be *Backend) isShutdown() bool {
	be.state.mu.Lock()
	defer be.state.mu.Unlock()
	return be.state.shutdown
}

func formatReqDesc(''')]
demo='''
package proxy

import "testing"

func TestDemo(t *testing.T) {
	a := &Backend{state: new(backendState)}
	a.state.shutdown = true
	p := &Proxy{backends: map[beKey]*Backend{{serverName: "example.com"}: a}}
	if be, err := p.backend("example.com", "h2"); err == nil {
		t.Errorf("backend() = %p, want an error: the backend is shutting down", be)
	}
}
'''
needs='a connection that arrives, for a name with only a default entry, after its backend began to shut down'
breaks='connections are routed to a backend that is shutting down'

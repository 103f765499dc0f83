id='C25-close-twice'; prop='C25'; pkg='proxy'
edits=[('proxy/backend.go','''	if be.state.inFlight == 0 && be.state.shutdown && be.httpServer != nil {
		close(be.httpConnChan)
		be.httpServer = nil
	}
''','''	if be.state.inFlight == 0 && be.state.shutdown && be.httpServer != nil {
		close(be.httpConnChan)
	}
''')]
demo='''
package proxy

import (
	"context"
	"net"
	"net/http"
	"testing"
)

func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	be := &Backend{state: &backendState{}, httpServer: &http.Server{}, httpConnChan: make(chan net.Conn)}
	be.incInFlight(1)
	be.close(context.Background())
	be.incInFlight(-1)
	// A connection that was routed before the configuration changed.
	be.incInFlight(1)
	be.incInFlight(-1)
}
'''
needs='A backend that is replaced with a connection in flight, and a connection that was routed to it just before and is counted after that one closed.'
breaks='The hand-off channel is closed a second time, which panics with the state of the backend locked.'

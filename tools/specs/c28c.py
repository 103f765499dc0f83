exec(open('/verif/tools/specs/c28base.py').read())
id='C28-early-return'; prop='C28'; pkg='proxy'
edits=[('proxy/backend.go','''	ch := make(chan error)
	go func() {
		ch <- forward(client''','''	ch := make(chan error, 1)
	go func() {
		ch <- forward(client'''),('proxy/backend.go','''		retErr = fmt.Errorf("[ext➔ int]: %w", unwrapErr(err))
	}
''','''		retErr = fmt.Errorf("[ext➔ int]: %w", unwrapErr(err))
	} else if err != nil {
		return nil // already closed
	}
''')]
demo='''
package proxy

import (
	"io"
	"net"
	"sync"
	"testing"
	"time"
)
'''+FAKE+'''
func TestDemo(t *testing.T) {
	client := &demoConn{release: make(chan struct{}), rerr: net.ErrClosed}
	server := &demoConn{release: make(chan struct{}), rerr: io.EOF}
	done := make(chan error, 1)
	go func() { done <- (&Backend{}).bridgeConns(demoHalf{client}, demoHalf{server}) }()
	close(client.release)
	select {
	case <-done:
		t.Fatal("the bridge returned before both directions were finished")
	case <-time.After(500 * time.Millisecond):
	}
	close(server.release)
	<-done
}
'''
needs='A connection that another goroutine closes while the other direction still has data to deliver.'
breaks='The bridge returns, and the handler closes everything, before the other direction is finished.'

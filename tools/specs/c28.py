exec(open('/verif/tools/specs/c28base.py').read())
id='C28-deadline-side'; prop='C28'; pkg='proxy'
edits=[('proxy/backend.go','''	out.SetReadDeadline(time.Now().Add(halfClosedTimeout))
	return nil
''','''	in.SetReadDeadline(time.Now().Add(halfClosedTimeout))
	return nil
''')]
demo='''
package proxy

import (
	"io"
	"net"
	"sync"
	"testing"
	"time"
)
'''+FAKE+'''
func TestDemo(t *testing.T) {
	in := &demoConn{release: make(chan struct{}), rerr: io.EOF}
	out := &demoConn{release: make(chan struct{}), rerr: io.EOF}
	close(in.release)
	forward(demoHalf{out}, demoHalf{in}, false, time.Minute)
	if !out.eof || out.closed || out.deadline.IsZero() {
		t.Fatalf("eof=%v closed=%v deadline=%v", out.eof, out.closed, out.deadline)
	}
}
'''
needs='A half-closed connection whose other end never finishes.'
breaks='The deadline is set on the side that has already ended, so the remaining direction is kept open forever.'

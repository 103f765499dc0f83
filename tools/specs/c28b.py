exec(open('/verif/tools/specs/c28base.py').read())
id='C28-nested-half'; prop='C28'; pkg='proxy'
edits=[('proxy/backend.go','''	if cc, ok := c.(*netw.Conn); ok {
		return closeWrite(cc.Conn)
	}
	return fmt.Errorf("unexpected type: %T", c)
''','''	if cc, ok := c.(*netw.Conn); ok {
		if cw, ok := cc.Conn.(closeWriter); ok {
			return cw.CloseWrite()
		}
		return nil
	}
	return fmt.Errorf("unexpected type: %T", c)
''')]
demo='''
package proxy

import (
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)
'''+FAKE+'''
func TestDemo(t *testing.T) {
	for i, wrap := range []func(*demoConn) net.Conn{
		func(c *demoConn) net.Conn { return demoHalf{c} },
		func(c *demoConn) net.Conn { return netw.NewConnForTest(demoHalf{c}) },
		func(c *demoConn) net.Conn { return netw.NewConnForTest(netw.NewConnForTest(demoHalf{c})) },
		func(c *demoConn) net.Conn { return netw.NewConnForTest(c) },
	} {
		in := &demoConn{release: make(chan struct{}), rerr: io.EOF}
		out := &demoConn{release: make(chan struct{}), rerr: io.EOF}
		close(in.release)
		forward(wrap(out), demoHalf{in}, false, time.Minute)
		if !out.eof && !out.closed {
			t.Errorf("case %d: the end of stream is not relayed", i)
		}
	}
}
'''
needs='A wrapped connection that cannot be half closed, or that is wrapped twice.'
breaks='The half close is reported to have worked, and the receiver never gets an end of stream.'

id='C26-peek-uncounted'; prop='C26'; pkg='proxy/internal/netw'
edits=[('proxy/internal/netw/netw.go','''	var n int
	var err error
	if len(c.peekBuf) > 0 {
		n = copy(b, c.peekBuf)
		c.peekBuf = c.peekBuf[n:]
	} else {
		n, err = c.Conn.Read(b)
	}
''','''	var n int
	var err error
	if len(c.peekBuf) > 0 {
		n = copy(b, c.peekBuf)
		if c.peekBuf = c.peekBuf[n:]; len(c.peekBuf) > 0 {
			// There is more: it is counted when the buffer is drained.
			return n, nil
		}
	} else {
		n, err = c.Conn.Read(b)
	}
''')]
demo='''
package netw

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	go func() {
		a.Write([]byte("hello world"))
		a.Close()
	}()
	c := NewConn(b)
	buf := make([]byte, 10)
	if n, err := c.Peek(buf); n != 10 || err != nil {
		t.Fatalf("Peek: %d %v", n, err)
	}
	for want := int64(3); want <= 9; want += 3 {
		if n, err := c.Read(make([]byte, 3)); n != 3 || err != nil {
			t.Fatalf("Read: %d %v", n, err)
		}
		if got := c.BytesReceived(); got != want {
			t.Errorf("%d bytes counted, want %d", got, want)
		}
	}
}
'''
needs='A read that takes only a part of the peeked bytes (smaller buffer than the peek).'
breaks='The bytes of such a read are delivered but never counted.'

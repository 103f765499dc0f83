id='C26-short-peek'; prop='C26'; pkg='proxy/internal/netw'
edits=[('proxy/internal/netw/netw.go','''		n, _ := io.ReadFull(c.Conn, bb)
		c.peekBuf = append(c.peekBuf, bb[:n]...)
		c.Conn.SetReadDeadline(time.Time{})
''','''		n, err := io.ReadFull(c.Conn, bb)
		c.Conn.SetReadDeadline(time.Time{})
		if err != nil {
			return copy(b, append(c.peekBuf[:have:have], bb[:n]...)), io.ErrUnexpectedEOF
		}
		c.peekBuf = append(c.peekBuf, bb...)
''')]
demo='''
package netw

import (
	"io"
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	go func() {
		a.Write([]byte("hello"))
		a.Close()
	}()
	c := NewConn(b)
	buf := make([]byte, 10)
	if n, err := c.Peek(buf); n != 5 || err == nil || string(buf[:n]) != "hello" {
		t.Fatalf("Peek: %d %v %q", n, err, buf)
	}
	if got, _ := io.ReadAll(c); string(got) != "hello" {
		t.Errorf("read %q, want hello", got)
	}
}
'''
needs='A peek that does not get all the bytes it asks for (end of stream or deadline), followed by a read.'
breaks='The bytes taken by the failed peek are lost for the reader.'

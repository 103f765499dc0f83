//verif:dir proxy/internal/netw

package netw

import (
	"bytes"
	"errors"
	"io"
	"math/rand"
	"net"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/counter"
)

// vConn is a stream that delivers its bytes in pieces, with errors (like an
// expired deadline) in between.
type vConn struct {
	net.Conn
	r    *rand.Rand
	data []byte
	pos  int
	out  []byte
	max  int
	errs bool
}

func (c *vConn) SetReadDeadline(time.Time) error { return nil }

func (c *vConn) Read(b []byte) (int, error) {
	if c.errs && c.r.Intn(4) == 0 {
		return 0, errors.New("timeout")
	}
	if c.pos == len(c.data) {
		return 0, io.EOF
	}
	n := copy(b, c.data[c.pos:min(len(c.data), c.pos+1+c.r.Intn(c.max))])
	c.pos += n
	if c.errs && c.r.Intn(8) == 0 {
		return n, errors.New("timeout")
	}
	return n, nil
}

func (c *vConn) Write(b []byte) (int, error) {
	n := len(b)
	var err error
	if c.r.Intn(4) == 0 {
		n, err = c.r.Intn(len(b)+1), io.ErrShortWrite
	}
	c.out = append(c.out, b[:n]...)
	return n, err
}

func TestVerifC26(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 20000; k++ {
		v := &vConn{r: r, data: make([]byte, r.Intn(60)), max: 1 + r.Intn(12), errs: r.Intn(2) == 0}
		r.Read(v.data)
		c := NewConn(v)
		up, down := counter.New(time.Minute, time.Second), counter.New(time.Minute, time.Second)
		c.SetCounters(up, down)
		var got, sent []byte
		for i := 0; i < 25; i++ {
			b := make([]byte, r.Intn(20))
			switch r.Intn(5) {
			case 0, 1:
				n, err := c.Peek(b)
				if n < 0 || n > len(b) || err == nil && n != len(b) || len(got)+n > len(v.data) || !bytes.Equal(b[:n], v.data[len(got):len(got)+n]) {
					t.Fatalf("VIOLATION C26: Peek = %d %v %x after %d bytes of %x", n, err, b, len(got), v.data)
				}
			case 4:
				r.Read(b)
				n, _ := c.Write(b)
				sent = append(sent, b[:n]...)
			default:
				n, _ := c.Read(b)
				got = append(got, b[:n]...)
				if len(got) > len(v.data) || !bytes.Equal(got, v.data[:len(got)]) {
					t.Fatalf("VIOLATION C26: read %x of %x", got, v.data)
				}
			}
			if c.BytesReceived() != int64(len(got)) || down.Value() != int64(len(got)) {
				t.Fatalf("VIOLATION C26: %d %d bytes counted, %d received", c.BytesReceived(), down.Value(), len(got))
			}
			if !bytes.Equal(sent, v.out) || c.BytesSent() != int64(len(sent)) || up.Value() != int64(len(sent)) {
				t.Fatalf("VIOLATION C26: %d %d bytes counted, %d sent", c.BytesSent(), up.Value(), len(sent))
			}
		}
		// nothing may be lost
		v.errs = false
		for i := 0; i < 200; i++ {
			b := make([]byte, 16)
			n, err := c.Read(b)
			got = append(got, b[:n]...)
			if err != nil {
				break
			}
		}
		if !bytes.Equal(got, v.data) {
			t.Fatalf("VIOLATION C26: read %x of %x", got, v.data)
		}
	}
}

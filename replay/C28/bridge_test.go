//verif:dir proxy

package proxy

import (
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

type verifC28Conn struct {
	net.Conn
	mu       sync.Mutex
	data     []byte
	err      error // after the data
	writeErr error
	halfErr  error
	release  chan struct{}
	got      []byte
	closed   bool
	eof      bool
	deadline time.Time
}

func (c *verifC28Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.data) > 0 {
		n := copy(b, c.data)
		c.data = c.data[n:]
		return n, nil
	}
	if c.release != nil {
		c.mu.Unlock()
		<-c.release
		c.mu.Lock()
	}
	return 0, c.err
}

func (c *verifC28Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.writeErr != nil {
		return 0, c.writeErr
	}
	if c.eof || c.closed {
		return 0, errors.New("write after close")
	}
	c.got = append(c.got, b...)
	return len(b), nil
}

func (c *verifC28Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed = true
	return nil
}

func (c *verifC28Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.deadline = t
	return nil
}

func (c *verifC28Conn) state() (closed, eof bool, deadline time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed, c.eof, c.deadline
}

type verifC28Half struct{ *verifC28Conn }

func (c verifC28Half) CloseWrite() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.halfErr == nil {
		c.eof = true
	}
	return c.halfErr
}

type verifC28Both struct{ verifC28Half }

func (c verifC28Both) CloseRead() error { return nil }

type verifC28BothErr struct{ verifC28Half }

func (c verifC28BothErr) CloseRead() error { return errors.New("half close") }

func TestVerifC28Forward(t *testing.T) {
	kinds := []string{"none", "write", "both", "writefails", "readfails"}
	mk := func(k string, wrap int) (*verifC28Conn, net.Conn) {
		c := &verifC28Conn{}
		var r net.Conn = c
		switch k {
		case "write":
			r = verifC28Half{c}
		case "both":
			r = verifC28Both{verifC28Half{c}}
		case "writefails":
			c.halfErr = errors.New("half close")
			r = verifC28Both{verifC28Half{c}}
		case "readfails":
			r = verifC28BothErr{verifC28Half{c}}
		}
		for ; wrap > 0; wrap-- {
			r = netw.NewConnForTest(r)
		}
		return c, r
	}
	for _, ko := range kinds {
		for _, ki := range kinds {
			for wrap := 0; wrap < 3; wrap++ {
				for _, copyErr := range []error{nil, errors.New("read"), errors.New("write"), io.ErrUnexpectedEOF} {
					for _, end := range []bool{false, true} {
						o, out := mk(ko, wrap)
						i, in := mk(ki, (wrap+1)%3)
						i.data = []byte("hello")
						i.err = io.EOF
						if copyErr != nil && copyErr.Error() == "write" {
							o.writeErr = copyErr
						} else if copyErr != nil {
							i.err = copyErr
						}
						before := time.Now()
						desc := fmt.Sprintf("out=%s in=%s wrap=%d copyErr=%v closeWhenDone=%v", ko, ki, wrap, copyErr, end)
						err := forward(out, in, end, time.Hour)
						if !errors.Is(err, copyErr) || (err != nil) != (copyErr != nil) {
							t.Errorf("VIOLATION C28: %s: error %v", desc, err)
						}
						if copyErr == nil && string(o.got) != "hello" {
							t.Errorf("VIOLATION C28: %s: received %q", desc, o.got)
						}
						if !o.closed && !o.eof {
							t.Errorf("VIOLATION C28: %s: the end of stream is not relayed", desc)
						}
						both := o.closed && i.closed
						if half := !end && copyErr == nil && (ko == "write" || ko == "both" || ko == "readfails") && ki != "readfails"; half {
							if o.closed || i.closed {
								t.Errorf("VIOLATION C28: %s: closed %v %v", desc, o.closed, i.closed)
							}
							if o.deadline.Before(before.Add(time.Hour)) || o.deadline.After(time.Now().Add(time.Hour)) {
								t.Errorf("VIOLATION C28: %s: deadline %v", desc, o.deadline)
							}
						} else if !both {
							t.Errorf("VIOLATION C28: %s: closed %v %v, want both", desc, o.closed, i.closed)
						}
					}
				}
			}
		}
	}
}

func TestVerifC28Bridge(t *testing.T) {
	tr, fa := true, false
	long, short := time.Hour, 30*time.Minute
	for _, sc := range []*bool{nil, &tr, &fa} {
		for _, cc := range []*bool{nil, &tr, &fa} {
			for _, to := range []*time.Duration{nil, &long, &short} {
				for k, clientFirst := range []bool{true, false, true, false, true, false} {
					be := &Backend{ServerCloseEndsConnection: sc, ClientCloseEndsConnection: cc, HalfCloseTimeout: to}
					c := &verifC28Conn{data: []byte("from client"), err: io.EOF, release: make(chan struct{})}
					s := &verifC28Conn{data: []byte("from server"), err: io.EOF, release: make(chan struct{})}
					done := make(chan error, 1)
					go func() { done <- be.bridgeConns(verifC28Both{verifC28Half{c}}, verifC28Both{verifC28Half{s}}) }()
					first, second, ends := c, s, cc != nil && *cc
					if !clientFirst {
						first, second, ends = s, c, sc == nil || *sc
					}
					if k > 1 {
						first.err = []error{net.ErrClosed, errors.New("read")}[k/2-1]
						ends = true
					}
					want := time.Minute
					if to != nil {
						want = *to
					}
					for i := 0; ; i++ {
						c.mu.Lock()
						n := len(c.got)
						c.mu.Unlock()
						s.mu.Lock()
						n += len(s.got)
						s.mu.Unlock()
						if n == 22 {
							break
						}
						if i > 5000 {
							t.Fatalf("VIOLATION C28: data is not relayed")
						}
						time.Sleep(time.Millisecond)
					}
					before := time.Now()
					close(first.release)
					ok := false
					for i := 0; i < 2000 && !ok; i++ {
						closed, eof, deadline := second.state()
						fclosed, _, _ := first.state()
						if ends {
							ok = closed && fclosed
						} else {
							ok = eof && !closed && !fclosed && !deadline.Before(before.Add(want)) && !deadline.After(time.Now().Add(want))
						}
						if !ok {
							time.Sleep(time.Millisecond)
						}
					}
					desc := fmt.Sprintf("server=%v client=%v timeout=%v clientFirst=%v", sc, cc, want, clientFirst)
					if !ok {
						closed, eof, deadline := second.state()
						t.Fatalf("VIOLATION C28: %s: after one side ended, the other has closed=%v eof=%v deadline=%v", desc, closed, eof, deadline)
					}
					time.Sleep(2 * time.Millisecond)
					select {
					case <-done:
						t.Fatalf("VIOLATION C28: %s: the bridge returned before both directions were finished", desc)
					default:
					}
					close(second.release)
					select {
					case <-done:
					case <-time.After(10 * time.Second):
						t.Fatalf("VIOLATION C28: %s: the bridge does not return", desc)
					}
				}
			}
		}
	}
}

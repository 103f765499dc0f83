//verif:dir proxy

package proxy

import (
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/pires/go-proxyproto"
	"golang.org/x/time/rate"
)

type verifC25Server struct{}

func (verifC25Server) Close() error                   { return nil }
func (verifC25Server) Shutdown(context.Context) error { return nil }

// The hand-off channel is closed once, when nothing is in flight or on a hard
// stop.
func TestVerifC25Channel(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 20000; k++ {
		ch := make(chan net.Conn)
		closed := func() bool {
			select {
			case <-ch:
				return true
			default:
				return false
			}
		}
		be := &Backend{state: &backendState{}, httpServer: &http.Server{}, httpConnChan: ch}
		n := 0
		var soft, hard bool
		var hist []string
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Fatalf("VIOLATION C25: %v: panic: %v", hist, e)
				}
			}()
			for i := 0; i < 12; i++ {
				switch x := r.Intn(8); {
				case x < 3:
					n++
					hist = append(hist, "inc")
					be.incInFlight(1)
				case x < 6 && n > 0:
					n--
					hist = append(hist, "dec")
					be.incInFlight(-1)
				case x == 6:
					soft = true
					hist = append(hist, "close")
					be.close(context.Background())
				case x == 7 && r.Intn(3) == 0:
					hard = true
					hist = append(hist, "stop")
					be.close(nil)
				default:
					continue
				}
				if closed() {
					if !hard && !(soft && n == 0) {
						t.Fatalf("VIOLATION C25: %v: the channel is closed with %d connections in flight", hist, n)
					}
					hard = true // it stays closed
				} else if hard || soft && n == 0 {
					t.Fatalf("VIOLATION C25: %v: the channel is not closed", hist)
				}
				if be.state.inFlight != n {
					t.Fatalf("VIOLATION C25: %v: in flight %d, want %d", hist, be.state.inFlight, n)
				}
			}
		}()
	}
}

func verifC25Proxy(be *Backend, maxOpen int) *Proxy {
	p := &Proxy{
		cfg:      &Config{MaxOpen: maxOpen},
		inConns:  newConnTracker(),
		outConns: newConnTracker(),
		backends: map[beKey]*Backend{{serverName: "a.example.com"}: be},
		events:   map[string]int64{},
		ctx:      context.Background(),
	}
	p.connClosed = sync.NewCond(&p.mu)
	be.outConns = p.outConns
	be.getClientCert = func(context.Context) func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return nil }
	be.recordEvent = func(string) {}
	return p
}

// The count follows the connection, whenever it is closed.
func TestVerifC25Assign(t *testing.T) {
	srv, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer srv.Close()
	go func() {
		for {
			c, err := srv.Accept()
			if err != nil {
				return
			}
			go func() {
				b := make([]byte, 1000)
				c.Read(b)
				c.Read(b)
				c.Close()
			}()
		}
	}()
	l, err := netw.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	wait := func(what string, f func() bool) {
		for i := 0; i < 5000; i++ {
			if f() {
				return
			}
			time.Sleep(time.Millisecond)
		}
		t.Fatalf("VIOLATION C25: %s", what)
	}
	for _, early := range []bool{true, false} {
		be := &Backend{Mode: ModeTLSPassthrough, Addresses: []string{srv.Addr().String()}, ForwardTimeout: time.Second, state: &backendState{}, connLimit: rate.NewLimiter(rate.Inf, 1)}
		p := verifC25Proxy(be, 100)
		inFlight := func() int {
			be.state.mu.Lock()
			defer be.state.mu.Unlock()
			return be.state.inFlight
		}
		c, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		s, err := l.Accept()
		if err != nil {
			t.Fatal(err)
		}
		conn := s.(*netw.Conn)
		done := make(chan struct{})
		go func() {
			p.handleConnection(conn)
			close(done)
		}()
		wait("the connection is not tracked", func() bool { return len(p.inConns.slice()) == 1 })
		if early {
			p.mu.Lock()
		}
		go tls.Client(c, &tls.Config{ServerName: "a.example.com"}).Handshake()
		if early {
			// Closed by another goroutine while the handler looks
			// for the backend.
			wait("no server name", func() bool { return connServerNameIsSet(conn) })
			conn.Close()
			p.mu.Unlock()
		} else {
			wait("the connection is not in flight", func() bool { return inFlight() == 1 })
			conn.Close()
		}
		c.Close()
		<-done
		wait("the connection is still tracked", func() bool { return len(p.inConns.slice()) == 0 })
		if n := inFlight(); n != 0 {
			t.Errorf("VIOLATION C25: closed early=%v: %d in flight after the connection was closed and its handler returned", early, n)
		}
	}
}

// No connection is served when the maximum is reached.
func TestVerifC25Limit(t *testing.T) {
	l, err := netw.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	_, lo, _ := net.ParseCIDR("127.0.0.0/8")
	for k := 2; k < 10; k++ {
		max := k / 2
		be := &Backend{Mode: ModeTLSPassthrough, Addresses: []string{"127.0.0.1:1"}, ForwardTimeout: time.Second, state: &backendState{}, connLimit: rate.NewLimiter(rate.Inf, 1)}
		p := verifC25Proxy(be, max)
		if k%2 == 1 {
			p.cfg.acceptProxyHeaderFrom = []*net.IPNet{lo}
		}
		var conns []net.Conn
		for i := 0; i < max+2; i++ {
			c, err := net.Dial("tcp", l.Addr().String())
			if err != nil {
				t.Fatal(err)
			}
			s, err := l.Accept()
			if err != nil {
				t.Fatal(err)
			}
			conns = append(conns, c)
			if k%2 == 1 {
				c.Write([]byte("PROXY TCP4 192.0.2.1 192.0.2.2 1234 443\r\n"))
			}
			go p.handleConnection(s.(*netw.Conn))
			b := make([]byte, 10)
			c.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
			n, err := c.Read(b)
			ne, ok := err.(net.Error)
			waiting := n == 0 && ok && ne.Timeout()
			if waiting && i >= max {
				t.Errorf("VIOLATION C25: connection %d is served, the maximum is %d", i+1, max)
			}
			if got := len(p.inConns.slice()); got > i+1 {
				t.Errorf("VIOLATION C25: %d connections tracked after %d", got, i+1)
			}
		}
		for _, c := range conns {
			c.Close()
		}
		for i := 0; len(p.inConns.slice()) > 0; i++ {
			if i > 5000 {
				t.Fatalf("VIOLATION C25: %d connections still tracked", len(p.inConns.slice()))
			}
			time.Sleep(time.Millisecond)
		}
	}
}

func TestVerifC25Tracker(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	tr := newConnTracker()
	want := map[*netw.Conn]bool{}
	var all []*netw.Conn
	for i := 0; i < 20; i++ {
		// Different connections can have the same addresses.
		a := &net.TCPAddr{IP: net.IPv4(10, 0, 0, byte(i/4)), Port: 1}
		var c net.Conn = &verifC25Conn{local: a, remote: &net.TCPAddr{IP: a.IP, Port: 2 + i%4}}
		if i%3 == 0 {
			c = proxyproto.NewConn(c)
		}
		all = append(all, netw.NewConnForTest(c))
	}
	for i := 0; i < 5000; i++ {
		c := all[r.Intn(len(all))]
		var n int
		op := "add"
		if r.Intn(2) == 0 {
			want[c] = true
			n = tr.add(c)
		} else {
			op = "remove"
			delete(want, c)
			n = tr.remove(c)
		}
		if n != len(want) || len(tr.slice()) != len(want) {
			t.Fatalf("VIOLATION C25: %s returns %d and slice has %d, want %d", op, n, len(tr.slice()), len(want))
		}
		for _, c := range tr.slice() {
			if !want[c.(*netw.Conn)] {
				t.Fatalf("VIOLATION C25: %v is in the slice", fmt.Sprint(c))
			}
		}
	}
}

type verifC25Conn struct {
	net.Conn
	local, remote net.Addr
}

func (c *verifC25Conn) Read([]byte) (int, error)        { return 0, io.EOF }
func (c *verifC25Conn) SetReadDeadline(time.Time) error { return nil }

func (c *verifC25Conn) LocalAddr() net.Addr  { return c.local }
func (c *verifC25Conn) RemoteAddr() net.Addr { return c.remote }

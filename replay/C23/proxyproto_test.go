//verif:dir proxy

package proxy

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/pires/go-proxyproto"
	"golang.org/x/time/rate"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

func TestVerifC23Trusted(t *testing.T) {
	r := rand.New(rand.NewSource(3))
	cidrs := []string{"10.0.0.0/8", "10.1.2.3/32", "192.168.0.0/30", "2001:db8::/32", "::1/128", "0.0.0.0/0", "127.0.0.0/8"}
	ips := []string{"10.1.2.3", "10.1.2.4", "11.0.0.1", "192.168.0.3", "192.168.0.4", "2001:db8::1", "2001:db9::1", "::1", "127.0.0.1", "::ffff:10.1.2.3", "::ffff:127.0.0.1"}
	for k := 0; k < 600; k++ {
		var nets []*net.IPNet
		var set []string
		for i := r.Intn(4); i > 0; i-- {
			c := cidrs[r.Intn(len(cidrs))]
			_, n, _ := net.ParseCIDR(c)
			nets, set = append(nets, n), append(set, c)
		}
		p := &Proxy{cfg: &Config{acceptProxyHeaderFrom: nets}}
		ip := net.ParseIP(ips[r.Intn(len(ips))])
		want := false
		for _, n := range nets {
			want = want || n.Contains(ip)
		}
		if got := p.acceptProxyHeader(&net.TCPAddr{IP: ip, Port: 99}); got != want {
			t.Fatalf("VIOLATION C23: networks %v: the PROXY header of %v is accepted: %v", set, ip, got)
		}
		if p.acceptProxyHeader(&net.UDPAddr{IP: ip, Port: 99}) || p.acceptProxyHeader(&net.UnixAddr{Name: ip.String(), Net: "unix"}) || p.acceptProxyHeader(nil) {
			t.Fatalf("VIOLATION C23: networks %v: the PROXY header of a peer that is not a TCP peer is accepted", set)
		}
	}
}

type verifC23Addr struct {
	net.Conn
	local, remote net.Addr
}

func (c verifC23Addr) LocalAddr() net.Addr  { return c.local }
func (c verifC23Addr) RemoteAddr() net.Addr { return c.remote }

// The connections that a backend accepted: the PROXY header, and the requests.
type verifC23Up struct {
	mu    sync.Mutex
	conns []*verifC23Conn
	l     net.Listener
}

type verifC23Conn struct {
	version  byte
	src, dst string
	name     string
	reqs     []string
}

func verifC23Listen(t *testing.T) *verifC23Up {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	u := &verifC23Up{l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go u.serve(c)
		}
	}()
	return u
}

func (u *verifC23Up) serve(c net.Conn) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	rd := bufio.NewReader(c)
	vc := &verifC23Conn{}
	if h, err := proxyproto.Read(rd); err == nil {
		vc.version, vc.src, vc.dst = h.Version, h.SourceAddr.String(), h.DestinationAddr.String()
		if h.Command != proxyproto.PROXY {
			vc.src = "LOCAL"
		}
		tlvs, _ := h.TLVs()
		for _, tlv := range tlvs {
			if tlv.Type == proxyproto.PP2_TYPE_AUTHORITY {
				vc.name = string(tlv.Value)
			}
		}
	}
	u.mu.Lock()
	u.conns = append(u.conns, vc)
	u.mu.Unlock()
	for {
		req, err := http.ReadRequest(rd)
		if err != nil {
			return
		}
		io.Copy(io.Discard, req.Body)
		u.mu.Lock()
		vc.reqs = append(vc.reqs, req.Header.Get("X-Id"))
		u.mu.Unlock()
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nOK")
	}
}

func (u *verifC23Up) find(t *testing.T, id string) *verifC23Conn {
	u.mu.Lock()
	defer u.mu.Unlock()
	for _, c := range u.conns {
		for _, r := range c.reqs {
			if r == id {
				return c
			}
		}
	}
	return nil
}

func TestVerifC23Write(t *testing.T) {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	for _, v6 := range []bool{false, true} {
		for _, v := range []byte{1, 2} {
			src, dst := net.IP{1, 2, 3, 4}, net.IP{5, 6, 7, 8}
			if v6 {
				src, dst = net.ParseIP("2001:db8::1"), net.ParseIP("2001:db8::2")
			}
			in := netw.NewConnForTest(verifC23Addr{a, &net.TCPAddr{IP: dst, Port: 443}, &net.TCPAddr{IP: src, Port: 999}})
			in.SetAnnotation(serverNameKey, "x.example.com")
			var buf bytes.Buffer
			if err := writeProxyHeader(v, &buf, in); err != nil {
				t.Fatalf("VIOLATION C23: writeProxyHeader: %v", err)
			}
			h, err := proxyproto.Read(bufio.NewReader(&buf))
			if err != nil || h.Version != v || h.Command != proxyproto.PROXY || h.SourceAddr.String() != in.RemoteAddr().String() || h.DestinationAddr.String() != in.LocalAddr().String() {
				t.Fatalf("VIOLATION C23: version %d header for %v -> %v is %+v %v", v, in.RemoteAddr(), in.LocalAddr(), h, err)
			}
		}
	}
}

// A connection that arrived with a PROXY header is forwarded with its addresses.
func TestVerifC23Rewrite(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	io.WriteString(c, "PROXY TCP4 6.6.6.6 8.8.8.8 1 2\r\nhello")
	s, err := l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	in := netw.NewConnForTest(s)
	in.Conn = proxyproto.NewConn(s)
	if _, err := io.ReadFull(in, make([]byte, 5)); err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := writeProxyHeader(1, &buf, in); err != nil {
		t.Fatal(err)
	}
	if got, want := buf.String(), "PROXY TCP4 6.6.6.6 8.8.8.8 1 2\r\n"; got != want {
		t.Fatalf("VIOLATION C23: a connection from 6.6.6.6:1 to 8.8.8.8:2 is forwarded with %q", got)
	}
}

// The header that backends receive, and the requests on each connection.
func TestVerifC23Pool(t *testing.T) {
	for _, vs := range [][3]byte{{0, 0, 0}, {1, 1, 1}, {2, 2, 2}, {0, 2, 1}, {2, 0, 0}, {1, 0, 2}} {
		up := verifC23Listen(t)
		addr := []string{up.l.Addr().String()}
		be := &Backend{Addresses: []string{"x"}, proxyProtocolVersion: vs[0],
			PathOverrides: []*PathOverride{
				{Paths: []string{"/o0/"}, Addresses: addr, proxyProtocolVersion: vs[1]},
				{Paths: []string{"/o1/"}, Addresses: addr, proxyProtocolVersion: vs[2]},
			}}
		h := vNewHTTP(t, be, true)
		be.Addresses = addr
		for _, po := range be.PathOverrides {
			po.Addresses = addr
			po.ForwardTimeout = 5 * time.Second
		}
		be.connLimit = rate.NewLimiter(100000, 100000)
		// each client connection has an address and a name
		type client struct {
			c         net.Conn
			rd        *bufio.Reader
			src, name string
		}
		var mu sync.Mutex
		srcs := make(map[string]string)
		names := make(map[string]string)
		h.srv.ConnContext = func(ctx context.Context, c net.Conn) context.Context {
			// wait for the client to be registered
			k := c.RemoteAddr().String()
			for {
				mu.Lock()
				src, name := srcs[k], names[k]
				mu.Unlock()
				if name == "" {
					time.Sleep(time.Millisecond)
					continue
				}
				a, _ := net.ResolveTCPAddr("tcp", src)
				nc := netw.NewConnForTest(verifC23Addr{c, &net.TCPAddr{IP: net.IP{9, 9, 9, 9}, Port: 443}, a})
				nc.SetAnnotation(serverNameKey, name)
				return context.WithValue(ctx, connCtxKey, nc)
			}
		}
		var cs []*client
		for i := 0; i < 6; i++ {
			c, err := net.Dial("tcp", h.l.Addr().String())
			if err != nil {
				t.Fatal(err)
			}
			defer c.Close()
			c.SetDeadline(time.Now().Add(20 * time.Second))
			cl := &client{c: c, rd: bufio.NewReader(c), src: fmt.Sprintf("7.7.7.%d:%d", i%3, 100+i%3), name: []string{"a.example.com", "aa.example.com"}[i/3]}
			mu.Lock()
			srcs[c.LocalAddr().String()], names[c.LocalAddr().String()] = cl.src, cl.name
			mu.Unlock()
			cs = append(cs, cl)
		}
		type sent struct {
			cl   *client
			path int
		}
		want := make(map[string]sent)
		for i := 0; i < 60; i++ {
			cl := cs[(i*5+i/7)%len(cs)]
			which := (i / 3) % 3
			id := fmt.Sprintf("r%d", i)
			path := []string{"/", "/o0/x", "/o1/x"}[which]
			// the request may name another server than the handshake
			host := cl.name
			if i%4 == 3 {
				host = "a.example.com"
			}
			fmt.Fprintf(cl.c, "GET %s HTTP/1.1\r\nHost: %s\r\nX-Id: %s\r\n\r\n", path, host, id)
			resp, err := http.ReadResponse(cl.rd, nil)
			if err != nil || resp.StatusCode != 200 {
				t.Fatalf("request %s: %v %v", id, resp, err)
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			want[id] = sent{cl, which}
		}
		for id, s := range want {
			c := up.find(t, id)
			if c == nil {
				t.Fatalf("VIOLATION C23: request %s did not reach the backend", id)
			}
			desc := fmt.Sprintf("versions %v: request %s from %s to %s override %d", vs, id, s.cl.src, s.cl.name, s.path-1)
			v := vs[s.path]
			if c.version != v {
				t.Fatalf("VIOLATION C23: %s arrived with a version %d PROXY header, want %d", desc, c.version, v)
			}
			if v > 0 && (c.src != s.cl.src || c.dst != "9.9.9.9:443") {
				t.Fatalf("VIOLATION C23: %s arrived with a PROXY header of %s -> %s", desc, c.src, c.dst)
			}
			if v == 2 && c.name != s.cl.name {
				t.Fatalf("VIOLATION C23: %s arrived with the name %q in the PROXY header", desc, c.name)
			}
			for _, o := range c.reqs {
				so := want[o]
				if so.cl == nil {
					continue
				}
				if so.path != s.path || so.cl.name != s.cl.name {
					t.Fatalf("VIOLATION C23: %s shared a connection with request %s from %s to %s override %d", desc, o, so.cl.src, so.cl.name, so.path-1)
				}
			}
		}
		h.srv.Close()
	}
}

// handleConnection parses a header only if the peer is trusted.
func TestVerifC23Handle(t *testing.T) {
	for _, trusted := range []string{"127.0.0.0/8", "10.0.0.0/8"} {
		_, n, _ := net.ParseCIDR(trusted)
		p := &Proxy{cfg: &Config{acceptProxyHeaderFrom: []*net.IPNet{n}, MaxOpen: 10}, inConns: newConnTracker(), backends: map[beKey]*Backend{}}
		p.events = make(map[string]int64)
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		c, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		fmt.Fprint(c, "PROXY TCP4 6.6.6.6 8.8.8.8 1 2\r\nnot a client hello, not a client hello")
		s, err := l.Accept()
		if err != nil {
			t.Fatal(err)
		}
		nc := netw.NewConnForTest(s)
		done := make(chan bool)
		go func() {
			defer close(done)
			p.handleConnection(nc)
		}()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
		}
		from := nc.RemoteAddr().String()
		if forged := strings.HasPrefix(from, "6.6.6.6"); forged != (trusted == "127.0.0.0/8") {
			t.Fatalf("VIOLATION C23: a client from 127.0.0.1 with %s trusted appears as %s", trusted, from)
		}
		c.Close()
		s.Close()
		l.Close()
	}
}

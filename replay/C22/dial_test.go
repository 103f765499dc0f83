//verif:dir proxy

package proxy

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	stcrypto "github.com/c2FmZQ/storage/crypto"
	"github.com/c2FmZQ/tlsproxy/certmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki"
	"golang.org/x/time/rate"
)

var _ = rate.Inf

func verifC22Backend(be *Backend) *Backend {
	be.state = &backendState{oNext: make([]int, len(be.PathOverrides))}
	be.ForwardTimeout = 5 * time.Second
	for _, po := range be.PathOverrides {
		po.ForwardTimeout = 5 * time.Second
	}
	be.outConns = newConnTracker()
	be.getClientCert = func(context.Context) func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return nil }
	be.recordEvent = func(string) {}
	be.ServerNames = []string{"x"}
	return be
}

func verifC22Listen(t *testing.T) (string, func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				b := make([]byte, 1)
				c.Read(b)
				c.Close()
			}()
		}
	}()
	return l.Addr().String(), func() { l.Close() }
}

func verifC22Dead(t *testing.T) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	return l.Addr().String()
}

func TestVerifC22Rotation(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	var live, dead []string
	for i := 0; i < 4; i++ {
		a, stop := verifC22Listen(t)
		defer stop()
		live = append(live, a)
		dead = append(dead, verifC22Dead(t))
	}
	isLive := make(map[string]bool)
	for _, a := range live {
		isLive[a] = true
	}
	list := func(allow int) []string {
		l := append(append([]string(nil), live...), dead...)
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		return l[:r.Intn(allow)]
	}
	for k := 0; k < 150; k++ {
		be := &Backend{Mode: ModeTCP, Addresses: list(6)}
		for i := r.Intn(4); i > 0; i-- {
			be.PathOverrides = append(be.PathOverrides, &PathOverride{Mode: ModeTCP, Addresses: list(5)})
		}
		verifC22Backend(be)
		next := 0
		oNext := make([]int, len(be.PathOverrides))
		for i := 0; i < 15; i++ {
			ctx := context.Background()
			id := r.Intn(len(be.PathOverrides)+3) - 2
			addrs, n := be.Addresses, &next
			if id > -2 {
				ctx = context.WithValue(ctx, ctxOverrideIDKey, id)
				if id >= 0 && id < len(be.PathOverrides) {
					addrs, n = be.PathOverrides[id].Addresses, &oNext[id]
				}
			}
			desc := fmt.Sprintf("addresses %v override %d rotation %d", addrs, id, *n)
			want := ""
			for j := 0; j < len(addrs); j++ {
				a := addrs[*n]
				*n = (*n + 1) % len(addrs)
				if isLive[a] {
					want = a
					break
				}
			}
			got := ""
			func() {
				defer func() {
					if e := recover(); e != nil {
						t.Fatalf("VIOLATION C22: %s: panic %v", desc, e)
					}
				}()
				c, err := be.dial(ctx)
				if err == nil {
					got = c.RemoteAddr().String()
					c.Close()
				}
			}()
			if got != want {
				t.Fatalf("VIOLATION C22: %s: connected to %q, want %q", desc, got, want)
			}
			if be.state.next != next || fmt.Sprint(be.state.oNext) != fmt.Sprint(oNext) {
				t.Fatalf("VIOLATION C22: %s: rotation is %d %v, want %d %v", desc, be.state.next, be.state.oNext, next, oNext)
			}
		}
	}
}

func TestVerifC22Concurrent(t *testing.T) {
	var live []string
	for i := 0; i < 3; i++ {
		a, stop := verifC22Listen(t)
		defer stop()
		live = append(live, a)
	}
	for round := 0; round < 5; round++ {
		be := verifC22Backend(&Backend{Mode: ModeTCP, Addresses: live, PathOverrides: []*PathOverride{{Mode: ModeTCP, Addresses: live[:2]}}})
		var mu sync.Mutex
		var wg sync.WaitGroup
		count := [2]map[string]int{{}, {}}
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 15; j++ {
					which := j % 2
					ctx := context.Background()
					if which == 1 {
						ctx = context.WithValue(ctx, ctxOverrideIDKey, 0)
					}
					c, err := be.dial(ctx)
					if err != nil {
						t.Errorf("dial: %v", err)
						return
					}
					mu.Lock()
					count[which][c.RemoteAddr().String()]++
					mu.Unlock()
					c.Close()
				}
			}()
		}
		wg.Wait()
		for which, m := range count {
			lo, hi := 1<<30, 0
			for _, a := range live[:3-which] {
				lo, hi = min(lo, m[a]), max(hi, m[a])
			}
			if hi-lo > 1 {
				t.Fatalf("VIOLATION C22: concurrent dials used the addresses %v times", m)
			}
		}
	}
}

type verifC22CA struct{ m *certmanager.CertManager }

// TLS settings are those of the selected entry.
func TestVerifC22TLS(t *testing.T) {
	type server struct {
		ca   *certmanager.CertManager
		addr string
	}
	var mu sync.Mutex
	var sni string
	var protos string
	var servers []server
	for i := 0; i < 2; i++ {
		ca, err := certmanager.New(fmt.Sprintf("ca%d.example.com", i), func(string, ...any) {})
		if err != nil {
			t.Fatal(err)
		}
		tc := ca.TLSConfig()
		tc.NextProtos = []string{"h2", "http/1.1"}
		get := tc.GetCertificate
		tc.GetCertificate = func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
			mu.Lock()
			sni, protos = h.ServerName, strings.Join(h.SupportedProtos, ",")
			mu.Unlock()
			return get(h)
		}
		l, err := tls.Listen("tcp", "127.0.0.1:0", tc)
		if err != nil {
			t.Fatal(err)
		}
		defer l.Close()
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func() { c.(*tls.Conn).Handshake(); c.Read(make([]byte, 1)); c.Close() }()
			}
		}()
		servers = append(servers, server{ca, l.Addr().String()})
	}
	for bits := 0; bits < 64; bits++ {
		entry := func(b int) (addr string, name string, roots *x509.CertPool, skip, ok bool) {
			addr = servers[b&1].addr
			name = fmt.Sprintf("n%d.example.com", bits%5)
			roots = servers[b>>1&1].ca.RootCACertPool()
			skip = b>>2&1 == 1
			return addr, name, roots, skip, skip || b&1 == b>>1&1
		}
		var be Backend
		var po PathOverride
		addr, name, roots, skip, okBE := entry(bits & 7)
		be = Backend{Mode: ModeTLS, Addresses: []string{addr}, ForwardServerName: "be-" + name, forwardRootCAs: roots, InsecureSkipVerify: skip, PathOverrides: []*PathOverride{&po}}
		addr, name, roots, skip, okPO := entry(bits >> 3)
		po = PathOverride{Mode: ModeHTTPS, Addresses: []string{addr}, ForwardServerName: "po-" + name, forwardRootCAs: roots, InsecureSkipVerify: skip}
		verifC22Backend(&be)
		for _, o := range []bool{false, true} {
			ctx, want, wantName := context.Background(), okBE, be.ForwardServerName
			if o {
				ctx, want, wantName = context.WithValue(ctx, ctxOverrideIDKey, 0), okPO, po.ForwardServerName
			}
			c, err := be.dial(ctx, "h2")
			if err != nil {
				t.Fatalf("dial: %v", err)
			}
			tc, ok := c.(*netw.Conn).Conn.(*tls.Conn)
			if !ok {
				t.Fatalf("VIOLATION C22: the connection to a TLS backend is a %T", c.(*netw.Conn).Conn)
			}
			err = tc.Handshake()
			if want != (err == nil) {
				t.Fatalf("VIOLATION C22: override %v, settings %06b: handshake: %v, want success %v", o, bits, err, want)
			}
			mu.Lock()
			if sni != wantName || protos != "h2" {
				t.Fatalf("VIOLATION C22: override %v: server name %q protocols %q, want %q h2", o, sni, protos, wantName)
			}
			mu.Unlock()
			c.Close()
		}
	}
}

// An override does not inherit the TLS settings of its backend.
func TestVerifC22NotInherited(t *testing.T) {
	ca, err := certmanager.New("ca.example.com", func(string, ...any) {})
	if err != nil {
		t.Fatal(err)
	}
	l, err := tls.Listen("tcp", "127.0.0.1:0", ca.TLSConfig())
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() { c.(*tls.Conn).Handshake(); c.Read(make([]byte, 1)); c.Close() }()
		}
	}()
	addrs := []string{l.Addr().String()}
	for bits := 0; bits < 64; bits++ {
		set := func(b int) (name string, roots *x509.CertPool, skip, ok bool) {
			if b&1 != 0 {
				name = "a.example.com"
			}
			if b&2 != 0 {
				roots = ca.RootCACertPool()
			}
			skip = b&4 != 0
			return name, roots, skip, skip || name != "" && roots != nil
		}
		be := &Backend{Mode: ModeTLS, Addresses: addrs, PathOverrides: []*PathOverride{{Mode: ModeTLS, Addresses: addrs}}}
		var want [2]bool
		be.ForwardServerName, be.forwardRootCAs, be.InsecureSkipVerify, want[0] = set(bits & 7)
		po := be.PathOverrides[0]
		po.ForwardServerName, po.forwardRootCAs, po.InsecureSkipVerify, want[1] = set(bits >> 3)
		verifC22Backend(be)
		for o := 0; o < 2; o++ {
			ctx := context.Background()
			if o == 1 {
				ctx = context.WithValue(ctx, ctxOverrideIDKey, 0)
			}
			c, err := be.dial(ctx)
			if err != nil {
				t.Fatalf("dial: %v", err)
			}
			err = c.(*netw.Conn).Conn.(*tls.Conn).Handshake()
			if want[o] != (err == nil) {
				t.Fatalf("VIOLATION C22: settings %06b override %d: handshake: %v, want success %v", bits, o, err, want[o])
			}
			c.Close()
		}
	}
}

// A certificate revoked by a local PKI is refused.
func TestVerifC22Revoked(t *testing.T) {
	mk, err := stcrypto.CreateAESMasterKeyForTest()
	if err != nil {
		t.Fatal(err)
	}
	m, err := pki.New(pki.Options{Name: "p", Endpoint: "https://pki.example.com", Store: storage.New(t.TempDir(), mk)})
	if err != nil {
		t.Fatal(err)
	}
	ca, err := m.CACert()
	if err != nil {
		t.Fatal(err)
	}
	roots := x509.NewCertPool()
	roots.AddCert(ca)
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	var _ crypto.Signer = key
	csr, err := x509.CreateCertificateRequest(crand.Reader, &x509.CertificateRequest{DNSNames: []string{"www.example.com"}, PublicKey: key.Public()}, key)
	if err != nil {
		t.Fatal(err)
	}
	cr, err := m.ValidateCertificateRequest(csr)
	if err != nil {
		t.Fatal(err)
	}
	raw, err := m.IssueCertificate(cr)
	if err != nil {
		t.Fatal(err)
	}
	cert, err := x509.ParseCertificate(raw)
	if err != nil {
		t.Fatal(err)
	}
	l, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{raw}, PrivateKey: key}}})
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() { c.(*tls.Conn).Handshake(); c.Read(make([]byte, 1)); c.Close() }()
		}
	}()
	addrs := []string{l.Addr().String()}
	for i := 0; i < 2; i++ {
		for _, skip := range []bool{false, true} {
			be := verifC22Backend(&Backend{
				Mode: ModeTLS, Addresses: addrs, ForwardServerName: "www.example.com", forwardRootCAs: roots, InsecureSkipVerify: skip,
				PathOverrides: []*PathOverride{{Mode: ModeHTTPS, Addresses: addrs, ForwardServerName: "www.example.com", forwardRootCAs: roots, InsecureSkipVerify: skip}},
				pkiMap:        map[string]*pki.PKIManager{hex.EncodeToString(ca.SubjectKeyId): m},
			})
			for _, o := range []bool{false, true} {
				ctx := context.Background()
				if o {
					ctx = context.WithValue(ctx, ctxOverrideIDKey, 0)
				}
				c, err := be.dial(ctx)
				if err != nil {
					t.Fatalf("dial: %v", err)
				}
				err = c.(*netw.Conn).Conn.(*tls.Conn).Handshake()
				if i == 0 && err != nil {
					t.Fatalf("VIOLATION C22: handshake with a valid certificate: %v", err)
				}
				if i == 1 && err == nil {
					t.Fatalf("VIOLATION C22: override %v, skip verify %v: accepted a revoked certificate", o, skip)
				}
				c.Close()
			}
		}
		if err := m.RevokeCertificate(cert.SerialNumber, 0); err != nil {
			t.Fatal(err)
		}
	}
}

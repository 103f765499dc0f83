//verif:dir proxy

package proxy

import (
	"bufio"
	"context"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/time/rate"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
)

type vUp struct {
	Host, Path, URI, Proto string
	TLS                    bool
	Header                 http.Header
}

// vHTTP runs one backend's handler on a loopback server with a recording
// backend server behind it.
type vHTTP struct {
	t    *testing.T
	up   *httptest.Server
	be   *Backend
	tm   *tokenmanager.TokenManager
	srv  *http.Server
	l    net.Listener
	mu   sync.Mutex
	seen []vUp
	peer []*x509.Certificate
	name string // handshake name
}

func vNewHTTP(t *testing.T, be *Backend, reverse bool) *vHTTP {
	h := &vHTTP{t: t, be: be, name: "a.example.com"}
	h.up = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		h.mu.Lock()
		h.seen = append(h.seen, vUp{Host: r.Host, Path: r.URL.Path, URI: r.RequestURI, Proto: r.Proto, Header: r.Header.Clone()})
		h.mu.Unlock()
		fmt.Fprint(w, "UPSTREAM")
	}))
	mk, err := crypto.CreateAESMasterKeyForTest()
	if err != nil {
		t.Fatal(err)
	}
	tm, err := tokenmanager.New(storage.New(t.TempDir(), mk), nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	h.tm = tm
	if be.Mode == "" {
		be.Mode = ModeHTTP
	}
	if be.ServerNames == nil {
		be.ServerNames = []string{"a.example.com", "aa.example.com"}
	}
	if be.Addresses != nil {
		be.Addresses = []string{h.up.Listener.Addr().String()}
	}
	be.state = &backendState{oNext: make([]int, len(be.PathOverrides))}
	for _, po := range be.PathOverrides {
		if po.Addresses != nil {
			po.Addresses = []string{h.up.Listener.Addr().String()}
			po.Mode = be.Mode
		}
	}
	be.outConns = newConnTracker()
	be.recordEvent = func(string) {}
	be.getClientCert = func(context.Context) func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return nil }
	be.connLimit = rate.NewLimiter(100000, 100000)
	be.ForwardTimeout = 5 * time.Second
	be.tm = tm
	if be.SSO != nil {
		be.SSO.cm = cookiemanager.New(tm, "p", "example.com", "https://iss.example.com/")
	}
	var inner http.Handler
	if reverse {
		inner = be.reverseProxy()
	} else {
		inner = be.localHandler()
	}
	if h.l, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		t.Fatal(err)
	}
	h.srv = &http.Server{
		Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if h.peer != nil {
				r.TLS = &tls.ConnectionState{PeerCertificates: h.peer}
			}
			inner.ServeHTTP(w, r)
		}),
		ConnContext: func(ctx context.Context, c net.Conn) context.Context {
			nc := netw.NewConnForTest(c)
			nc.SetAnnotation(serverNameKey, h.name)
			return context.WithValue(ctx, connCtxKey, nc)
		},
	}
	go h.srv.Serve(h.l)
	t.Cleanup(func() { h.srv.Close(); h.up.Close() })
	return h
}

func (h *vHTTP) do(raw string) (code int, body string, seen []vUp, hdr http.Header) {
	h.mu.Lock()
	h.seen = nil
	h.mu.Unlock()
	c, err := net.Dial("tcp", h.l.Addr().String())
	if err != nil {
		h.t.Fatal(err)
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(10 * time.Second))
	io.WriteString(c, raw)
	resp, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return 0, "", nil, nil
	}
	b, _ := io.ReadAll(resp.Body)
	resp.Body.Close()
	h.mu.Lock()
	defer h.mu.Unlock()
	return resp.StatusCode, string(b), h.seen, resp.Header
}

func (h *vHTTP) get(target, host, extra string) (int, string, []vUp, http.Header) {
	return h.do("GET " + target + " HTTP/1.1\r\nHost: " + host + "\r\n" + extra + "Connection: close\r\n\r\n")
}

func vHhash(host string) string {
	hh := sha256.Sum256([]byte(host))
	return hex.EncodeToString(hh[:])
}

func (h *vHTTP) token(m map[string]any) string {
	now := time.Now()
	c := jwt.MapClaims{
		"iat": now.Unix(), "exp": now.Add(20 * time.Hour).Unix(), "iss": "https://iss.example.com/", "aud": "https://iss.example.com/",
		"sub": "12345", "email": "bob@example.com", "proxyauth": "https://iss.example.com/", "provider": "p", "hhash": vHhash("a.example.com"), "sid": "s",
	}
	for k, v := range m {
		if v == nil {
			delete(c, k)
		} else {
			c[k] = v
		}
	}
	s, err := h.tm.CreateToken(c, "")
	if err != nil {
		h.t.Fatal(err)
	}
	return s
}

func vClean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	c := path.Clean(p)
	if strings.HasSuffix(p, "/") && c != "/" {
		c += "/"
	}
	return c
}

var vPaths = []string{"/", "/public", "/private", "/private/", "/private/x", "/public/../private/x", "/%70rivate/x", "/public%2f..%2fprivate%2fx", "//private/x", "/./private/x",
	"/private/../public", "/PRIVATE/x", "/public/%2e%2e/private/x", "/privatex", "*", "a:http://other.example.com/private/x", "a:private/x", "http://a.example.com/private/x", "http:private/x",
	"/local", "/local/x", "/local/", "/localx", "/private/local", "/private/local/y", "/private/cb", "/private/cb/x", "/open", "/open/z", "/open/../private/x", "/x/../local"}

func TestVerifC01(t *testing.T) {
	for pi, paths := range [][]string{{"/private/"}, nil, {"/private"}, {"/zzz/", "/private/"}, {"/public/../private"}} {
		for ai, acl := range []*[]string{nil, {}, {"bob@example.com"}, {"@example.com"}, {"example.com", "alice@example.com", "@other.com", "bob@example.comx"}} {
			if pi > 1 && ai > 1 {
				continue
			}
			for _, force := range []time.Duration{0, time.Hour} {
				for _, reverse := range []bool{true, false} {
					if ai > 1 && force > 0 || pi > 0 && !reverse {
						continue
					}
					local := func(name string) http.Handler {
						return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, "LOCAL ", name) })
					}
					root := t.TempDir()
					os.MkdirAll(filepath.Join(root, "private", "d"), 0o700)
					os.WriteFile(filepath.Join(root, "private", "x"), []byte("STATIC"), 0o600)
					os.WriteFile(filepath.Join(root, "public"), []byte("STATIC"), 0o600)
					be := &Backend{
						SSO: &BackendSSO{Paths: paths, ACL: acl, ForceReAuth: force},
						localHandlers: []localHandler{
							{path: "/local", matchPrefix: true, handler: local("a")},
							{path: "/private/local", handler: local("b")},
							{path: "/private/local", matchPrefix: true, handler: local("b")},
							{path: "/private/cb", matchPrefix: true, isCallback: true, handler: local("d")},
							{path: "/open", matchPrefix: true, handler: local("c"), ssoBypass: true},
						},
						PathOverrides: []*PathOverride{{Paths: []string{"/private/x/"}, DocumentRoot: root}},
						DocumentRoot:  root,
					}
					if reverse {
						be.Addresses = []string{"x"}
					}
					h := vNewHTTP(t, be, reverse)
					other := vHhash("zz.example.com")
					old := time.Now().Add(-2 * time.Hour).Unix()
					type cred struct {
						hdr   string
						email string // "" if not an identity for a.example.com
						fresh bool
					}
					ck := func(m map[string]any) string { return "Cookie: TLSPROXYAUTH=" + h.token(m) + "\r\n" }
					creds := []cred{
						{"", "", false},
						{"Cookie: TLSPROXYAUTH=x.y.z\r\n", "", false},
						{ck(nil), "bob@example.com", true},
						{ck(map[string]any{"iat": old}), "bob@example.com", false},
						{ck(map[string]any{"hhash": other}), "bob@example.com", false},
						{ck(map[string]any{"hhash": nil}), "bob@example.com", false},
						{ck(map[string]any{"iat": nil}), "bob@example.com", false},
						{ck(map[string]any{"email": nil}), "", false},
						{ck(map[string]any{"email": ""}), "", false},
						{ck(map[string]any{"email": 7}), "", false},
						{ck(map[string]any{"email": "eve@evil.com"}), "eve@evil.com", true},
						{ck(map[string]any{"provider": "q"}), "", false},
						{ck(map[string]any{"proxyauth": nil}), "", false},
						{ck(map[string]any{"exp": old}), "", false},
						{"Authorization: Bearer " + h.token(map[string]any{"proxyauth": nil, "aud": "https://a.example.com/"}) + "\r\n", "bob@example.com", true},
						{"Authorization: Bearer " + h.token(map[string]any{"proxyauth": nil, "aud": "https://b.example.com/"}) + "\r\n", "", false},
						{"Authorization: Bearer " + h.token(nil) + "\r\n", "", false},
						{"Authorization: Bearer " + h.token(map[string]any{"proxyauth": nil, "email": nil, "aud": "https://a.example.com/"}) + "\r\n", "", false},
					}
					for ci, c := range creds {
						for _, p := range vPaths {
							raw := p
							if i := strings.Index(p, "://"); i > 0 && strings.HasPrefix(p, "http") {
								raw = p[i+3:]
								raw = raw[strings.Index(raw, "/"):]
							}
							dec, err := url.PathUnescape(raw)
							if err != nil {
								t.Fatal(err)
							}
							allowed := c.email != "" && (force == 0 || c.fresh) && (acl == nil || vHas(*acl, c.email) || vHas(*acl, c.email[strings.Index(c.email, "@"):]))
							prot := func(q string) bool {
								if len(paths) == 0 {
									return true
								}
								for _, x := range paths {
									if strings.HasPrefix(q, x) || strings.HasPrefix(vClean(q), x) {
										return true
									}
								}
								return false
							}
							_, body, seen, _ := h.get(p, "a.example.com", c.hdr)
							for _, s := range seen {
								if !allowed && (prot(dec) || prot(s.Path)) {
									t.Fatalf("SSO paths %q acl %v force %v: GET %s with credential %d (%s) reached the backend server as %q", paths, vACL(acl), force, p, ci, c.email, s.URI)
								}
							}
							if !allowed && prot(dec) && (body == "STATIC" || strings.HasPrefix(body, "LOCAL") && body != "LOCAL c") {
								t.Fatalf("SSO paths %q acl %v force %v: GET %s with credential %d (%s) was answered %q", paths, vACL(acl), force, p, ci, c.email, body)
							}
							if allowed && p == "/private/zz" && len(seen) == 0 && reverse {
								t.Fatalf("allowed request refused")
							}
						}
					}
				}
			}
		}
	}
}

func vHas(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func vACL(l *[]string) string {
	b, _ := json.Marshal(l)
	return string(b)
}

func TestVerifC05(t *testing.T) {
	root := t.TempDir()
	os.WriteFile(filepath.Join(root, "f"), []byte("STATIC"), 0o600)
	for _, static := range []bool{false, true} {
		be := &Backend{DocumentRoot: root, PathOverrides: []*PathOverride{{Paths: []string{"/po/"}, DocumentRoot: root}, {Paths: []string{"/pa/"}, Addresses: []string{"x"}}}}
		if !static {
			be.Addresses = []string{"x"}
		}
		for _, name := range []string{"a.example.com", "c.example.com"} {
			h := vNewHTTP(t, be, true)
			h.name = name
			for _, target := range []string{"/f", "/po/f", "/pa/f", "http://b.example.com/f", "https://a.example.com/f", "http://a.example.com:99/f", "a:http://b.example.com/f", "a:f", "ftp://a.example.com/f", "http://a.example.com@b.example.com/f", "//b.example.com/f"} {
				for _, host := range []string{"a.example.com", "aa.example.com", "a.example.com:443", "b.example.com", "b.example.com:443", "A.example.com", "x.a.example.com", "a.example.com.", "a.example.com.evil.com", ""} {
					eff := host
					if i := strings.Index(target, "://"); i > 0 && !strings.HasPrefix(target, "a:") {
						eff = target[i+3:]
						eff = eff[:strings.Index(eff, "/")]
						eff = eff[strings.Index(eff, "@")+1:]
					}
					if eff == "" {
						eff = name
					}
					if i := strings.Index(eff, ":"); i >= 0 {
						eff = eff[:i]
					}
					ok := vHas(be.ServerNames, eff)
					for _, ver := range []string{"1.1", "1.0"} {
						hl := "Host: " + host + "\r\n"
						if host == "" && ver == "1.0" {
							hl = ""
						}
						_, body, seen, _ := h.do("GET " + target + " HTTP/" + ver + "\r\n" + hl + "Connection: close\r\n\r\n")
						if !ok && (len(seen) > 0 || body == "STATIC") {
							t.Fatalf("GET %s with Host %q (handshake name %s, server names %q) was served: %q %v", target, host, name, be.ServerNames, body, seen)
						}
						for _, s := range seen {
							if x := strings.Split(s.Host, ":")[0]; host != "" && !vHas(be.ServerNames, x) {
								t.Fatalf("GET %s with Host %q was forwarded for host %q", target, host, s.Host)
							}
						}
					}
				}
			}
		}
	}
}

func TestVerifC06(t *testing.T) {
	top := t.TempDir()
	root := filepath.Join(top, "root")
	for _, d := range []string{"", "sub", "sub/.h", ".git", "idx", "sub/idx"} {
		os.MkdirAll(filepath.Join(root, d), 0o700)
	}
	for _, f := range []string{"ok", "sub/ok", ".hidden", "sub/.hidden", "sub/.h/f", ".git/config", "idx/index.html", "sub/idx/index.html", `sub\ok`, `a\..\b`} {
		os.WriteFile(filepath.Join(root, f), []byte("FILE:"+f), 0o600)
	}
	os.WriteFile(filepath.Join(top, "secret"), []byte("FILE:secret"), 0o600)
	os.Symlink("/dev/zero", filepath.Join(root, "dev"))
	for _, prefix := range []string{"", "/files/", "/fi"} {
		be := &Backend{DocumentRoot: root}
		if prefix != "" {
			be.DocumentRoot = ""
			be.PathOverrides = []*PathOverride{{Paths: []string{prefix}, DocumentRoot: root}}
		}
		h := vNewHTTP(t, be, true)
		for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "get"} {
			for _, rel := range []string{"ok", "sub/ok", ".hidden", "sub/.hidden", "sub/.h/f", ".git/config", "../secret", "sub/../ok", "sub/../../secret", "%2e%2e/secret", "..%2fsecret", "sub%2fok", "sub%5cok", `sub\ok`, "a%5c..%5cb", "/ok", "./ok",
				"ok/", "sub", "sub/", "idx", "idx/", "sub/idx/", "idx/index.html", "%2ehidden", "sub/%2ehidden", "..", ".", "...", "/../secret", "sub//ok", "dev", "secret", "root/ok", "", "les/ok"} {
				p := prefix
				if p == "" {
					p = "/"
				}
				p += rel
				code, body, _, hd := h.do(m + " " + p + " HTTP/1.1\r\nHost: a.example.com\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
				served := strings.HasPrefix(body, "FILE:")
				if m == "HEAD" {
					continue
				}
				if !served {
					if rel == "dev" && code == 200 {
						t.Fatalf("%s %s (prefix %q): a file that is not regular was served %v", m, p, prefix, hd)
					}
					continue
				}
				dec, _ := url.PathUnescape(p)
				want := strings.TrimPrefix(strings.TrimPrefix(dec, prefix), "/")
				if strings.HasSuffix(want, "/") || want == "" {
					want += "index.html"
				}
				bad := m != "GET" || body != "FILE:"+want || vClean(dec) != dec
				for _, el := range strings.Split(want, "/") {
					bad = bad || strings.HasPrefix(el, ".") || strings.Contains(el, `\`)
				}
				if bad {
					t.Fatalf("%s %s (prefix %q) was answered with %q", m, p, prefix, body)
				}
			}
		}
	}
	// no document root
	wd, _ := os.Getwd()
	os.Chdir(root)
	defer os.Chdir(wd)
	h := vNewHTTP(t, &Backend{}, true)
	if _, body, _, _ := h.get("/ok", "a.example.com", ""); strings.HasPrefix(body, "FILE:") {
		t.Fatalf("a file was served without a document root")
	}
}

func TestVerifC07(t *testing.T) {
	spoofs := []string{"", "X-tlsproxy-user-id: eve@evil.com\r\n", "x-TLSPROXY-user-ID: eve@evil.com\r\nX-Tlsproxy-User-Id: eve2@evil.com\r\n", "X-Tlsproxy-User-Id:\r\n",
		"Connection: X-Tlsproxy-User-Id\r\nX-Tlsproxy-User-Id: eve@evil.com\r\n"}
	fwd := "X-Forwarded-For: 6.6.6.6\r\nX-Forwarded-For: 7.7.7.7\r\nx-forwarded-client-cert: Hash=00;Subject=\"CN=evil\"\r\nX-FORWARDED-CLIENT-CERT: Hash=01\r\n"
	cert := &x509.Certificate{Raw: []byte{1, 2, 3}}
	hash := fmt.Sprintf("%x", sha256.Sum256(cert.Raw))
	for _, sso := range []int{0, 1, 2, 3} {
		for _, acch := range [][]string{nil, {"hash"}} {
			for _, peer := range [][]*x509.Certificate{nil, {cert}} {
				for _, ov := range []bool{false, true} {
					be := &Backend{Addresses: []string{"x"}}
					switch sso {
					case 1:
						be.SSO = &BackendSSO{Paths: []string{"/private/"}}
					case 2:
						be.SSO = &BackendSSO{Paths: []string{"/private/"}, SetUserIDHeader: true}
					case 3:
						be.SSO = &BackendSSO{SetUserIDHeader: true}
					}
					be.ForwardHTTPHeaders = map[string]string{"X-A": "v", "X-B": "${REMOTE_IP}"}
					if ov {
						hh := map[string]string{"X-C": "${SERVER_NAME}"}
						be.PathOverrides = []*PathOverride{{Paths: []string{"/"}, Addresses: []string{"x"}, ForwardHTTPHeaders: &hh}}
					}
					be.ClientAuth = &ClientAuth{AddClientCertHeader: acch}
					h := vNewHTTP(t, be, true)
					h.peer = peer
					for ti, tok := range []string{"", "Cookie: TLSPROXYAUTH=" + h.token(nil) + "\r\n", "Cookie: TLSPROXYAUTH=bad\r\n", "Cookie: TLSPROXYAUTH=" + h.token(map[string]any{"email": ""}) + "\r\n"} {
						valid := ti == 1
						for _, sp := range spoofs {
							for _, p := range []string{"/x", "/private/x"} {
								_, _, seen, _ := h.get(p, "a.example.com", tok+sp+fwd)
								for _, s := range seen {
									uid := s.Header["X-Tlsproxy-User-Id"]
									if len(uid) > 0 && (len(uid) != 1 || uid[0] != "bob@example.com" || sso < 2 || !valid) {
										t.Fatalf("sso %d: GET %s with %q: the backend server sees X-Tlsproxy-User-Id %q", sso, p, sp, uid)
									}
									if sso >= 2 && valid && len(uid) == 0 && !strings.HasPrefix(sp, "Connection") {
										t.Fatalf("sso %d: GET %s: the backend server does not see the user id", sso, p)
									}
									if x := strings.Join(s.Header["X-Forwarded-For"], ","); strings.Contains(x, "6.6.6.6") || strings.Contains(x, "7.7.7.7") {
										t.Fatalf("GET %s: the backend server sees X-Forwarded-For %q", p, x)
									}
									xfcc := strings.Join(s.Header["X-Forwarded-Client-Cert"], "|")
									if strings.Contains(xfcc, "evil") || strings.Contains(xfcc, "Hash=0") && !strings.Contains(strings.ToLower(xfcc), hash) || xfcc != "" && (peer == nil || acch == nil) {
										t.Fatalf("GET %s: the backend server sees X-Forwarded-Client-Cert %q (client certificate %v, configured %q)", p, xfcc, peer != nil, acch)
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

func TestVerifC23HTTP(t *testing.T) {
	be := &Backend{Addresses: []string{"x"}}
	h := vNewHTTP(t, be, true)
	me := h.l.Addr().String()
	for _, c := range []struct {
		via  string
		loop bool
	}{
		{"", false}, {"Via: 1.1 other\r\n", false}, {"Via: HTTP/1.1 " + me + "\r\n", true}, {"Via: 1.1 a, HTTP/1.1 " + me + ", 2 b\r\n", true},
		{"Via: HTTP/1.1 " + me + ",1.1 a\r\n", true}, {"Via: " + strings.Repeat("1.1 q, ", 50) + "HTTP/1.1 " + me + strings.Repeat(", 1.1 q", 50) + "\r\n", true},
		{"Via: " + strings.Repeat("1.1 q, ", 13) + "HTTP/1.1 " + me + "\r\n", true}, {"Via: 1.1 a,HTTP/2.0 " + me + "\r\n", true}, {"Via: 1.1 a , HTTP/1.1 " + me + "\r\n", true},
	} {
		_, _, seen, _ := h.get("/", "a.example.com", c.via)
		if c.loop && len(seen) > 0 {
			t.Fatalf("a request with %q, which passed through %s, was forwarded again", c.via, me)
		}
		if !c.loop && len(seen) != 1 {
			t.Fatalf("a request with %q was not forwarded", c.via)
		}
		for _, s := range seen {
			if !strings.HasSuffix(strings.Join(s.Header["Via"], ", "), " "+me) {
				t.Fatalf("forwarded request with %q has Via %q", c.via, s.Header["Via"])
			}
		}
	}
}

//verif:package proxy

package proxy

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"io"
	"net"
	"net/http"
	"net/http/httputil"
	"net/textproto"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
)

// The request that is being handled, as it was received (properties C01, C05,
// C06, C07, C23).
var (
	g_rqBackend *Backend
	g_rqReverse bool // the backend forwards requests
	g_rqPath    string
	g_rqHost    string
	g_rqURL     *url.URL
	g_rqConn    any
	g_rqName    string // the name negotiated in the TLS handshake
	g_rqVia     string
	g_rqMe      string
	g_rqHeader  any // its http.Header
	g_rqStart   time.Time
	g_rqClaims  any // the claims that were validated for this request
	g_rqValid   bool
	g_expanded  bool
)

const (
	v_uidKey  = "X-Tlsproxy-User-Id"
	v_xffKey  = "X-Forwarded-For"
	v_xfccKey = "X-Forwarded-Client-Cert"
	v_viaKey  = "Via"
)

// Tokens are validated by the cookie manager (properties C10, C13).

//verif:frame (*Backend).http3Transport
//verif:frame expandVars
//verif:noeffect (*golang.org/x/time/rate.Limiter).*
//verif:pure (github.com/golang-jwt/jwt/v5.MapClaims).GetIssuedAt

// They only read the request: obligation C10.frame of package cookiemanager.
//
//verif:model (*github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager.CookieManager).ValidateAuthorizationHeader
func v_model_bearer(cm *cookiemanager.CookieManager, req *http.Request) (*jwt.Token, error) {
	return v_validated(cm, req)
}

//verif:model (*github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager.CookieManager).ValidateAuthTokenCookie
func v_model_cookie(cm *cookiemanager.CookieManager, req *http.Request) (*jwt.Token, error) {
	return v_validated(cm, req)
}

//verif:model (*github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager.CookieManager).ValidateIDTokenCookie
func v_model_idcookie(cm *cookiemanager.CookieManager, req *http.Request, tok *jwt.Token) error {
	return v_havoc[error]()
}

func v_validated(cm *cookiemanager.CookieManager, req *http.Request) (*jwt.Token, error) {
	if v_havoc[bool]() {
		return nil, v_err()
	}
	tok := v_new[jwt.Token]()
	claims, ok := tok.Claims.(jwt.MapClaims)
	v_assume(ok)
	if be := g_rqBackend; be.SSO != nil && cm == be.SSO.cm && req.Host == g_rqHost && any(req.Header) == g_rqHeader {
		g_rqClaims, g_rqValid = claims, true
	}
	return tok, nil
}

// v_protected: the path is under one of the protected prefixes, as sent or
// after cleaning.
//
//verif:opaque
func v_protected(prefixes []string, path string) bool {
	clean := pathClean(path)
	return len(prefixes) == 0 || v_exists(0, len(prefixes), func(i int) bool {
		return strings.HasPrefix(path, prefixes[i]) || strings.HasPrefix(clean, prefixes[i])
	})
}

//verif:contract pathMatches
func spec_pathMatches(prefixes []string, path string) func(bool) {
	want := v_protected(prefixes, path)
	return func(r bool) { v_ensures("C01.match", r == want) }
}

// v_identity: the identity accepted for the request.
func v_identity(req *http.Request) jwt.MapClaims {
	c, _ := req.Context().Value(authCtxKey).(jwt.MapClaims)
	return c
}

// v_ssoOK: the request may be served (property C01).
func v_ssoOK(req *http.Request) bool {
	be := g_rqBackend
	if be.SSO == nil || !v_protected(be.SSO.Paths, g_rqPath) {
		return true
	}
	claims := v_identity(req)
	if claims == nil || !g_rqValid || any(claims) != g_rqClaims {
		return false
	}
	email, _ := claims["email"].(string)
	if email == "" {
		return false
	}
	if be.SSO.ForceReAuth != 0 {
		hh := sha256.Sum256([]byte(g_rqHost))
		var iat time.Time
		if d, _ := claims.GetIssuedAt(); d != nil {
			iat = d.Time
		}
		if claims["hhash"] != hex.EncodeToString(hh[:]) || g_rqStart.Sub(iat) > be.SSO.ForceReAuth {
			return false
		}
	}
	_, domain, _ := strings.Cut(email, "@")
	return be.SSO.ACL == nil || v_aclHas(*be.SSO.ACL, email) || v_aclHas(*be.SSO.ACL, "@"+domain)
}

// v_identityOK: the identity of the request, if any, was validated for it.
func v_identityOK(req *http.Request) bool {
	claims := v_identity(req)
	if claims == nil {
		return true
	}
	email, _ := claims["email"].(string)
	return g_rqBackend.SSO != nil && g_rqValid && any(claims) == g_rqClaims && email != ""
}

func v_sameRequest(req *http.Request) bool {
	return req != nil && req.URL == g_rqURL && req.URL.Path == g_rqPath && req.Host == g_rqHost && any(req.Header) == g_rqHeader
}

//verif:contract (*Backend).authenticateUser
func spec_authenticateUser(be *Backend, w http.ResponseWriter, req **http.Request) func(bool) {
	v_requires(be != nil && req != nil)
	r0 := *req
	v_requires(r0 != nil && r0.URL != nil)
	v_requires_l("C01.identity", be == g_rqBackend && v_sameRequest(r0) && r0.Context().Value(authCtxKey) == nil)
	v_requires_l("C23.via", r0.Header.Get(v_viaKey) == g_rqVia)
	v_requires_l("C05.name", v_nameOK(r0))
	conn := r0.Context().Value(connCtxKey)
	v_requires_l("C22.context", r0.Context().Value(ctxOverrideIDKey) == nil)
	return func(ok bool) {
		r := *req
		v_ensures("C22.context", v_imp(ok, r.Context().Value(ctxOverrideIDKey) == nil))
		v_ensures("C01.identity", v_imp(ok, v_sameRequest(r) && v_identityOK(r) && r.Context().Value(connCtxKey) == conn))
		v_ensures("C07.userid", v_imp(ok, v_uidOK(r.Header)))
		v_ensures("C23.via", v_imp(ok, r.Header.Get(v_viaKey) == g_rqVia))
		v_ensures("C05.name", v_imp(ok, v_nameOK(r)))
	}
}

// v_claimsOK: claims were validated for this request.
func v_claimsOK(be *Backend, claims jwt.MapClaims) bool {
	return claims == nil || be.SSO != nil && g_rqValid && any(claims) == g_rqClaims
}

//verif:contract (*Backend).checkCookies
//verif:optional
func spec_checkCookies(be *Backend, w http.ResponseWriter, req *http.Request) func(jwt.MapClaims, bool) {
	v_requires(be != nil && req != nil && req.URL != nil)
	v_requires_l("C01.identity", be == g_rqBackend && be.SSO != nil && v_sameRequest(req) && req.Context().Value(authCtxKey) == nil)
	return func(claims jwt.MapClaims, ok bool) {
		v_ensures("C01.identity", v_imp(ok, v_claimsOK(be, claims)))
		v_ensures("C01.identity", v_imp(ok, v_sameRequest(req)))
	}
}

//verif:contract (*Backend).enforceSSOPolicy
func spec_enforceSSOPolicy(be *Backend, w http.ResponseWriter, req *http.Request) func(bool) {
	v_requires(be != nil && req != nil && req.URL != nil)
	v_requires_l("C01.policy", be == g_rqBackend && v_sameRequest(req) && v_identityOK(req))
	now := v_now()
	v_requires(g_rqStart.Sub(now) <= 0)
	v_requires_l("C07.userid", v_uidOK(req.Header))
	v_requires_l("C23.via", req.Header.Get(v_viaKey) == g_rqVia)
	v_requires_l("C05.name", v_nameOK(req))
	ctx := req.Context()
	return func(ok bool) {
		v_ensures("C22.context", v_imp(ok, req.Context() == ctx))
		v_ensures("C01.policy", v_imp(ok, v_ssoOK(req)))
		v_ensures("C01.policy", v_imp(ok, v_sameRequest(req)))
		v_ensures("C07.userid", v_imp(ok, v_uidOK(req.Header)))
		v_ensures("C23.via", v_imp(ok, req.Header.Get(v_viaKey) == g_rqVia))
		v_ensures("C05.name", v_imp(ok, v_nameOK(req)))
	}
}

//verif:contract (*Backend).handleLocalEndpointsAndAuthorize
//verif:optional
func spec_handleLocal(be *Backend, w http.ResponseWriter, req *http.Request) func(bool) {
	v_requires(be != nil && req != nil && req.URL != nil)
	v_requires_l("C01.policy", be == g_rqBackend && v_sameRequest(req) && v_identityOK(req))
	v_requires_l("C07.userid", v_uidOK(req.Header))
	v_requires_l("C23.via", req.Header.Get(v_viaKey) == g_rqVia)
	v_requires_l("C05.name", v_nameOK(req))
	now := v_now()
	v_requires(g_rqStart.Sub(now) <= 0)
	conn, _ := req.Context().Value(connCtxKey).(anyConn)
	v_requires(conn != nil)
	ctx := req.Context()
	return func(ok bool) {
		v_ensures("C22.context", v_imp(ok, req.Context() == ctx))
		v_ensures("C01.policy", v_imp(ok, v_ssoOK(req)))
		v_ensures("C01.policy", v_imp(ok, v_sameRequest(req)))
		v_ensures("C07.userid", v_imp(ok, v_uidOK(req.Header)))
		v_ensures("C23.via", v_imp(ok, req.Header.Get(v_viaKey) == g_rqVia))
		v_ensures("C05.name", v_imp(ok, v_nameOK(req)))
	}
}

// The innermost connection is fixed.
//
//verif:model local localNetConn
func v_model_localNetConn(c anyConn) net.Conn { return v_pure[net.Conn]("localNetConn", c) }

// connServerName is the subject of C05.handshake, in conn.go.
//
//verif:model local connServerName
func v_model_connServerName(c anyConn) string { return v_pure[string]("connServerName", c) }

// v_nameOK: the connection of the request is for the name of the handshake.
func v_nameOK(req *http.Request) bool {
	conn, ok := req.Context().Value(connCtxKey).(anyConn)
	return ok && conn != nil && any(conn) == g_rqConn && connServerName(conn) == g_rqName && localNetConn(conn).LocalAddr().String() == g_rqMe
}

// v_hostOK: the request is for a server name of the backend (property C05).
func v_hostOK() bool {
	h := g_rqHost
	if h == "" {
		h = g_rqName
	}
	return v_aclHas(g_rqBackend.ServerNames, v_pure[string]("url.Hostname", h))
}

// v_uidOK: the user-identity header is absent, or it is the verified e-mail
// address and the backend wants it (property C07).
func v_uidOK(h http.Header) bool {
	v, ok := h[v_uidKey]
	if !ok {
		return true
	}
	be := g_rqBackend
	if be.SSO == nil || !be.SSO.SetUserIDHeader || !g_rqValid {
		return false
	}
	claims, _ := g_rqClaims.(jwt.MapClaims)
	email, _ := claims["email"].(string)
	return len(v) == 1 && v[0] == email && email != ""
}

//verif:model local (*net/url.URL).Hostname
func v_model_hostname(u *url.URL) string { return v_pure[string]("url.Hostname", u.Host) }

//verif:model local (*net/url.URL).String
func v_model_urlString(u *url.URL) string { return v_havoc[string]() }

// The headers of the response are not those of the request.
//
//verif:model local (net/http.ResponseWriter).Header
func v_model_respHeader(w http.ResponseWriter) http.Header { return make(http.Header) }

// Making tokens does not change the request or its claims.
//
//verif:model (*github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager.TokenManager).URLToken
func v_model_urlToken(tm *tokenmanager.TokenManager, w http.ResponseWriter, req *http.Request, u *url.URL, extra map[string]any) (string, string, error) {
	u.Host = v_havoc[string]()
	return v_havoc[string](), v_havoc[string](), v_havoc[error]()
}

//verif:model (*github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager.CookieManager).SetIDTokenCookie
func v_model_setIDToken(cm *cookiemanager.CookieManager, w http.ResponseWriter, req *http.Request, tok *jwt.Token) error {
	return v_havoc[error]()
}

// FilterOutAuthTokenCookie changes only the Cookie header: obligation
// C11.frame of package cookiemanager.
//
//verif:model github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager.FilterOutAuthTokenCookie
func v_model_filterOut(req *http.Request, names ...string) {
	if v_havoc[bool]() {
		req.Header["Cookie"] = v_havoc[[]string]()
	} else {
		delete(req.Header, "Cookie")
	}
}

// addXFCCHeader changes only its own header: obligation C29.frame.
//
//verif:model addXFCCHeader
func v_model_addXFCC(req *http.Request, which []string) {
	if v_havoc[bool]() {
		req.Header[v_xfccKey] = v_havoc[[]string]()
	}
}

//verif:after expandVars
func v_after_expandVars(s string, req *http.Request, r string) { g_expanded = true }

//verif:loopinv writes:g_expanded C07.userid
func v_loop_headers() bool {
	h, ok := g_rqHeader.(http.Header)
	return ok && v_uidOK(h)
}

// The mark survives the configured headers.
//
//verif:loopinv writes:g_expanded C23.marked
func v_loop_mark() bool {
	h, ok := g_rqHeader.(http.Header)
	return ok && strings.HasSuffix(h.Get(v_viaKey), " "+g_rqMe)
}

// A local endpoint.
//
//verif:model (net/http.Handler).ServeHTTP
func v_model_serveHTTP(h http.Handler, w http.ResponseWriter, req *http.Request) {
	be := g_rqBackend
	clean := pathClean(g_rqPath)
	ok := v_ssoOK(req)
	v_assert("C01.local", v_exists(0, len(be.localHandlers), func(i int) bool {
		l := be.localHandlers[i]
		return l.handler == h && (l.path == clean || l.matchPrefix && strings.HasPrefix(clean, l.path+"/")) && (l.ssoBypass || ok)
	}))
}

// Forwarding.
//
//verif:model (*net/http/httputil.ReverseProxy).ServeHTTP
func v_model_reverseProxy(rp *httputil.ReverseProxy, w http.ResponseWriter, req *http.Request) {
	be := g_rqBackend
	v_assert("C01.forward", v_ssoOK(req))
	v_assert("C01.path", req.URL.Opaque == "" && (req.URL.Path == g_rqPath || req.URL.Path == pathClean(g_rqPath)))
	v_assert("C05.host", v_hostOK())
	v_assert("C05.target", req.URL.Opaque == "" && v_iff(req.URL.Scheme == "http", be.Mode == ModeHTTP) && (req.URL.Scheme == "http" || req.URL.Scheme == "https"))
	v_assert("C07.userid", any(req.Header) == g_rqHeader && v_uidOK(req.Header))
	v_assert("C23.loop", v_noLoop())
	v_assert("C23.marked", strings.HasSuffix(req.Header.Get(v_viaKey), " "+g_rqMe))
	v_assert("C23.pool", v_poolOK(req))
	v_assert("C22.override", v_overrideOK(req))
	out := *req
	rp.Director(&out)
	_, xff := out.Header[v_xffKey]
	_, xfcc := out.Header[v_xfccKey]
	v_assert("C07.xff", !xff)
	v_assert("C07.xfcc", !xfcc || req.TLS != nil && len(req.TLS.PeerCertificates) > 0 && be.ClientAuth != nil && len(be.ClientAuth.AddClientCertHeader) > 0)
	v_assert("C07.userid", v_uidOK(out.Header))
}

// v_overrideOK: the path override of the request, if any, has its path.
func v_overrideOK(req *http.Request) bool {
	id, ok := req.Context().Value(ctxOverrideIDKey).(int)
	return !ok || id >= 0 && id < len(g_rqBackend.PathOverrides) && v_ovMatch(g_rqBackend.PathOverrides[id].Paths, pathClean(g_rqPath))
}

func v_ovMatch(prefixes []string, path string) bool {
	return v_exists(0, len(prefixes), func(i int) bool { return strings.HasPrefix(path, prefixes[i]) })
}

// The upstream connections are pooled under a key that is determined by, and
// determines, the server name, the path override and the PROXY header.
func v_poolOK(req *http.Request) bool {
	be := g_rqBackend
	conn, _ := req.Context().Value(connCtxKey).(anyConn)
	ver := be.proxyProtocolVersion
	key := g_rqName + ";"
	if id, ok := req.Context().Value(ctxOverrideIDKey).(int); ok {
		ver = be.PathOverrides[id].proxyProtocolVersion
		key += strconv.Itoa(id)
	}
	if ver > 0 {
		key += ";" + v_proxyHeader(ver, conn)
	}
	h := sha256.Sum256([]byte(key))
	return req.URL.Host == hex.EncodeToString(h[:])
}

// The header that is sent is the subject of C23.addresses.
func v_proxyHeader(v byte, in anyConn) string { return v_pure[string]("proxyHeader", v, in) }

var g_buf map[*bytes.Buffer]string

//verif:model local bytes.NewBufferString
func v_model_newBufferString(s string) *bytes.Buffer {
	b := v_new[bytes.Buffer]()
	g_buf[b] = s
	return b
}

//verif:model local (*bytes.Buffer).WriteByte
func v_model_bufWriteByte(b *bytes.Buffer, c byte) error {
	if c == ';' {
		g_buf[b] += ";"
	} else {
		g_buf[b] = v_havoc[string]()
	}
	return nil
}

//verif:model local (*bytes.Buffer).WriteString
func v_model_bufWriteString(b *bytes.Buffer, s string) (int, error) {
	g_buf[b] += s
	return len(s), nil
}

//verif:model local (*bytes.Buffer).Bytes
func v_model_bufBytes(b *bytes.Buffer) []byte { return []byte(g_buf[b]) }

//verif:model local (*bytes.Buffer).String
func v_model_bufString(b *bytes.Buffer) string { return g_buf[b] }

//verif:model local writeProxyHeader
func v_model_poolHeader(v byte, out io.Writer, in anyConn) error {
	if b, ok := out.(*bytes.Buffer); ok {
		g_buf[b] += v_proxyHeader(v, in)
	}
	return v_havoc[error]()
}

//verif:model local strings.Join
func v_model_joinHops(elems []string, sep string) string {
	r := v_havoc[string]()
	n := len(elems)
	if n == 0 {
		return ""
	}
	v_assume(r == elems[n-1] || strings.HasSuffix(r, sep+elems[n-1]))
	v_assume(strings.HasSuffix(r, elems[n-1]))
	return r
}

// v_noLoop: the request did not pass through this proxy before (property C23).
func v_noLoop() bool {
	if g_rqVia == "" {
		return true
	}
	hops := commaRE.Split(g_rqVia, -1)
	return v_forall(0, len(hops), func(i int) bool {
		_, via, _ := strings.Cut(hops[i], " ")
		return via != g_rqMe
	})
}

func v_request(be *Backend, req *http.Request, reverse bool) {
	v_assume(be != nil && req != nil && req.URL != nil && req.Header != nil)
	// the context of a request that was not authenticated yet
	v_assume(req.Context().Value(authCtxKey) == nil && req.Context().Value(ctxOverrideIDKey) == nil)
	conn, ok := req.Context().Value(connCtxKey).(anyConn)
	v_assume(ok && conn != nil)
	// the configured headers do not set the user-identity and Via headers
	v_assume(v_all(func(k string) bool {
		_, ok := be.ForwardHTTPHeaders[k]
		return !ok || textproto.CanonicalMIMEHeaderKey(k) != v_uidKey && textproto.CanonicalMIMEHeaderKey(k) != v_viaKey
	}))
	v_assume(v_forall(0, len(be.PathOverrides), func(i int) bool {
		po := be.PathOverrides[i]
		return po != nil && (po.ForwardHTTPHeaders == nil || v_all(func(k string) bool {
			_, ok := (*po.ForwardHTTPHeaders)[k]
			return !ok || textproto.CanonicalMIMEHeaderKey(k) != v_uidKey && textproto.CanonicalMIMEHeaderKey(k) != v_viaKey
		}))
	}))
	g_rqBackend, g_rqReverse = be, reverse
	g_rqPath, g_rqHost, g_rqHeader = req.URL.Path, req.Host, any(req.Header)
	g_rqURL = req.URL
	g_rqConn = conn
	g_rqName = connServerName(conn)
	g_rqVia = req.Header.Get(v_viaKey)
	g_rqMe = localNetConn(conn).LocalAddr().String()
	g_rqStart = v_now()
	g_rqClaims, g_rqValid = nil, false
}

//verif:proof
//verif:covers C01.forward C01.path C01.local C05.host C05.target C07.userid C07.xff C07.xfcc C23.loop C23.marked C23.pool C22.override
func v_proof_reverseProxy(be *Backend, w http.ResponseWriter, req *http.Request) {
	v_request(be, req, true)
	be.reverseProxy().ServeHTTP(w, req)
}

//verif:proof
//verif:covers C01.local C01.static
func v_proof_localHandler(be *Backend, w http.ResponseWriter, req *http.Request) {
	v_request(be, req, false)
	be.localHandler().ServeHTTP(w, req)
}

// Static files (property C06).
var (
	g_stRoot   string
	g_stPrefix string
	g_stPath   string
	g_stMethod string
	g_stFile   *os.File
)

//verif:contract (*Backend).serveStaticFiles
//verif:covers C06.method C06.root C06.clean C06.hidden C06.path C06.regular
func spec_serveStaticFiles(be *Backend, w http.ResponseWriter, req *http.Request, docRoot, prefix string) func() {
	v_requires(be != nil && req != nil && req.URL != nil)
	v_requires_l("C01.static", v_ssoOK(req))
	v_requires_l("C05.static", !g_rqReverse || v_hostOK())
	v_requires_l("C06.root", docRoot == g_rqBackend.DocumentRoot && prefix == "" || v_exists(0, len(g_rqBackend.PathOverrides), func(i int) bool {
		po := g_rqBackend.PathOverrides[i]
		return po.DocumentRoot == docRoot && v_aclHas(po.Paths, prefix)
	}))
	v_requires_l("C06.path", req.URL.Path == g_rqPath)
	g_stRoot, g_stPrefix, g_stPath, g_stMethod = docRoot, prefix, req.URL.Path, req.Method
	return func() {}
}

func v_staticFile(name string) {
	v_assert("C06.method", g_stMethod == http.MethodGet || g_stMethod == http.MethodHead)
	v_assert("C06.root", g_stRoot != "")
	v_assert("C06.clean", pathClean(g_stPath) == g_stPath)
	rel := strings.TrimPrefix(strings.TrimPrefix(g_stPath, g_stPrefix), "/")
	el := strings.Split(rel, "/")
	v_assert("C06.hidden", v_forall(0, len(el), func(i int) bool { return !strings.HasPrefix(el[i], ".") && !strings.Contains(el[i], `\`) }))
	base := filepath.Join(g_stRoot, filepath.FromSlash(rel))
	v_assert("C06.path", name == base || name == filepath.Join(base, "index.html"))
}

//verif:model local os.Open
func v_model_open(name string) (*os.File, error) {
	v_staticFile(name)
	return v_new[os.File](), v_havoc[error]()
}

//verif:model local os.OpenFile
func v_model_openFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	v_staticFile(name)
	return v_new[os.File](), v_havoc[error]()
}

//verif:model local net/http.ServeFile
func v_model_serveFile(w http.ResponseWriter, req *http.Request, name string) {
	v_staticFile(name)
	v_assert("C06.regular", false)
}

//verif:model local (*os.File).Stat
func v_model_fstat(f *os.File) (os.FileInfo, error) {
	return v_pure[os.FileInfo]("fstat", f), v_havoc[error]()
}

//verif:pure (io/fs.FileInfo).Mode
//verif:pure (io/fs.FileMode).IsRegular

//verif:model local net/http.ServeContent
func v_model_serveContent(w http.ResponseWriter, req *http.Request, name string, modtime time.Time, content io.ReadSeeker) {
	f, ok := content.(*os.File)
	v_assert("C06.regular", ok && v_pure[os.FileInfo]("fstat", f).Mode().IsRegular())
}

var _ context.Context

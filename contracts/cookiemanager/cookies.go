//verif:package proxy/internal/cookiemanager

package cookiemanager

import (
	"crypto/sha256"
	"encoding/hex"
	"net"
	"net/http"
	"strings"

	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/net/idna"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
)

// ---- tokens are validated by the token manager (property C13)

// What a parser option requires: 1 is an issuer, 2 is an audience.
func v_optKind(o jwt.ParserOption) int     { return v_pure[int]("jwt.option.kind", any(o)) }
func v_optValue(o jwt.ParserOption) string { return v_pure[string]("jwt.option.value", any(o)) }

//verif:model github.com/golang-jwt/jwt/v5.WithIssuer
func v_model_withIssuer(iss string) jwt.ParserOption {
	o := v_pure[jwt.ParserOption]("jwt.WithIssuer", iss)
	v_assume(v_optKind(o) == 1 && v_optValue(o) == iss)
	return o
}

//verif:model github.com/golang-jwt/jwt/v5.WithAudience
func v_model_withAudience(aud string) jwt.ParserOption {
	o := v_pure[jwt.ParserOption]("jwt.WithAudience", aud)
	v_assume(v_optKind(o) == 2 && v_optValue(o) == aud)
	return o
}

// The token that was validated, and what it was validated against.
var (
	g_vTok  *jwt.Token
	g_vStr  string
	g_vOK   bool
	g_vOpts []jwt.ParserOption
)

//verif:model (*github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager.TokenManager).ValidateToken
func v_model_validateToken(tm *tokenmanager.TokenManager, t string, opts ...jwt.ParserOption) (*jwt.Token, error) {
	g_vOK = false
	if v_havoc[bool]() {
		return nil, v_err()
	}
	tok := v_new[jwt.Token]()
	tok.Claims = v_havoc[jwt.MapClaims]()
	tok.Valid = true
	g_vTok, g_vStr, g_vOK = tok, t, true
	g_vOpts = opts
	// an option that is not known here
	v_assert("C10.options", v_forall(0, len(opts), func(i int) bool { return v_optKind(opts[i]) == 1 || v_optKind(opts[i]) == 2 }))
	return tok, nil
}

//verif:model (*net/http.Request).Cookie
func v_model_cookie(req *http.Request, name string) (*http.Cookie, error) {
	if v_pure[bool]("hasCookie", req, name) {
		c := v_new[http.Cookie]()
		c.Name = name
		c.Value = v_pure[string]("cookieValue", req, name)
		return c, nil
	}
	return nil, http.ErrNoCookie
}

//verif:inlinestd (github.com/golang-jwt/jwt/v5.MapClaims).GetSubject
//verif:inlinestd (github.com/golang-jwt/jwt/v5.MapClaims).parseString

// v_checked: the parser required this issuer and this audience.
func v_checked(iss, aud string) bool {
	return v_exists(0, len(g_vOpts), func(i int) bool { return v_optKind(g_vOpts[i]) == 1 }) &&
		v_exists(0, len(g_vOpts), func(i int) bool { return v_optKind(g_vOpts[i]) == 2 }) &&
		v_forall(0, len(g_vOpts), func(i int) bool {
			o := g_vOpts[i]
			return v_imp(v_optKind(o) == 1, v_optValue(o) == iss) && v_imp(v_optKind(o) == 2, v_optValue(o) == aud)
		})
}

// v_hostOf is the host of a request, without port.
func v_hostOf(req *http.Request) string {
	host := req.Host
	if h, _, err := net.SplitHostPort(host); err == nil {
		host = h
	}
	return host
}

//verif:contract (*CookieManager).ValidateAuthTokenCookie
func spec_validateAuthTokenCookie(cm *CookieManager, req *http.Request) func(*jwt.Token, error) {
	v_requires(cm != nil && req != nil && cm.issuer != "")
	g_vOK = false
	key := v_havoc[string]()
	v0, ok0 := req.Header[key]
	rq := *req
	return func(tok *jwt.Token, err error) {
		v_ensures("C10.signature", v_imp(err == nil, tok != nil && g_vOK && g_vTok == tok))
		v_ensures("C10.cookie", v_imp(err == nil, v_pure[bool]("hasCookie", req, "TLSPROXYAUTH") && g_vStr == v_pure[string]("cookieValue", req, "TLSPROXYAUTH")))
		if err == nil {
			c, ok := tok.Claims.(jwt.MapClaims)
			v_ensures("C10.issuer", v_checked(cm.issuer, cm.issuer))
			v_ensures("C10.purpose", ok && c["proxyauth"] == any(cm.issuer))
			v_ensures("C10.provider", ok && c["provider"] == any(cm.provider))
			sub, _ := c["sub"].(string)
			v_ensures("C10.subject", sub != "")
		}
		v1, ok1 := req.Header[key]
		v_ensures("C10.frame", ok0 == ok1 && len(v0) == len(v1) && v_forall(0, len(v0), func(i int) bool { return v0[i] == v1[i] }))
		v_ensures("C10.frame", req.Host == rq.Host && req.URL == rq.URL && any(req.Header) == any(rq.Header) && req.Method == rq.Method)
	}
}

//verif:contract (*CookieManager).ValidateIDTokenCookie
func spec_validateIDTokenCookie(cm *CookieManager, req *http.Request, authToken *jwt.Token) func(error) {
	v_requires(cm != nil && req != nil && authToken != nil && cm.issuer != "")
	g_vOK = false
	ac, okA := authToken.Claims.(jwt.MapClaims)
	host := v_hostOf(req)
	key := v_havoc[string]()
	v0, ok0 := req.Header[key]
	rq := *req
	return func(err error) {
		v_ensures("C10.signature", v_imp(err == nil, g_vOK && okA))
		v_ensures("C10.cookie", v_imp(err == nil, v_pure[bool]("hasCookie", req, "TLSPROXYIDTOKEN") && g_vStr == v_pure[string]("cookieValue", req, "TLSPROXYIDTOKEN")))
		if err == nil {
			c, ok := g_vTok.Claims.(jwt.MapClaims)
			v_ensures("C10.issuer", v_checked(cm.issuer, "https://"+host+"/"))
			v_ensures("C10.session", ok && c["sub"] == ac["sub"] && c["sid"] == ac["sid"])
		}
		v1, ok1 := req.Header[key]
		v_ensures("C10.frame", ok0 == ok1 && len(v0) == len(v1) && v_forall(0, len(v0), func(i int) bool { return v0[i] == v1[i] }))
		v_ensures("C10.frame", req.Host == rq.Host && req.URL == rq.URL && any(req.Header) == any(rq.Header) && req.Method == rq.Method)
	}
}

//verif:contract (*CookieManager).ValidateAuthorizationHeader
func spec_validateAuthorizationHeader(cm *CookieManager, req *http.Request) func(*jwt.Token, error) {
	v_requires(cm != nil && req != nil && cm.issuer != "")
	g_vOK = false
	host := v_hostOf(req)
	h := req.Header.Get("Authorization")
	key := v_havoc[string]()
	v0, ok0 := req.Header[key]
	rq := *req
	return func(tok *jwt.Token, err error) {
		v_ensures("C10.signature", v_imp(err == nil, tok != nil && g_vOK && g_vTok == tok))
		if err == nil {
			c, ok := tok.Claims.(jwt.MapClaims)
			v_ensures("C10.bearer", len(h) >= 7 && strings.ToUpper(h[:7]) == "BEARER " && g_vStr == h[7:])
			v_ensures("C10.issuer", v_checked(cm.issuer, "https://"+host+"/"))
			v_ensures("C10.purpose", ok && c["proxyauth"] == nil)
		}
		v1, ok1 := req.Header[key]
		v_ensures("C10.frame", ok0 == ok1 && len(v0) == len(v1) && v_forall(0, len(v0), func(i int) bool { return v0[i] == v1[i] }))
		v_ensures("C10.frame", req.Host == rq.Host && req.URL == rq.URL && any(req.Header) == any(rq.Header) && req.Method == rq.Method)
	}
}

// ---- issuing (property C11)

var (
	g_isCM      *CookieManager
	g_isKind    int // 1: session token, 2: ID token
	g_isUser    string
	g_isEmail   string
	g_isSID     string
	g_isHost    string
	g_isMade    bool
	g_isToken   string
	g_isSet     bool
	g_isSub     any
	g_isSession any
)

//verif:model (*github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager.TokenManager).CreateToken
func v_model_createToken(tm *tokenmanager.TokenManager, claims jwt.Claims, alg string) (string, error) {
	c, ok := claims.(jwt.MapClaims)
	v_assert("C11.claims", ok && c != nil)
	if g_isKind == 1 {
		hh := sha256.Sum256([]byte(g_isHost))
		iss := any(g_isCM.issuer)
		v_assert("C11.claims", c["iss"] == iss && c["aud"] == iss && c["proxyauth"] == iss)
		v_assert("C11.claims", c["sub"] == any(g_isUser) && c["email"] == any(g_isEmail) && g_isUser != "" && g_isEmail != "")
		v_assert("C11.claims", c["provider"] == any(g_isCM.provider) && c["sid"] == any(g_isSID))
		v_assert("C11.claims", c["hhash"] == any(hex.EncodeToString(hh[:])))
		_, hasExp := c["exp"].(int64)
		_, hasIat := c["iat"].(int64)
		v_assert("C11.expiry", hasExp && hasIat)
	} else {
		_, hasPA := c["proxyauth"]
		v_assert("C11.idtoken", !hasPA)
		h := "https://" + g_isHost + "/"
		aud := c["aud"]
		if s, ok := aud.(string); ok {
			v_assert("C11.audience", s == h)
		} else {
			l, ok := aud.([]string)
			u, err := idna.Lookup.ToUnicode(g_isHost)
			v_assert("C11.audience", ok && v_forall(0, len(l), func(i int) bool {
				return l[i] == h || err == nil && l[i] == "https://"+u+"/"
			}))
		}
	}
	if v_havoc[bool]() {
		return "", v_err()
	}
	g_isMade = true
	g_isToken = v_havoc[string]()
	v_assume(g_isToken != "")
	return g_isToken, nil
}

//verif:pure (*golang.org/x/net/idna.Profile).ToUnicode

//verif:model net/http.SetCookie
func v_model_setCookie(w http.ResponseWriter, c *http.Cookie) {
	v_assert("C11.attributes", c != nil && c.Secure && c.HttpOnly)
	if g_isMade && c.Value == g_isToken {
		if g_isKind == 1 {
			v_assert("C11.attributes", c.Name == "TLSPROXYAUTH" && c.Domain == g_isCM.domain && c.Path == "/")
		} else {
			v_assert("C11.attributes", c.Name == "TLSPROXYIDTOKEN" && c.Domain == "" && c.Path == "/")
		}
		g_isSet = true
	}
}

//verif:contract (*CookieManager).SetAuthTokenCookie
func spec_setAuthTokenCookie(cm *CookieManager, w http.ResponseWriter, userID, email, sessionID, host string, extraClaims map[string]any) func(error) {
	v_requires(cm != nil)
	g_isCM, g_isKind, g_isMade, g_isSet = cm, 1, false, false
	g_isUser, g_isEmail, g_isSID, g_isHost = userID, email, sessionID, host
	return func(err error) {
		v_ensures("C11.claims", v_imp(err == nil, g_isMade && g_isSet))
	}
}

//verif:contract (*CookieManager).SetIDTokenCookie
func spec_setIDTokenCookie(cm *CookieManager, w http.ResponseWriter, req *http.Request, authToken *jwt.Token) func(error) {
	v_requires(cm != nil && req != nil && authToken != nil)
	g_isCM, g_isKind, g_isMade, g_isSet = cm, 2, false, false
	g_isHost = v_hostOf(req)
	return func(err error) {
		v_ensures("C11.idtoken", v_imp(err == nil, g_isMade && g_isSet))
	}
}

//verif:contract (*CookieManager).SetNonce
func spec_setNonce(cm *CookieManager, w http.ResponseWriter, nonce string) func() {
	v_requires(cm != nil)
	g_isMade = false
	return func() {}
}

//verif:contract (*CookieManager).Nonce
func spec_nonce(cm *CookieManager, w http.ResponseWriter, req *http.Request) func(string) {
	v_requires(cm != nil && req != nil)
	g_isMade = false
	return func(s string) {
		v_ensures("C15.nonce", v_imp(s != "", v_pure[bool]("hasCookie", req, "TLSPROXYNONCE") && s == v_pure[string]("cookieValue", req, "TLSPROXYNONCE")))
	}
}

// ---- removing the session cookie from a request

var (
	g_foReq   *http.Request
	g_foAll   []*http.Cookie // the cookies of the request
	g_foJ     int            // any one of them
	g_foKeep  bool           // it has to stay
	g_foKept  bool
	g_foLine  string // the Cookie header, as rebuilt
	g_foDirty bool
	g_foKey   string // any other header, and its value
	g_foHas   bool
	g_foVal   []string
)

//verif:model (*net/http.Request).Cookies
func v_model_cookies(req *http.Request) []*http.Cookie { return g_foAll }

//verif:model (*net/http.Request).AddCookie
func v_model_addCookie(req *http.Request, c *http.Cookie) {
	v_assert("C11.filter", c != nil && req == g_foReq && c.Name != "TLSPROXYAUTH")
	if v, ok := req.Header["Cookie"]; ok && !(len(v) == 1 && v[0] == g_foLine) {
		g_foDirty = true
	}
	g_foLine = v_havoc[string]()
	req.Header["Cookie"] = []string{g_foLine}
	if c == g_foAll[g_foJ] {
		g_foKept = true
	}
}

func v_foState() bool {
	v, ok := g_foReq.Header["Cookie"]
	return !g_foDirty && (!ok || len(v) == 1 && v[0] == g_foLine)
}

func v_foFrame() bool {
	v, ok := g_foReq.Header[g_foKey]
	return ok == g_foHas && len(v) == len(g_foVal) && v_forall(0, len(v), func(i int) bool { return v[i] == g_foVal[i] })
}

//verif:loopinv writes:g_foKept C11.filter
func v_loop_filter(done int) bool {
	return v_foState() && v_foFrame() && v_imp(g_foKeep && done > g_foJ, g_foKept)
}

//verif:contract FilterOutAuthTokenCookie
func spec_filterOut(req *http.Request, names ...string) func() {
	v_requires(req != nil && req.Header != nil)
	g_foReq = req
	g_foAll = v_havoc[[]*http.Cookie]()
	g_foJ = v_havoc[int]()
	g_foKept, g_foDirty = false, false
	all := g_foAll
	v_assume(v_forall(0, len(all), func(i int) bool { return all[i] != nil }))
	v_assume(0 <= g_foJ && g_foJ < len(all) || len(all) == 0)
	if len(all) > 0 {
		n := all[g_foJ].Name
		g_foKeep = n != "TLSPROXYAUTH" && !v_exists(0, len(names), func(i int) bool { return names[i] == n })
	} else {
		g_foKeep = false
	}
	g_foKey = v_havoc[string]()
	v_assume(g_foKey != "Cookie")
	g_foVal, g_foHas = req.Header[g_foKey]
	rq := *req
	return func() {
		v_ensures("C11.filter", v_foState() && v_imp(g_foKeep, g_foKept))
		v_ensures("C11.frame", v_foFrame())
		v_ensures("C11.frame", req.Host == rq.Host && req.URL == rq.URL && any(req.Header) == any(rq.Header) && req.Method == rq.Method)
	}
}

//verif:package proxy/internal/tokenmanager

package tokenmanager

import (
	"crypto"
	"net/http"
	"net/url"

	jwt "github.com/golang-jwt/jwt/v5"
)

// ---- validation (property C13)

//verif:guard TokenManager.mu keys
//verif:lockinv TokenManager.mu C13.keys
func v_inv_keys(tm *TokenManager) bool {
	return v_forall(0, len(tm.keys.Keys), func(i int) bool { return tm.keys.Keys[i] != nil && tm.keys.Keys[i].privKey != nil })
}

//verif:model (github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager.privateKey).Public
func v_model_public(k privateKey) crypto.PublicKey { return v_pure[crypto.PublicKey]("public", k) }

// The signing algorithms that a parser option allows.
//
//verif:model github.com/golang-jwt/jwt/v5.WithValidMethods
func v_model_withValidMethods(methods []string) jwt.ParserOption {
	o := v_havoc[jwt.ParserOption]()
	v_assume(v_isMethods(o) && v_iff(v_pure[bool]("jwt.option.ours", any(o)), v_allowed(methods)))
	return o
}

// v_allowed: only the asymmetric algorithms of our keys.
func v_allowed(methods []string) bool {
	return len(methods) > 0 && v_forall(0, len(methods), func(i int) bool {
		m := methods[i]
		return m == "ES256" || m == "RS256" || m == "EdDSA"
	})
}

func v_isMethods(o jwt.ParserOption) bool { return v_pure[bool]("jwt.option.methods", any(o)) }
func v_isOurs(o jwt.ParserOption) bool    { return v_pure[bool]("jwt.option.ours", any(o)) }

var (
	g_vlTM   *TokenManager
	g_vlStr  string
	g_vlOpts []jwt.ParserOption
	g_vlTok  *jwt.Token
)

// v_keyOf: the key is the public half of the proxy's key with this id.
func v_keyOf(tm *TokenManager, kid any, key any) bool {
	l := tm.keys.Keys
	return v_exists(0, len(l), func(i int) bool { return any(l[i].ID) == kid && key == any(l[i].privKey.Public()) })
}

// The parser of the JWT library: a token is returned without error only when
// its signature verifies with the key that the callback returns for it and its
// algorithm is one of the allowed methods (the last such option).
//
//verif:model github.com/golang-jwt/jwt/v5.ParseWithClaims
func v_model_parse(t string, claims jwt.Claims, keyFunc jwt.Keyfunc, options ...jwt.ParserOption) (*jwt.Token, error) {
	v_assert("C13.token", t == g_vlStr)
	v_assert("C13.claims", v_isMapClaims(claims))
	// the method of the token has to be one of ours
	v_assert("C13.methods", v_exists(0, len(options), func(i int) bool { return v_isMethods(options[i]) && v_isOurs(options[i]) }))
	v_assert("C13.methods", v_forall(0, len(options), func(i int) bool {
		return !v_isMethods(options[i]) || v_isOurs(options[i]) || v_exists(i+1, len(options), func(j int) bool { return v_isMethods(options[j]) })
	}))
	v_assert("C13.methods", v_isOurs(options[len(options)-1]) && v_isMethods(options[len(options)-1]) || v_forall(0, len(options), func(i int) bool { return !v_isMethods(options[i]) || v_isOurs(options[i]) }))
	// nothing that the caller required is dropped
	v_assert("C13.options", v_forall(0, len(g_vlOpts), func(i int) bool {
		return v_exists(0, len(options), func(j int) bool { return any(options[j]) == any(g_vlOpts[i]) })
	}))
	tok := v_new[jwt.Token]()
	tok.Header = v_havoc[map[string]any]()
	tok.Claims = claims
	key, err := keyFunc(tok)
	v_assert("C13.key", v_imp(err == nil, v_keyOf(g_vlTM, tok.Header["kid"], key)))
	if err != nil || v_havoc[bool]() {
		return nil, v_err()
	}
	tok.Valid = true
	g_vlTok = tok
	return tok, nil
}

func v_isMapClaims(c jwt.Claims) bool { _, ok := c.(jwt.MapClaims); return ok }

//verif:contract (*TokenManager).ValidateToken
//verif:covers C13.methods C13.options C13.key C13.token
func spec_validateToken(tm *TokenManager, t string, opts ...jwt.ParserOption) func(*jwt.Token, error) {
	v_requires(tm != nil)
	g_vlTM, g_vlStr, g_vlOpts, g_vlTok = tm, t, opts, nil
	return func(tok *jwt.Token, err error) {
		v_ensures("C13.validated", v_imp(err == nil, tok != nil && tok == g_vlTok && tok.Valid))
	}
}

// ---- issuing

//verif:pure github.com/golang-jwt/jwt/v5.GetSigningMethod

//verif:model (*github.com/golang-jwt/jwt/v5.Token).SignedString
func v_model_signedString(tok *jwt.Token, key any) (string, error) {
	v_assert("C13.sign", v_exists(0, len(g_vlTM.keys.Keys), func(i int) bool {
		k := g_vlTM.keys.Keys[i]
		return tok.Header["kid"] == any(k.ID) && key == any(k.privKey)
	}))
	return v_havoc[string](), v_havoc[error]()
}

//verif:contract (*TokenManager).CreateToken
//verif:covers C13.sign
func spec_createToken(tm *TokenManager, claims jwt.Claims, alg string) func(string, error) {
	v_requires(tm != nil)
	g_vlTM = tm
	return func(string, error) {}
}

// ---- redirect tokens (property C12)

var (
	g_rtSID  string // the session of the request
	g_rtURL  string // the URL that is signed
	g_rtKind bool   // a redirect token is being made
	g_rtMade bool
)

//verif:model (*net/http.Request).Cookie
func v_model_cookie(req *http.Request, name string) (*http.Cookie, error) {
	if v_pure[bool]("hasCookie", req, name) {
		c := v_new[http.Cookie]()
		c.Name = name
		c.Value = v_pure[string]("cookieValue", req, name)
		return c, nil
	}
	return nil, http.ErrNoCookie
}

//verif:model net/http.SetCookie
func v_model_setCookie(w http.ResponseWriter, c *http.Cookie) {
	v_assert("C12.cookie", c != nil && c.Name == "TLSPROXYSID" && c.Secure && c.HttpOnly)
	g_rtSID = c.Value
}

//verif:contract sessionID
func spec_sessionID(w http.ResponseWriter, req *http.Request) func(string) {
	v_requires(req != nil)
	return func(sid string) {
		v_ensures("C12.session", v_imp(v_pure[bool]("hasCookie", req, "TLSPROXYSID"), sid == v_pure[string]("cookieValue", req, "TLSPROXYSID")))
		v_ensures("C12.session", sid == g_rtSID)
	}
}

//verif:model (*net/url.URL).String
func v_model_urlString(u *url.URL) string {
	return v_pure[string]("url.String", *u)
}

//verif:pure (*net/url.URL).Hostname
//verif:pure (*golang.org/x/net/idna.Profile).ToUnicode
//verif:pure net/url.Parse

//verif:before (*TokenManager).CreateToken
func v_before_createToken(tm *TokenManager, claims jwt.Claims, alg string) {
	if g_rtKind {
		c, ok := claims.(jwt.MapClaims)
		v_assert("C12.signed", ok && c["url"] == any(g_rtURL))
		v_assert("C12.session", ok && c["sid"] == any(g_rtSID))
		g_rtMade = true
	}
}

//verif:contract (*TokenManager).URLToken
//verif:covers C12.signed C12.session
func spec_urlToken(tm *TokenManager, w http.ResponseWriter, req *http.Request, u *url.URL, extra map[string]any) func(string, string, error) {
	v_requires(tm != nil && req != nil && u != nil)
	g_rtKind, g_rtMade = true, false
	g_rtURL = u.String()
	u0 := *u
	return func(tok, display string, err error) {
		v_ensures("C12.signed", v_imp(err == nil, g_rtMade))
		v_ensures("C12.url", *u == u0)
		g_rtKind = false
	}
}

//verif:after (*TokenManager).ValidateToken
func v_after_validateToken(tm *TokenManager, t string, opts []jwt.ParserOption, tok *jwt.Token, err error) {
	g_rtOK, g_rtStr, g_rtTok = err == nil, t, tok
}

var (
	g_rtOK  bool // the last token that was validated
	g_rtStr string
	g_rtTok *jwt.Token
)

//verif:contract (*TokenManager).ValidateURLToken
func spec_validateURLToken(tm *TokenManager, w http.ResponseWriter, req *http.Request, token string) func(*url.URL, jwt.MapClaims, error) {
	v_requires(tm != nil && req != nil)
	v_assume(tm.logger != nil)
	g_rtOK = false
	return func(u *url.URL, c jwt.MapClaims, err error) {
		v_ensures("C12.signature", v_imp(err == nil, g_rtOK && g_rtStr == token))
		if err == nil {
			claims, ok := g_rtTok.Claims.(jwt.MapClaims)
			v_ensures("C12.claims", ok && any(claims) == any(c))
			v_ensures("C12.session", c["sid"] == any(g_rtSID))
			v_ensures("C12.session", v_imp(v_pure[bool]("hasCookie", req, "TLSPROXYSID"), g_rtSID == v_pure[string]("cookieValue", req, "TLSPROXYSID")))
			s, ok := c["url"].(string)
			want, _ := url.Parse(s)
			v_ensures("C12.url", ok && u == want)
		}
	}
}

//verif:package proxy/internal/oidc

package oidc

import (
	"encoding/json"
	"net/http"
	"net/url"
	"sync"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
)

// Logins with an external OpenID Connect provider (property C15).

//verif:guard ProviderClient.mu states*
//verif:locked ProviderClient.mu C15.locked
//verif:lockinv ProviderClient.mu C15.inv
func v_inv_states(p *ProviderClient) bool {
	return p.states != nil && v_all(func(k string) bool {
		st, ok := p.states[k]
		return !ok || st != nil
	})
}

var (
	g_p     *ProviderClient
	g_req   *http.Request
	g_start time.Time
	g_form  string // the state in the callback
	g_cook  string // the nonce of the browser

	g_st      *oauthState // the attempt, as it was when the callback claimed it
	g_attempt oauthState
	g_unseen  bool
	g_claimed bool

	g_sub, g_email, g_nonce, g_hd string // what the provider says
	g_unverified                  bool
	g_token                       bool
	g_session                     bool
)

//verif:model local (*net/http.Request).ParseForm
func v_model_parseForm(req *http.Request) error {
	req.Form = v_havoc[url.Values]()
	v_assume(req != g_req || req.Form.Get("state") == g_form)
	return v_havoc[error]()
}

//verif:model local (*net/http.Request).FormValue
func v_model_formValue(req *http.Request, key string) string {
	if req == g_req && key == "state" {
		return g_form
	}
	return v_havoc[string]()
}

//verif:model local (github.com/c2FmZQ/tlsproxy/proxy/internal/oidc.CookieManager).Nonce
func v_model_nonce(cm CookieManager, w http.ResponseWriter, req *http.Request) string {
	if req == g_req && cm == g_p.cm {
		return g_cook
	}
	return v_havoc[string]()
}

// An attempt is claimed in the critical section in which it is found unused
// and is marked, or removed.
//
//verif:after local (*sync.Mutex).Lock
func v_after_lock(m *sync.Mutex) {
	if m == &g_p.mu && !g_claimed {
		st, ok := g_p.states[g_form]
		g_st, g_unseen = st, ok && !st.Seen
		if ok {
			g_attempt = *st
		}
	} else if m == &g_p.mu {
		// An attempt is known by a random number that is not used again, and only
		// its mark is changed while others have the lock.
		st, ok := g_p.states[g_form]
		v_assume(!ok || st == g_st && st.Host == g_attempt.Host && st.OriginalURL == g_attempt.OriginalURL)
	}
}

//verif:before local (*sync.Mutex).Unlock
func v_before_unlock(m *sync.Mutex) {
	if m == &g_p.mu && !g_claimed && g_unseen {
		st, ok := g_p.states[g_form]
		g_claimed = !ok || st == g_st && st.Seen
	}
}

// Attempts that are too old do not survive the clean up.
//
//verif:loopinv writes:v_ranged C15.fresh
func v_loop_expire() bool {
	st, ok := g_p.states[g_form]
	return v_inv_states(g_p) && g_start.Sub(v_now()) <= 0 && (!ok || st == g_st && st.Seen == g_attempt.Seen && st.Created == g_attempt.Created && st.Host == g_attempt.Host && st.OriginalURL == g_attempt.OriginalURL &&
		(!v_ranged(g_form) || g_start.Sub(st.Created) <= 5*time.Minute))
}

// The answers of the provider.
//
//verif:after local (*encoding/json.Decoder).Decode
func v_after_decode(d *json.Decoder, v any, err error) { v_answer(v) }

//verif:after local encoding/json.Unmarshal
func v_after_unmarshal(data []byte, v any, err error) { v_answer(v) }

//verif:after local (*github.com/golang-jwt/jwt/v5.Parser).ParseUnverified
func v_after_parse(p *jwt.Parser, s string, claims jwt.Claims, t *jwt.Token, parts []string, err error) {
	v_answer(claims)
}

func v_answer(v any) {
	g_sub, g_email, g_nonce, g_hd = v_tag[string](v, "sub"), v_tag[string](v, "email"), v_tag[string](v, "nonce"), v_tag[string](v, "hd")
	ver := v_tag[*bool](v, "email_verified")
	g_unverified = ver != nil && !*ver
	g_token = true
}

// The session.
//
//verif:model local (github.com/c2FmZQ/tlsproxy/proxy/internal/oidc.CookieManager).SetAuthTokenCookie
func v_model_setCookie(cm CookieManager, w http.ResponseWriter, userID, email, sessionID, host string, extra map[string]any) error {
	v_assert("C15.state", g_claimed && g_form == g_cook)
	v_assert("C15.fresh", g_start.Sub(g_attempt.Created) <= 5*time.Minute)
	v_assert("C15.nonce", g_token && (g_nonce == "" || g_nonce == g_form))
	v_assert("C15.email", email != "" && email == g_email && userID == g_sub && !g_unverified)
	v_assert("C15.domain", g_p.cfg.HostedDomain == "" || g_hd != "" && (g_p.cfg.HostedDomain == "*" || g_hd == g_p.cfg.HostedDomain))
	v_assert("C15.host", host == g_attempt.Host && cm == g_p.cm)
	g_session = true
	return v_havoc[error]()
}

//verif:model local net/http.Redirect
func v_model_redirect(w http.ResponseWriter, req *http.Request, u string, code int) {
	v_assert("C15.host", g_login || g_session && u == g_attempt.OriginalURL)
}

// The code is redeemed with the verifier of the attempt.
//
//verif:before local (net/url.Values).Encode
func v_before_encode(v url.Values) {
	v_assert("C15.verifier", g_claimed && v.Get("code_verifier") == g_attempt.CodeVerifier && v.Get("redirect_uri") == g_p.cfg.RedirectURL)
}

//verif:contract (*ProviderClient).HandleCallback
//verif:covers C15.state C15.fresh C15.nonce C15.email C15.domain C15.host C15.verifier
func spec_HandleCallback(p *ProviderClient, w http.ResponseWriter, req *http.Request) func() {
	v_requires(p != nil && p.cm != nil && p.er != nil && w != nil && req != nil)
	g_p, g_req, g_start = p, req, v_now()
	g_form, g_cook = v_havoc[string](), v_havoc[string]()
	g_claimed, g_unseen, g_token, g_session, g_unverified = false, false, false, false, false
	g_st, g_login = nil, false
	return func() {}
}

// A login request: the attempt is recorded under the number that the browser
// gets.
//
//verif:pure net/url.Parse

var (
	g_login bool
	g_set   bool
	g_nset  string
)

//verif:model local (github.com/c2FmZQ/tlsproxy/proxy/internal/oidc.CookieManager).SetNonce
func v_model_setNonce(cm CookieManager, w http.ResponseWriter, nonce string) {
	v_assert("C15.request", cm == g_p.cm)
	g_set, g_nset = true, nonce
}

//verif:contract (*ProviderClient).RequestLogin
//verif:covers C15.request
func spec_RequestLogin(p *ProviderClient, w http.ResponseWriter, req *http.Request, originalURL string, opts []idp.Option) func() {
	v_requires(p != nil && p.cm != nil && p.er != nil && w != nil && req != nil)
	g_p, g_req, g_start = p, req, v_now()
	g_login, g_set = true, false
	g_claimed, g_unseen = false, false
	u, err := url.Parse(originalURL)
	return func() {
		st, ok := p.states[g_nset]
		v_ensures("C15.request", v_imp(g_set, ok && st != nil && !st.Seen && st.OriginalURL == originalURL && err == nil && st.Host == u.Host && st.Created.Sub(v_now()) <= 0))
	}
}

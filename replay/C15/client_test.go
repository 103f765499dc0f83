//verif:dir proxy/internal/oidc

package oidc

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sync"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
)

type verifCM struct {
	mu     sync.Mutex
	cookie string // the nonce cookie of the browser
	set    string
	got    []any
}

func (c *verifCM) SetAuthTokenCookie(w http.ResponseWriter, userID, email, sessionID, host string, extra map[string]any) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.got = append(c.got, email, host, userID)
	return nil
}
func (c *verifCM) SetNonce(w http.ResponseWriter, n string)                   { c.set = n }
func (c *verifCM) Nonce(w http.ResponseWriter, req *http.Request) string      { return c.cookie }
func (c *verifCM) ClearCookies(w http.ResponseWriter) error                   { return nil }
func (c *verifCM) Record(string)                                             {}

func TestVerifC15(t *testing.T) {
	var mu sync.Mutex
	var answer map[string]any
	var idToken bool
	var form url.Values
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		if req.URL.Path == "/info" {
			json.NewEncoder(w).Encode(answer)
			return
		}
		req.ParseForm()
		form = req.Form
		if idToken {
			s, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims(answer)).SignedString([]byte("k"))
			json.NewEncoder(w).Encode(map[string]any{"id_token": s, "access_token": "a", "token_type": "Bearer"})
			return
		}
		json.NewEncoder(w).Encode(map[string]any{"access_token": "a", "token_type": "Bearer"})
	}))
	defer srv.Close()
	n := 0
	for _, hd := range []string{"", "*", "example.com"} {
		for _, id := range []bool{true, false} {
			cm := &verifCM{}
			p, err := New(Config{AuthEndpoint: srv.URL + "/auth", TokenEndpoint: srv.URL + "/token", UserinfoEndpoint: srv.URL + "/info", RedirectURL: "https://login.example.com/cb", ClientID: "id", ClientSecret: "s", HostedDomain: hd}, cm, cm)
			if err != nil {
				t.Fatal(err)
			}
			login := func(u string) string {
				w := httptest.NewRecorder()
				p.RequestLogin(w, httptest.NewRequest("GET", "https://x/", nil), u)
				loc, _ := url.Parse(w.Header().Get("Location"))
				if q := loc.Query(); q.Get("state") != cm.set || q.Get("nonce") != cm.set || cm.set == "" || q.Get("code_challenge_method") != "S256" {
					t.Fatalf("VIOLATION C15: login request %s with nonce cookie %q", loc, cm.set)
				}
				h := sha256.Sum256([]byte(p.states[cm.set].CodeVerifier))
				if got := loc.Query().Get("code_challenge"); got != base64.RawURLEncoding.EncodeToString(h[:]) {
					t.Fatalf("VIOLATION C15: code challenge %q is not that of the verifier", got)
				}
				return cm.set
			}
			for _, state := range []string{"ok", "used", "twice", "old", "unknown", "empty"} {
				for _, cookie := range []string{"same", "other", "none"} {
					for _, nonce := range []string{"same", "other", "unknown", "none"} {
						for _, verified := range []any{true, false, nil} {
							for _, dom := range []string{"", "example.com", "evil.com", "x.example.com"} {
								for _, email := range []string{"a@example.com", ""} {
									if n++; n%3 != 0 && (state != "ok" || cookie != "same") {
										continue
									}
									s := login(fmt.Sprintf("https://a%d.example.com/path", n))
									o := login(fmt.Sprintf("https://b%d.example.com/path", n))
									verifier := p.states[s].CodeVerifier
									q := s
									switch state {
									case "used":
										p.states[s].Seen = true
									case "old":
										p.states[s].Created = time.Now().Add(-5*time.Minute - 2*time.Second)
									case "unknown":
										q = "abcdef"
									case "empty":
										q = ""
									}
									cm.cookie = map[string]string{"same": q, "other": o, "none": ""}[cookie]
									cm.got = nil
									mu.Lock()
									idToken = id
									answer = map[string]any{"sub": "S", "iss": "i"}
									if email != "" {
										answer["email"] = email
									}
									if verified != nil {
										answer["email_verified"] = verified
									}
									if dom != "" {
										answer["hd"] = dom
									}
									if nc := map[string]string{"same": s, "other": o, "unknown": "qq", "none": ""}[nonce]; nc != "" {
										answer["nonce"] = nc
									}
									form = nil
									mu.Unlock()
									call := func() *httptest.ResponseRecorder {
										w := httptest.NewRecorder()
										p.HandleCallback(w, httptest.NewRequest("GET", "https://login.example.com/cb?code=c1&state="+q, nil))
										return w
									}
									var w *httptest.ResponseRecorder
									if state == "twice" {
										var wg sync.WaitGroup
										for i := 0; i < 4; i++ {
											wg.Add(1)
											go func() { defer wg.Done(); call() }()
										}
										wg.Wait()
									} else {
										w = call()
									}
									want := (state == "ok" || state == "twice") && cookie == "same" && (nonce == "same" || nonce == "none") && verified != false && email != "" &&
										(hd == "" || hd == "*" && dom != "" || hd == dom)
									desc := fmt.Sprintf("hosted domain %q, ID token %v: state %s, browser %s, nonce %s, verified %v, hd %q, e-mail %q", hd, id, state, cookie, nonce, verified, dom, email)
									if !want {
										if len(cm.got) > 0 {
											t.Fatalf("VIOLATION C15: %s: session %q", desc, cm.got)
										}
									} else {
										if fmt.Sprint(cm.got) != fmt.Sprint([]any{email, fmt.Sprintf("a%d.example.com", n), "S"}) {
											t.Fatalf("VIOLATION C15: %s: session %q", desc, cm.got)
										}
										if form.Get("code") != "c1" || form.Get("code_verifier") != verifier || form.Get("redirect_uri") != "https://login.example.com/cb" {
											t.Fatalf("VIOLATION C15: %s: the code was redeemed with %v", desc, form)
										}
										if w != nil && (w.Code != http.StatusFound || w.Header().Get("Location") != fmt.Sprintf("https://a%d.example.com/path", n)) {
											t.Fatalf("VIOLATION C15: %s: redirected to %s", desc, w.Header().Get("Location"))
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

//verif:dir proxy/internal/cookiemanager

package cookiemanager

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
)

const vIss = "https://idp.example.com/"

func vNew(t *testing.T) (*CookieManager, *tokenmanager.TokenManager) {
	mk, err := crypto.CreateAESMasterKeyForTest()
	if err != nil {
		t.Fatal(err)
	}
	tm, err := tokenmanager.New(storage.New(t.TempDir(), mk), nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	return New(tm, "idp", "example.com", vIss), tm
}

func vClaims(over map[string]any) jwt.MapClaims {
	c := jwt.MapClaims{"iat": time.Now().Unix(), "exp": time.Now().Add(time.Hour).Unix(), "iss": vIss, "aud": vIss,
		"sub": "u1", "email": "u1@example.com", "proxyauth": vIss, "provider": "idp", "sid": "s1"}
	for k, v := range over {
		if v == nil {
			delete(c, k)
		} else {
			c[k] = v
		}
	}
	return c
}

func vReq(host, cookie, auth string) *http.Request {
	req := httptest.NewRequest("GET", "https://"+host+"/x", nil)
	if cookie != "" {
		req.Header.Set("Cookie", cookie)
	}
	if auth != "" {
		req.Header.Set("Authorization", auth)
	}
	return req
}

func TestVerifC10(t *testing.T) {
	cm, tm := vNew(t)
	_, other := vNew(t)
	mk := func(m *tokenmanager.TokenManager, c jwt.MapClaims) string {
		s, err := m.CreateToken(c, "")
		if err != nil {
			t.Fatal(err)
		}
		return s
	}
	bad := []map[string]any{
		{"iss": "https://x/"}, {"iss": nil}, {"iss": ""}, {"aud": "https://x/"}, {"aud": nil}, {"aud": "https://www.example.com/"},
		{"proxyauth": nil}, {"proxyauth": "x"}, {"proxyauth": ""}, {"proxyauth": true}, {"provider": nil}, {"provider": "x"}, {"provider": ""},
		{"sub": nil}, {"sub": ""}, {"exp": time.Now().Add(-time.Minute).Unix()},
		{"proxyauth": nil, "aud": "https://www.example.com/"}, {"aud": []string{"https://a/", "https://b/"}},
	}
	check := func(name, tok string, want bool) {
		got, err := cm.ValidateAuthTokenCookie(vReq("www.example.com", "a=b; TLSPROXYAUTH="+tok, ""))
		if (err == nil) != want || (err == nil) != (got != nil) {
			t.Errorf("session cookie %s: accepted=%v (%v), want %v", name, err == nil, err, want)
		}
	}
	check("good", mk(tm, vClaims(nil)), true)
	check("other key", mk(other, vClaims(nil)), false)
	for _, b := range bad {
		check(fmt.Sprint(b), mk(tm, vClaims(b)), false)
	}
	tok := mk(tm, vClaims(nil))
	for _, c := range []string{"", "TLSPROXYAUTH=", "tlsproxyauth=" + tok, "TLSPROXYIDTOKEN=" + tok, "TLSPROXYAUTH=" + tok[:len(tok)-6]} {
		if _, err := cm.ValidateAuthTokenCookie(vReq("www.example.com", c, "")); err == nil {
			t.Errorf("session cookie header %.20q accepted", c)
		}
	}
	idc := func(over map[string]any) jwt.MapClaims {
		c := vClaims(map[string]any{"proxyauth": nil, "aud": "https://www.example.com/"})
		for k, v := range over {
			if v == nil {
				delete(c, k)
			} else {
				c[k] = v
			}
		}
		return c
	}
	auth, err := cm.ValidateAuthTokenCookie(vReq("www.example.com", "TLSPROXYAUTH="+tok, ""))
	if err != nil {
		t.Fatal(err)
	}
	for _, tc := range []struct {
		over map[string]any
		host string
		want bool
	}{
		{nil, "www.example.com", true},
		{nil, "www.example.com:8443", true},
		{nil, "xn--mgba3gch31f060k.example.com", false},
		{nil, "example.com", false},
		{nil, "ww.example.com", false},
		{map[string]any{"aud": vIss}, "www.example.com", false},
		{map[string]any{"aud": nil}, "www.example.com", false},
		{map[string]any{"aud": []string{"https://z/", "https://www.example.com/"}}, "www.example.com", true},
		{map[string]any{"iss": "x"}, "www.example.com", false},
		{map[string]any{"iss": nil}, "www.example.com", false},
		{map[string]any{"sub": "u2"}, "www.example.com", false},
		{map[string]any{"sub": nil}, "www.example.com", false},
		{map[string]any{"sid": "s2"}, "www.example.com", false},
		{map[string]any{"sid": nil}, "www.example.com", false},
		{map[string]any{"exp": time.Now().Add(-time.Minute).Unix()}, "www.example.com", false},
	} {
		s := mk(tm, idc(tc.over))
		if err := cm.ValidateIDTokenCookie(vReq(tc.host, "TLSPROXYIDTOKEN="+s, ""), auth); (err == nil) != tc.want {
			t.Errorf("ID token cookie %v for %s: accepted=%v (%v), want %v", tc.over, tc.host, err == nil, err, tc.want)
		}
		if _, err := cm.ValidateAuthTokenCookie(vReq(tc.host, "TLSPROXYAUTH="+s, "")); err == nil {
			t.Errorf("ID token %v accepted as session cookie", tc.over)
		}
		if tc.over["sub"] != nil || tc.over["sid"] != nil {
			continue
		}
		if _, ok := tc.over["sub"]; ok {
			continue
		}
		if _, ok := tc.over["sid"]; ok {
			continue
		}
		for _, scheme := range []string{"Bearer ", "bearer ", "BEARER "} {
			if _, err := cm.ValidateAuthorizationHeader(vReq(tc.host, "", scheme+s)); (err == nil) != tc.want {
				t.Errorf("bearer %v for %s: accepted=%v (%v), want %v", tc.over, tc.host, err == nil, err, tc.want)
			}
		}
	}
	good := mk(tm, idc(nil))
	for _, h := range []string{"Basic " + good, good, "Bearer", "Bearer ", "Bearer" + good, "Bearer  x" + good,
		"Bearer " + mk(tm, idc(map[string]any{"proxyauth": vIss})), "Bearer " + mk(tm, idc(map[string]any{"proxyauth": ""})),
		"Bearer " + mk(tm, vClaims(nil)), "Bearer " + mk(other, idc(nil))} {
		if _, err := cm.ValidateAuthorizationHeader(vReq("www.example.com", "", h)); err == nil {
			t.Errorf("authorization header %.24q accepted", h)
		}
	}
}

func TestVerifC11(t *testing.T) {
	cm, tm := vNew(t)
	hh := sha256.Sum256([]byte("www.example.com"))
	want := map[string]any{"iss": vIss, "aud": vIss, "sub": "u1", "email": "e1@example.com", "proxyauth": vIss,
		"provider": "idp", "hhash": hex.EncodeToString(hh[:]), "sid": "s1"}
	extras := []map[string]any{nil, {}}
	for k := range want {
		extras = append(extras, map[string]any{k: "evil"}, map[string]any{k: "", "source": "x"}, map[string]any{k: []string{"evil"}}, map[string]any{k: nil})
	}
	extras = append(extras, map[string]any{"exp": int64(99999999999), "iat": int64(1), "source": "x", "name": "n"})
	n := len(extras)
	for i, ex := range append(extras, extras...) {
		want["sid"] = "s1"
		if i >= n {
			want["sid"] = ""
		}
		w := httptest.NewRecorder()
		if err := cm.SetAuthTokenCookie(w, "u1", "e1@example.com", want["sid"].(string), "www.example.com", ex); err != nil {
			t.Errorf("SetAuthTokenCookie(%v): %v", ex, err)
			continue
		}
		cs := w.Result().Cookies()
		if len(cs) != 1 {
			t.Fatalf("%d cookies", len(cs))
		}
		c := cs[0]
		if c.Name != "TLSPROXYAUTH" || !c.Secure || !c.HttpOnly || c.Domain != "example.com" || c.Path != "/" {
			t.Errorf("session cookie attributes: %v", strings.ReplaceAll(c.String(), c.Value, "..."))
		}
		tok, err := tm.ValidateToken(c.Value)
		if err != nil {
			t.Fatal(err)
		}
		cl := tok.Claims.(jwt.MapClaims)
		for k, v := range want {
			if cl[k] != v {
				t.Errorf("extra claims %v: %s = %v, want %v", ex, k, cl[k], v)
			}
		}
		if e, _ := cl.GetExpirationTime(); e == nil || time.Until(e.Time) > 21*time.Hour || time.Until(e.Time) < 19*time.Hour {
			t.Errorf("extra claims %v: exp = %v", ex, e)
		}
		if e, _ := cl.GetIssuedAt(); e == nil || time.Since(e.Time).Abs() > time.Minute {
			t.Errorf("extra claims %v: iat = %v", ex, e)
		}
		for _, host := range []string{"www.example.com", "www.example.com:123", "xn--strae-oqa.example.com"} {
			w := httptest.NewRecorder()
			if err := cm.SetIDTokenCookie(w, vReq(host, "", ""), tok); err != nil {
				t.Fatal(err)
			}
			c := w.Result().Cookies()[0]
			if c.Name != "TLSPROXYIDTOKEN" || !c.Secure || !c.HttpOnly || c.Domain != "" || c.Path != "/" {
				t.Errorf("ID token cookie attributes: %v", strings.ReplaceAll(c.String(), c.Value, "..."))
			}
			it, err := tm.ValidateToken(c.Value)
			if err != nil {
				t.Fatal(err)
			}
			ic := it.Claims.(jwt.MapClaims)
			if _, ok := ic["proxyauth"]; ok {
				t.Error("ID token has the purpose marker of a session token")
			}
			h, _, _ := strings.Cut(host, ":")
			aud, _ := ic.GetAudience()
			if len(aud) == 0 || aud[0] != "https://"+h+"/" || len(aud) > 1 && h == "www.example.com" {
				t.Errorf("ID token audience %v for %s", aud, host)
			}
			if ic["sub"] != "u1" || ic["sid"] != want["sid"] {
				t.Errorf("ID token sub %v sid %v", ic["sub"], ic["sid"])
			}
		}
	}
	for _, u := range [][2]string{{"", "e"}, {"u", ""}, {"", ""}} {
		w := httptest.NewRecorder()
		if err := cm.SetAuthTokenCookie(w, u[0], u[1], "s", "h", nil); err == nil || len(w.Result().Cookies()) > 0 {
			t.Errorf("session token issued for user %q email %q", u[0], u[1])
		}
	}
	w := httptest.NewRecorder()
	cm.SetNonce(w, "n1")
	if c := w.Result().Cookies()[0]; !c.Secure || !c.HttpOnly {
		t.Error("nonce cookie attributes")
	}
	for _, tc := range []struct {
		in    []string
		names []string
		want  string
	}{
		{[]string{"TLSPROXYAUTH=x"}, nil, ""},
		{[]string{"a=1; TLSPROXYAUTH=x; b=2"}, nil, "a=1; b=2"},
		{[]string{"TLSPROXYAUTH=x; TLSPROXYAUTH=y; b=2"}, nil, "b=2"},
		{[]string{"b=2; TLSPROXYAUTH=x; b=3; TLSPROXYAUTH=y"}, nil, "b=2; b=3"},
		{[]string{"a=1", "TLSPROXYAUTH=x", "b=2"}, nil, "a=1; b=2"},
		{[]string{"a=1; TLSPROXYIDTOKEN=z; TLSPROXYAUTH=x; b=2"}, []string{"TLSPROXYIDTOKEN"}, "a=1; b=2"},
		{[]string{"a=1; TLSPROXYIDTOKEN=z; TLSPROXYAUTH=x"}, nil, "a=1; TLSPROXYIDTOKEN=z"},
		{[]string{"TLSPROXYAUTH2=q; XTLSPROXYAUTH=r; tlsproxyauth=s"}, nil, "TLSPROXYAUTH2=q; XTLSPROXYAUTH=r; tlsproxyauth=s"},
		{[]string{"a=1"}, []string{"a", "c"}, ""},
		{nil, nil, ""},
	} {
		req := vReq("www.example.com", "", "Bearer z")
		for _, l := range tc.in {
			req.Header.Add("Cookie", l)
		}
		FilterOutAuthTokenCookie(req, tc.names...)
		if got := strings.Join(req.Header.Values("Cookie"), "; "); got != tc.want {
			t.Errorf("cookies %q without %q: %q, want %q", tc.in, tc.names, got, tc.want)
		}
		if req.Header.Get("Authorization") != "Bearer z" || req.Host != "www.example.com" {
			t.Error("other parts of the request changed")
		}
	}
}

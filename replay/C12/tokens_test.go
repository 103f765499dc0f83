//verif:dir proxy/internal/tokenmanager

package tokenmanager

import (
	"crypto/ed25519"
	"crypto/rand"
	"crypto/rsa"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"
)

func vNew(t *testing.T) *TokenManager {
	mk, err := crypto.CreateAESMasterKeyForTest()
	if err != nil {
		t.Fatal(err)
	}
	tm, err := New(storage.New(t.TempDir(), mk), nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	return tm
}

func TestVerifC12(t *testing.T) {
	tm, other := vNew(t), vNew(t)
	for _, target := range []string{"https://example.com/foo/bar", "https://xn--strae-oqa.example.com:8443/a%2fb?x=1#f", "https://example.com/?redirect=https://evil/"} {
		for _, extra := range []map[string]any{nil, {"email": "a@b"}, {"url": "https://evil.example.com/", "sid": "evil"}} {
			for _, sid := range []string{"", "s1"} {
				u, _ := url.Parse(target)
				u0 := *u
				req := httptest.NewRequest("GET", "https://example.com/x", nil)
				if sid != "" {
					req.Header.Set("Cookie", "TLSPROXYSID="+sid)
				}
				w := httptest.NewRecorder()
				tok, _, err := tm.URLToken(w, req, u, extra)
				if err != nil {
					t.Fatal(err)
				}
				if *u != u0 {
					t.Errorf("URLToken(%s) changed the URL to %s", target, u)
				}
				c := w.Result().Cookies()
				if len(c) != 1 || !c[0].Secure || !c[0].HttpOnly || c[0].Name != "TLSPROXYSID" || sid != "" && c[0].Value != sid || c[0].Value == "" {
					t.Errorf("session cookie %v for session %q", c, sid)
					continue
				}
				try := func(cookie, token string, want bool) {
					req := httptest.NewRequest("GET", "https://example.com/y?url=https://evil/", nil)
					if cookie != "" {
						req.Header.Set("Cookie", cookie)
					}
					got, _, err := tm.ValidateURLToken(httptest.NewRecorder(), req, token)
					if (err == nil) != want {
						t.Errorf("session %q extra %v: token with cookie %q: accepted=%v, want %v", sid, extra, cookie, err == nil, want)
					}
					if err == nil && got.String() != target {
						t.Errorf("redirect to %s, signed for %s", got, target)
					}
				}
				try("TLSPROXYSID="+c[0].Value, tok, true)
				try("a=b; TLSPROXYSID="+c[0].Value, tok, true)
				try("", tok, false)
				try("TLSPROXYSID=", tok, false)
				try("TLSPROXYSID=x", tok, false)
				try("TLSPROXYSID=evil", tok, false)
				try("TLSPROXYSID="+c[0].Value+"x", tok, false)
				try("TLSPROXYSID="+c[0].Value[1:], tok, false)
				try("TLSPROXYSID="+strings.ToUpper(c[0].Value)+"_", tok, false)
				try("TLSPROXYSID="+c[0].Value, tok[:len(tok)-8], false)
				forged, _ := other.CreateToken(jwt.MapClaims{"url": target, "sid": c[0].Value}, "")
				try("TLSPROXYSID="+c[0].Value, forged, false)
			}
		}
	}
	for _, cl := range []jwt.MapClaims{{"sid": "s1"}, {"sid": "s1", "url": 3}, {"url": "https://example.com/"}, {"url": "https://example.com/", "sid": nil}, {"url": "https://example.com/", "sid": ""}} {
		tok, _ := tm.CreateToken(cl, "")
		for _, c := range []string{"", "TLSPROXYSID=s1", "TLSPROXYSID=x"} {
			req := httptest.NewRequest("GET", "https://example.com/y", nil)
			if c != "" {
				req.Header.Set("Cookie", c)
			}
			if u, _, err := tm.ValidateURLToken(httptest.NewRecorder(), req, tok); err == nil {
				t.Errorf("claims %v cookie %q accepted: %v", cl, c, u)
			}
		}
	}
}

func TestVerifC13(t *testing.T) {
	tm, other := vNew(t), vNew(t)
	claims := jwt.MapClaims{"sub": "x", "iss": "i", "aud": "a", "exp": time.Now().Add(time.Hour).Unix()}
	try := func(name, tok string, want bool, opts ...jwt.ParserOption) {
		got, err := tm.ValidateToken(tok, opts...)
		if (err == nil) != want || err == nil && !got.Valid {
			t.Errorf("%s: accepted=%v (%v), want %v", name, err == nil, err, want)
		}
	}
	for _, alg := range []string{"", "ES256", "RS256", "EdDSA"} {
		s, err := tm.CreateToken(claims, alg)
		if err != nil {
			t.Fatalf("CreateToken(%q): %v", alg, err)
		}
		try("own "+alg, s, true)
		try("own, issuer "+alg, s, true, jwt.WithIssuer("i"), jwt.WithAudience("a"))
		try("own, wrong issuer "+alg, s, false, jwt.WithIssuer("j"))
		try("own, wrong audience "+alg, s, false, jwt.WithAudience("j"))
		try("all methods requested "+alg, s, true, jwt.WithValidMethods([]string{"HS256", "none"}))
		i := strings.LastIndex(s, ".")
		try("no signature "+alg, s[:i+1], false)
		f, _ := other.CreateToken(claims, alg)
		try("other proxy "+alg, f, false)
	}
	_, evilEd, _ := ed25519.GenerateKey(rand.Reader)
	evilRSA, _ := rsa.GenerateKey(rand.Reader, 2048)
	kids := []any{nil, "", "nope", 1, []string{tm.keys.Keys[0].ID}}
	for _, k := range tm.keys.Keys {
		kids = append(kids, k.ID, strings.ToUpper(k.ID)+" ", k.ID[:8], k.ID+"0")
	}
	sign := func(m jwt.SigningMethod, kid any, key any) string {
		tok := jwt.NewWithClaims(m, claims)
		if kid != nil {
			tok.Header["kid"] = kid
		}
		s, err := tok.SignedString(key)
		if err != nil {
			return ""
		}
		return s
	}
	for _, kid := range kids {
		try("none", sign(jwt.SigningMethodNone, kid, jwt.UnsafeAllowNoneSignatureType), false)
		try("evil ed", sign(jwt.SigningMethodEdDSA, kid, evilEd), false)
		try("evil rs", sign(jwt.SigningMethodRS256, kid, evilRSA), false)
		for _, k := range tm.keys.Keys {
			if pub, ok := k.privKey.Public().(ed25519.PublicKey); ok {
				try("hmac with public key", sign(jwt.SigningMethodHS256, kid, []byte(pub)), false)
				try("own ed key", sign(jwt.SigningMethodEdDSA, kid, k.privKey), kid == any(k.ID))
			}
			if pk, ok := k.privKey.(*rsa.PrivateKey); ok {
				try("own rsa key", sign(jwt.SigningMethodRS256, kid, pk), kid == any(k.ID))
				for _, m := range []jwt.SigningMethod{jwt.SigningMethodRS384, jwt.SigningMethodRS512, jwt.SigningMethodPS256} {
					try("own rsa key "+m.Alg(), sign(m, kid, pk), false)
				}
			}
		}
	}
}

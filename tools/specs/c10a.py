id='C10-idtoken-session'
prop='C10'
pkg='proxy/internal/cookiemanager'
edits=[('proxy/internal/cookiemanager/cookiemanager.go', 'c2["sub"] != c["sub"] || c2["sid"] != c["sid"] {', '(c2["sub"] != c["sub"] && c2["sid"] != c["sid"]) {')]
demo='\npackage cookiemanager\n\nimport (\n\t"net/http/httptest"\n\t"testing"\n\t"time"\n\n\t"github.com/c2FmZQ/storage"\n\t"github.com/c2FmZQ/storage/crypto"\n\tjwt "github.com/golang-jwt/jwt/v5"\n\n\t"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"\n)\n\nfunc newCM(t *testing.T) (*CookieManager, *tokenmanager.TokenManager) {\n\tmk, err := crypto.CreateAESMasterKeyForTest()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ttm, err := tokenmanager.New(storage.New(t.TempDir(), mk), nil, nil)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn New(tm, "idp", "example.com", "https://idp.example.com/"), tm\n}\n\nvar _ = time.Now\nvar _ jwt.MapClaims\nvar _ = httptest.NewRecorder\n\nfunc TestDemo(t *testing.T) {\n\tcm, tm := newCM(t)\n\texp := time.Now().Add(time.Hour).Unix()\n\tid, _ := tm.CreateToken(jwt.MapClaims{"iss": cm.issuer, "aud": "https://a.example.com/", "exp": exp, "sub": "alice", "sid": "s1"}, "ES256")\n\treq := httptest.NewRequest("GET", "https://a.example.com/", nil)\n\treq.Header.Set("Cookie", "TLSPROXYIDTOKEN="+id)\n\tok := func(sub, sid string) bool {\n\t\treturn cm.ValidateIDTokenCookie(req, &jwt.Token{Claims: jwt.MapClaims{"sub": sub, "sid": sid}}) == nil\n\t}\n\tif !ok("alice", "s1") {\n\t\tt.Error("own ID token refused")\n\t}\n\tif ok("alice", "s2") {\n\t\tt.Error("ID token of another session accepted")\n\t}\n\tif ok("bob", "s1") {\n\t\tt.Error("ID token of another user accepted")\n\t}\n}\n'
needs='an ID-token cookie of the same user from an earlier session'
breaks='an ID token of another session of the user is accepted as the one of this session'

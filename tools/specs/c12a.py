id='C12-missing-sid'
prop='C12'
pkg='proxy/internal/tokenmanager'
edits=[('proxy/internal/tokenmanager/urltoken.go', 'if sid := sessionID(w, req); sid != c["sid"] {', 'if sid, ok := c["sid"].(string); ok && sid != sessionID(w, req) {')]
demo='\npackage tokenmanager\n\nimport (\n\t"net/http/httptest"\n\t"testing"\n\n\t"github.com/c2FmZQ/storage"\n\t"github.com/c2FmZQ/storage/crypto"\n\tjwt "github.com/golang-jwt/jwt/v5"\n)\n\nfunc newTM(t *testing.T) *TokenManager {\n\tmk, err := crypto.CreateAESMasterKeyForTest()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ttm, err := New(storage.New(t.TempDir(), mk), nil, nil)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn tm\n}\n\nvar _ jwt.MapClaims\nvar _ = httptest.NewRecorder\n\nfunc TestDemo(t *testing.T) {\n\ttm := newTM(t)\n\ttok, _ := tm.CreateToken(jwt.MapClaims{"url": "https://example.com/"}, "")\n\treq := httptest.NewRequest("GET", "https://example.com/", nil)\n\treq.Header.Set("Cookie", "TLSPROXYSID=s1")\n\tif _, _, err := tm.ValidateURLToken(httptest.NewRecorder(), req, tok); err == nil {\n\t\tt.Error("token without session accepted")\n\t}\n\tw := httptest.NewRecorder()\n\ttok, _, _ = tm.URLToken(w, req, req.URL, nil)\n\tif _, _, err := tm.ValidateURLToken(w, req, tok); err != nil {\n\t\tt.Error(err)\n\t}\n}\n'
needs='a signed token that has a url claim and no session claim'
breaks='a token that is not tied to a session is accepted for redirects'

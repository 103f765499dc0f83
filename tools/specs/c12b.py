id='C12-extra-session'
prop='C12'
pkg='proxy/internal/tokenmanager'
edits=[('proxy/internal/tokenmanager/urltoken.go', '\tclaims := make(jwt.MapClaims)\n\tfor k, v := range extra {\n\t\tclaims[k] = v\n\t}\n\tclaims["url"] = u.String()\n\tclaims["sid"] = sid\n', '\tclaims := jwt.MapClaims{"sid": sid}\n\tfor k, v := range extra {\n\t\tclaims[k] = v\n\t}\n\tclaims["url"] = u.String()\n')]
demo='\npackage tokenmanager\n\nimport (\n\t"net/http/httptest"\n\t"testing"\n\n\t"github.com/c2FmZQ/storage"\n\t"github.com/c2FmZQ/storage/crypto"\n\tjwt "github.com/golang-jwt/jwt/v5"\n)\n\nfunc newTM(t *testing.T) *TokenManager {\n\tmk, err := crypto.CreateAESMasterKeyForTest()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ttm, err := New(storage.New(t.TempDir(), mk), nil, nil)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn tm\n}\n\nvar _ jwt.MapClaims\nvar _ = httptest.NewRecorder\n\nfunc TestDemo(t *testing.T) {\n\ttm := newTM(t)\n\treq := httptest.NewRequest("GET", "https://example.com/", nil)\n\treq.Header.Set("Cookie", "TLSPROXYSID=s1")\n\ttok, _, _ := tm.URLToken(httptest.NewRecorder(), req, req.URL, map[string]any{"sid": "other", "email": "x"})\n\tif _, _, err := tm.ValidateURLToken(httptest.NewRecorder(), req, tok); err != nil {\n\t\tt.Error("token refused in its own session:", err)\n\t}\n\treq.Header.Set("Cookie", "TLSPROXYSID=other")\n\tif _, _, err := tm.ValidateURLToken(httptest.NewRecorder(), req, tok); err == nil {\n\t\tt.Error("token accepted in another session")\n\t}\n}\n'
needs='extra claims that include a session claim'
breaks='the redirect token is tied to a session other than that of the request'

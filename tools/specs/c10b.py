id='C10-provider-missing'
prop='C10'
pkg='proxy/internal/cookiemanager'
edits=[('proxy/internal/cookiemanager/cookiemanager.go', '\tif c, ok := tok.Claims.(jwt.MapClaims); !ok || c["proxyauth"] != cm.issuer || c["provider"] != cm.provider {\n\t\treturn nil, errors.New("invalid proxyauth or provider")\n\t}\n', '\tc, ok := tok.Claims.(jwt.MapClaims)\n\tif !ok || c["proxyauth"] != cm.issuer {\n\t\treturn nil, errors.New("invalid proxyauth")\n\t}\n\tif p, ok := c["provider"].(string); ok && p != "" && p != cm.provider {\n\t\treturn nil, errors.New("invalid provider")\n\t}\n')]
demo='\npackage cookiemanager\n\nimport (\n\t"net/http/httptest"\n\t"testing"\n\t"time"\n\n\t"github.com/c2FmZQ/storage"\n\t"github.com/c2FmZQ/storage/crypto"\n\tjwt "github.com/golang-jwt/jwt/v5"\n\n\t"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"\n)\n\nfunc newCM(t *testing.T) (*CookieManager, *tokenmanager.TokenManager) {\n\tmk, err := crypto.CreateAESMasterKeyForTest()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ttm, err := tokenmanager.New(storage.New(t.TempDir(), mk), nil, nil)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn New(tm, "idp", "example.com", "https://idp.example.com/"), tm\n}\n\nvar _ = time.Now\nvar _ jwt.MapClaims\nvar _ = httptest.NewRecorder\n\nfunc TestDemo(t *testing.T) {\n\t_, tm := newCM(t)\n\ta, b := New(tm, "", "example.com", "https://idp.example.com/"), New(tm, "idp", "example.com", "https://idp.example.com/")\n\tw := httptest.NewRecorder()\n\tif err := a.SetAuthTokenCookie(w, "u", "u@example.com", "s", "a.example.com", nil); err != nil {\n\t\tt.Fatal(err)\n\t}\n\treq := httptest.NewRequest("GET", "https://a.example.com/", nil)\n\treq.AddCookie(w.Result().Cookies()[0])\n\tif _, err := a.ValidateAuthTokenCookie(req); err != nil {\n\t\tt.Error("own session refused", err)\n\t}\n\tif _, err := b.ValidateAuthTokenCookie(req); err == nil {\n\t\tt.Error("session of an unnamed provider accepted")\n\t}\n}\n'
needs='a session token without a provider name (unnamed provider) presented to a backend of another provider'
breaks='sessions of another identity provider are accepted'

id='C11-empty-session'
prop='C11'
pkg='proxy/internal/cookiemanager'
edits=[('proxy/internal/cookiemanager/cookiemanager.go', 'if _, exists := claims[k]; exists {', 'if cur, exists := claims[k]; exists && cur != "" {')]
demo='\npackage cookiemanager\n\nimport (\n\t"net/http/httptest"\n\t"testing"\n\t"time"\n\n\t"github.com/c2FmZQ/storage"\n\t"github.com/c2FmZQ/storage/crypto"\n\tjwt "github.com/golang-jwt/jwt/v5"\n\n\t"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"\n)\n\nfunc newCM(t *testing.T) (*CookieManager, *tokenmanager.TokenManager) {\n\tmk, err := crypto.CreateAESMasterKeyForTest()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ttm, err := tokenmanager.New(storage.New(t.TempDir(), mk), nil, nil)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn New(tm, "idp", "example.com", "https://idp.example.com/"), tm\n}\n\nvar _ = time.Now\nvar _ jwt.MapClaims\nvar _ = httptest.NewRecorder\n\nfunc TestDemo(t *testing.T) {\n\tcm, tm := newCM(t)\n\tw := httptest.NewRecorder()\n\tif err := cm.SetAuthTokenCookie(w, "u", "u@example.com", "", "a.example.com", map[string]any{"sid": "chosen", "name": "n", "email": "x"}); err != nil {\n\t\tt.Fatal(err)\n\t}\n\ttok, err := tm.ValidateToken(w.Result().Cookies()[0].Value)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tc := tok.Claims.(jwt.MapClaims)\n\tif c["sid"] != "" || c["email"] != "u@example.com" || c["name"] != "n" {\n\t\tt.Error("claims", c)\n\t}\n}\n'
needs='a login with an empty session id (SAML without session index) and a provider-supplied sid claim'
breaks='an extra claim of the identity provider replaces a reserved claim'

id='C11-filter-names'
prop='C11'
pkg='proxy/internal/cookiemanager'
edits=[('proxy/internal/cookiemanager/cookiemanager.go', '\tfor _, c := range cookies {\n\t\tif c.Name != tlsProxyAuthCookie && !slices.Contains(names, c.Name) {\n\t\t\treq.AddCookie(c)\n\t\t}\n\t}', '\tseen := make(map[string]bool)\n\tfor _, c := range cookies {\n\t\tif c.Name != tlsProxyAuthCookie && !slices.Contains(names, c.Name) && !seen[c.Name] {\n\t\t\tseen[c.Name] = true\n\t\t\treq.AddCookie(c)\n\t\t}\n\t}')]
demo='\npackage cookiemanager\n\nimport (\n\t"net/http/httptest"\n\t"testing"\n\t"time"\n\n\t"github.com/c2FmZQ/storage"\n\t"github.com/c2FmZQ/storage/crypto"\n\tjwt "github.com/golang-jwt/jwt/v5"\n\n\t"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"\n)\n\nfunc newCM(t *testing.T) (*CookieManager, *tokenmanager.TokenManager) {\n\tmk, err := crypto.CreateAESMasterKeyForTest()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ttm, err := tokenmanager.New(storage.New(t.TempDir(), mk), nil, nil)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn New(tm, "idp", "example.com", "https://idp.example.com/"), tm\n}\n\nvar _ = time.Now\nvar _ jwt.MapClaims\nvar _ = httptest.NewRecorder\n\nfunc TestDemo(t *testing.T) {\n\treq := httptest.NewRequest("GET", "https://a.example.com/", nil)\n\treq.Header.Set("Cookie", "a=1; TLSPROXYAUTH=x; b=2; a=3")\n\tFilterOutAuthTokenCookie(req)\n\tif got := req.Header.Get("Cookie"); got != "a=1; b=2; a=3" {\n\t\tt.Errorf("Cookie: %q", got)\n\t}\n}\n'
needs='a request with two cookies of the same name'
breaks='other cookies are lost when the session cookie is removed'

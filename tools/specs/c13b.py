id='C13-methods-override'
prop='C13'
pkg='proxy/internal/tokenmanager'
edits=[('proxy/internal/tokenmanager/tokenmanager.go', '\topts = append(opts, jwt.WithValidMethods([]string{"ES256", "RS256", "EdDSA"}))\n', '\tif len(opts) == 0 {\n\t\topts = append(opts, jwt.WithValidMethods([]string{"ES256", "RS256", "EdDSA"}))\n\t}\n')]
demo='\npackage tokenmanager\n\nimport (\n\t"net/http/httptest"\n\t"testing"\n\n\t"github.com/c2FmZQ/storage"\n\t"github.com/c2FmZQ/storage/crypto"\n\tjwt "github.com/golang-jwt/jwt/v5"\n)\n\nfunc newTM(t *testing.T) *TokenManager {\n\tmk, err := crypto.CreateAESMasterKeyForTest()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ttm, err := New(storage.New(t.TempDir(), mk), nil, nil)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn tm\n}\n\nvar _ jwt.MapClaims\nvar _ = httptest.NewRecorder\n\nfunc TestDemo(t *testing.T) {\n\ttm := newTM(t)\n\tfor _, k := range tm.keys.Keys {\n\t\tfor _, m := range []jwt.SigningMethod{jwt.SigningMethodRS384, jwt.SigningMethodPS512} {\n\t\t\ttok := jwt.NewWithClaims(m, jwt.MapClaims{"iss": "i"})\n\t\t\ttok.Header["kid"] = k.ID\n\t\t\ts, err := tok.SignedString(k.privKey)\n\t\t\tif err != nil {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tif _, err := tm.ValidateToken(s, jwt.WithIssuer("i")); err == nil {\n\t\t\t\tt.Errorf("%s token accepted", m.Alg())\n\t\t\t}\n\t\t}\n\t}\n}\n'
needs='validation with options (issuer, audience) of a token with another algorithm of the same key type'
breaks='algorithms that are not whitelisted are accepted'

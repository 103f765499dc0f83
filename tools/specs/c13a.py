id='C13-kid-prefix'
prop='C13'
pkg='proxy/internal/tokenmanager'
edits=[('proxy/internal/tokenmanager/tokenmanager.go', '\t\tif tk.ID == tok.Header["kid"] {\n\t\t\treturn', '\t\tif kid, _ := tok.Header["kid"].(string); strings.HasPrefix(tk.ID, kid) {\n\t\t\treturn'), ('proxy/internal/tokenmanager/tokenmanager.go', '\t"slices"\n', '\t"slices"\n\t"strings"\n')]
demo='\npackage tokenmanager\n\nimport (\n\t"net/http/httptest"\n\t"testing"\n\n\t"github.com/c2FmZQ/storage"\n\t"github.com/c2FmZQ/storage/crypto"\n\tjwt "github.com/golang-jwt/jwt/v5"\n)\n\nfunc newTM(t *testing.T) *TokenManager {\n\tmk, err := crypto.CreateAESMasterKeyForTest()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ttm, err := New(storage.New(t.TempDir(), mk), nil, nil)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn tm\n}\n\nvar _ jwt.MapClaims\nvar _ = httptest.NewRecorder\n\nfunc TestDemo(t *testing.T) {\n\ttm := newTM(t)\n\tk := tm.keys.Keys[0]\n\tfor kid, want := range map[any]bool{any(k.ID): true, any(k.ID[:6]): false, any(""): false} {\n\t\ttok := jwt.NewWithClaims(jwt.SigningMethodES256, jwt.MapClaims{"sub": "x"})\n\t\ttok.Header["kid"] = kid\n\t\ts, err := tok.SignedString(k.privKey)\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tif _, err := tm.ValidateToken(s); (err == nil) != want {\n\t\t\tt.Errorf("key id %q: accepted=%v, want %v", kid, err == nil, want)\n\t\t}\n\t}\n}\n'
needs='a token with a missing or shortened key id'
breaks='unknown key ids are accepted'

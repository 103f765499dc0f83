exec(open('/verif/tools/specs/httpbase.py').read())
id='C01-reauth-host'; prop='C01'; pkg='proxy'
edits=[('proxy/backend-sso.go','''	if claims == nil || (be.SSO.ForceReAuth != 0 && (claims["hhash"] != hex.EncodeToString(hh[:]) || time.Since(iat) > be.SSO.ForceReAuth)) {''','''	stale := func() bool {
		if be.SSO.ForceReAuth == 0 {
			return false
		}
		if h, ok := claims["hhash"].(string); ok && h != hex.EncodeToString(hh[:]) {
			return true
		}
		return time.Since(iat) > be.SSO.ForceReAuth
	}
	if claims == nil || stale() {''')]
demo=pre+keep+'''
// With forced re-authentication, an identity that was not issued for this host is not enough.
func TestDemo(t *testing.T) {
	be := &Backend{SSO: &BackendSSO{ForceReAuth: time.Hour}, Addresses: []string{"x"}}
	h := vNewHTTP(t, be, true)
	for _, m := range []map[string]any{{"hhash": nil}, {"hhash": 1}, {"hhash": vHhash("b.example.com")}} {
		if _, _, seen, _ := h.get("/", "a.example.com", "Cookie: TLSPROXYAUTH="+h.token(m)+"\\r\\n"); len(seen) > 0 {
			t.Errorf("token with hhash %v was accepted", m["hhash"])
		}
	}
	if _, _, seen, _ := h.get("/", "a.example.com", "Cookie: TLSPROXYAUTH="+h.token(nil)+"\\r\\n"); len(seen) != 1 {
		t.Errorf("good token was not accepted")
	}
}
'''
needs='an authentication token with no host hash (or one that is not a string), on a backend with forced re-authentication'
breaks='an identity that was not issued for this host passes forced re-authentication'

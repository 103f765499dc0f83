exec(open('/verif/tools/specs/httpbase.py').read())
id='C01-raw-path'; prop='C01'; pkg='proxy'
edits=[('proxy/backend-sso.go','''		if strings.HasPrefix(path, p) || strings.HasPrefix(cleanPath, p) {''','''		if strings.HasPrefix(cleanPath, p) {''')]
demo=pre+keep+'''
func TestDemo(t *testing.T) {
	no := false
	be := &Backend{SSO: &BackendSSO{Paths: []string{"/private/"}}, Addresses: []string{"x"}, SanitizePath: &no}
	h := vNewHTTP(t, be, true)
	for _, p := range []string{"/private/", "/private/x", "/x/../private/y", "/private/../x"} {
		if _, _, seen, _ := h.get(p, "a.example.com", ""); len(seen) > 0 {
			t.Errorf("GET %s without credentials was forwarded as %s", p, seen[0].URI)
		}
	}
}
'''
needs='a path that is under a protected prefix as sent but not after cleaning (/private/../x), e.g. with path sanitising off'
breaks='a request for a path under a protected prefix, as sent, is forwarded without authentication'

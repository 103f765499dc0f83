exec(open('/verif/tools/specs/httpbase.py').read())
id='C01-callback'; prop='C01'; pkg='proxy'
edits=[('proxy/backend-http.go','''		if !be.localHandlers[hi].ssoBypass && !be.enforceSSOPolicy(w, req) {
			return false
		}
''','''		if lh := be.localHandlers[hi]; !lh.ssoBypass && (!lh.isCallback || lh.path == cleanPath) && !be.enforceSSOPolicy(w, req) {
			return false
		}
''')]
demo=pre+keep+'''
func TestDemo(t *testing.T) {
	be := &Backend{SSO: &BackendSSO{}, Addresses: []string{"x"}, localHandlers: []localHandler{
		{path: "/cb", matchPrefix: true, isCallback: true, handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, "LOCAL ", r.URL.Path) })},
	}}
	h := vNewHTTP(t, be, true)
	for _, p := range []string{"/cb", "/cb/x"} {
		if code, body, _, _ := h.get(p, "a.example.com", ""); strings.HasPrefix(body, "LOCAL") {
			t.Errorf("GET %s without credentials: %d %q", p, code, body)
		}
	}
}
'''
needs='a request for a path below a prefix-matching callback endpoint that is not exempt from SSO'
breaks='a local endpoint that is not exempt from SSO answers without authentication'

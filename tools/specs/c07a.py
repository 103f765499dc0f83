exec(open('/verif/tools/specs/httpbase.py').read())
id='C07-userid-nosso'; prop='C07'; pkg='proxy'
edits=[('proxy/backend-sso.go','''	(*req).Header.Del(xTLSProxyUserIDHeader)
	if be.SSO != nil {
		claims,''','''	if be.SSO != nil {
		if be.SSO.SetUserIDHeader {
			(*req).Header.Del(xTLSProxyUserIDHeader)
		}
		claims,''')]
demo=pre+keep+'''
func TestDemo(t *testing.T) {
	for _, sso := range []*BackendSSO{nil, {Paths: []string{"/private/"}}, {Paths: []string{"/private/"}, SetUserIDHeader: true}} {
		h := vNewHTTP(t, &Backend{SSO: sso, Addresses: []string{"x"}}, true)
		_, _, seen, _ := h.get("/", "a.example.com", "X-Tlsproxy-User-Id: eve@evil.com\\r\\n")
		if len(seen) != 1 || seen[0].Header.Get("X-Tlsproxy-User-Id") != "" {
			t.Errorf("SSO %+v: backend server sees %v", sso, seen)
		}
	}
}
'''
needs='a client that sends the user-identity header to a backend that does not set it'
breaks='a client-supplied user identity reaches the backend server'

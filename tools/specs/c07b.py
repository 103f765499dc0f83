exec(open('/verif/tools/specs/httpbase.py').read())
id='C07-xfcc-plain'; prop='C07'; pkg='proxy'
edits=[('proxy/backend-http.go','''	req.Header.Del(xFCCHeader)
	if req.TLS != nil &&''','''	if req.TLS != nil && len(req.TLS.PeerCertificates) > 0 {
		req.Header.Del(xFCCHeader)
	}
	if req.TLS != nil &&''')]
demo=pre+keep+'''
func TestDemo(t *testing.T) {
	for _, peer := range [][]*x509.Certificate{nil, {{Raw: []byte{1}}}} {
		h := vNewHTTP(t, &Backend{Addresses: []string{"x"}, ClientAuth: &ClientAuth{AddClientCertHeader: []string{"hash"}}}, true)
		h.peer = peer
		_, _, seen, _ := h.get("/", "a.example.com", "X-Forwarded-Client-Cert: Hash=00;Subject=evil\\r\\n")
		if len(seen) != 1 || strings.Contains(seen[0].Header.Get("X-Forwarded-Client-Cert"), "evil") {
			t.Errorf("peer %v: backend server sees %v", peer, seen)
		}
	}
}
'''
needs='a client without a certificate (e.g. on a backend where it is optional) that sends X-Forwarded-Client-Cert'
breaks='a client-supplied client-certificate header reaches the backend server'

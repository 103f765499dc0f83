exec(open('/verif/tools/specs/httpbase.py').read())
id='C05-static-host'; prop='C05'; pkg='proxy'
edits=[('proxy/backend-http.go','''		if !slices.Contains(be.ServerNames, req.URL.Hostname()) {''','''		if len(be.Addresses) > 0 && !slices.Contains(be.ServerNames, req.URL.Hostname()) {''')]
demo=pre+keep+'''
func TestDemo(t *testing.T) {
	root := t.TempDir()
	os.WriteFile(filepath.Join(root, "f"), []byte("STATIC"), 0o600)
	be := &Backend{DocumentRoot: root, PathOverrides: []*PathOverride{{Paths: []string{"/pa/"}, Addresses: []string{"x"}}}}
	h := vNewHTTP(t, be, true)
	for _, p := range []string{"/f", "/pa/x"} {
		code, body, seen, _ := h.get(p, "b.example.com", "")
		if body == "STATIC" || len(seen) > 0 || code != 421 {
			t.Errorf("GET %s for b.example.com: %d %q %v", p, code, body, seen)
		}
	}
}
'''
needs='a backend with no default address: a document root, or only path overrides with addresses'
breaks='requests for another host name are served from the document root or forwarded by a path override'

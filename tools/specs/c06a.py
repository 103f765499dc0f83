exec(open('/verif/tools/specs/httpbase.py').read())
id='C06-hidden-leaf'; prop='C06'; pkg='proxy'
edits=[('proxy/backend-http.go','''	for _, pp := range strings.Split(p, "/") {
		if strings.HasPrefix(pp, ".") || strings.Contains(pp, `\\\\`) {
			notFound()
			return
		}
	}
'''.replace('\\\\','\\'),'''	dir, name := "", p
	if i := strings.LastIndex(p, "/"); i >= 0 {
		dir, name = p[:i], p[i+1:]
	}
	if strings.HasPrefix(dir, ".") || strings.Contains(dir, "/.") || strings.HasPrefix(name, "..") || strings.HasPrefix(name, ".ht") || strings.Contains(p, `\\\\`) {
		notFound()
		return
	}
'''.replace('\\\\','\\'))]
demo=pre+keep+'''
func TestDemo(t *testing.T) {
	root := t.TempDir()
	os.MkdirAll(filepath.Join(root, "sub"), 0o700)
	for _, f := range []string{"ok", ".env", "sub/.env", ".htaccess"} {
		os.WriteFile(filepath.Join(root, f), []byte("FILE"), 0o600)
	}
	h := vNewHTTP(t, &Backend{DocumentRoot: root}, true)
	for _, p := range []string{"/.env", "/sub/.env", "/.htaccess", "/%2eenv"} {
		if _, body, _, _ := h.get(p, "a.example.com", ""); body == "FILE" {
			t.Errorf("GET %s: hidden file was served", p)
		}
	}
}
'''
needs='a request for a hidden file (not one that starts with .ht) by its last path element'
breaks='hidden files such as .env are served'

exec(open('/verif/tools/specs/httpbase.py').read())
id='C06-special-file'; prop='C06'; pkg='proxy'
edits=[('proxy/backend-http.go','''	if fi, err := f.Stat(); err != nil || !fi.Mode().IsRegular() {''','''	if fi, err := f.Stat(); err != nil || fi.IsDir() || fi.Mode()&os.ModeSocket != 0 {''')]
demo=pre+keep+'''
func TestDemo(t *testing.T) {
	root := t.TempDir()
	os.Symlink("/dev/full", filepath.Join(root, "dev"))
	os.WriteFile(filepath.Join(root, "ok"), []byte("FILE"), 0o600)
	h := vNewHTTP(t, &Backend{DocumentRoot: root}, true)
	if code, _, _, _ := h.get("/dev", "a.example.com", ""); code != 403 {
		t.Errorf("GET /dev (a device): status %d", code)
	}
}
'''
needs='a device or pipe under the document root'
breaks='files that are not regular are served'

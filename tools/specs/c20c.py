exec(open('/verif/tools/specs/c20base.py').read())
id='C20-method-override'
edits=[('proxy/internal/sshca/sshca.go','''	if req.Method != http.MethodPost {
''','''	method := req.Method
	if method != http.MethodGet && req.Header.Get("x-http-method-override") != "" {
		method = req.Header.Get("x-http-method-override")
	}
	if method != http.MethodPost {
''')]
needs='a request with a method override header'
breaks='certificates are issued for requests that are not POST requests'

exec(open('/verif/tools/specs/c20base.py').read())
id='C20-all-keys'
edits=[('proxy/internal/sshca/sshca.go','''	pub, _, _, _, err := ssh.ParseAuthorizedKey(body)
	if err != nil {
''','''	// The last key is the most recent one.
	pub, _, _, rest, err := ssh.ParseAuthorizedKey(body)
	for err == nil && len(rest) > 0 {
		next, _, _, r, e := ssh.ParseAuthorizedKey(rest)
		if e != nil {
			break
		}
		pub, rest = next, r
	}
	if err != nil {
''')]
demo=demo
needs='a request body with several keys'
breaks='the certificate is for a key other than the one that is presented'

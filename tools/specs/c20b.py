exec(open('/verif/tools/specs/c20base.py').read())
id='C20-name-principal'
edits=[('proxy/internal/sshca/sshca.go','''	now := time.Now().UTC()
	cert :=''','''	principals := []string{email}
	if claims := ca.opts.ClaimsFromCtx(req.Context()); claims != nil {
		if name, ok := claims["preferred_username"].(string); ok && name != "" {
			principals = append(principals, name)
		}
	}
	now := time.Now().UTC()
	cert :='''),('proxy/internal/sshca/sshca.go','''		ValidPrincipals: []string{email},
''','''		ValidPrincipals: principals,
''')]
needs='an identity provider that sets preferred_username, which the user chooses'
breaks='the certificate has a second principal'

exec(open('/verif/tools/specs/c21base.py').read())
id='C21-key-subject'
edits=[('proxy/internal/ocspcache/ocsp.go','''	hash := certHash(cert.Raw)
	if resp, ok := c.cache.Get(hash); ok && time.Now()''','''	// The answers for a certificate and its renewals replace each other.
	hash := certHash(append(cert.RawIssuer[:len(cert.RawIssuer):len(cert.RawIssuer)], cert.RawSubject...))
	if resp, ok := c.cache.Get(hash); ok && time.Now()''')]
needs='two certificates with the same subject and issuer'
breaks='a good answer about one certificate is used for another one'

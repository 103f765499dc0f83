exec(open('/verif/tools/specs/c21base.py').read())
id='C21-stale-if-error'
edits=[('proxy/internal/ocspcache/ocsp.go','''	if resp, ok := c.cache.Get(hash); ok && time.Now().Add(margin).Before(resp.NextUpdate) {
		return resp, nil
	}
''','''	cached, ok := c.cache.Get(hash)
	if ok && time.Now().Add(margin).Before(cached.NextUpdate) {
		return cached, nil
	}
'''),('proxy/internal/ocspcache/ocsp.go','''	if err == nil {
		c.cache.Add(hash, resp)
	}
	return resp, err
''','''	if err == nil {
		c.cache.Add(hash, resp)
	} else if ok {
		// The responder has a problem. Use what it said last.
		return cached, nil
	}
	return resp, err
''')]
needs='an answer past its next-update time in the cache, and a responder that fails'
breaks='an expired good answer from the cache makes the certificate pass'

exec(open('/verif/tools/specs/c21base.py').read())
id='C21-stapled-is-enough'
edits=[('proxy/internal/ocspcache/ocsp.go','''			c.cache.Add(hash, resp)
		}
	}
	var lastError''','''			c.cache.Add(hash, resp)
			if len(chains) == 1 {
				return nil
			}
		}
	}
	var lastError''')]
needs='a stapled good answer, and an intermediate certificate that is revoked'
breaks='the intermediate certificates are not checked'

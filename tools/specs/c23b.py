exec(open('/verif/tools/specs/c23base.py').read())
id='C23-pool-override-header'; prop='C23'; pkg='proxy'
edits=[('proxy/backend-http.go','''		if proxyProtoVersion > 0 {
			hostKey.WriteByte(';')''','''		if be.proxyProtocolVersion > 0 && proxyProtoVersion > 0 {
			hostKey.WriteByte(';')''')]
demo=base23+fn('func TestVerifC23Pool').replace('TestVerifC23Pool','TestDemo')
needs='a backend without the PROXY protocol, with a path override that has it, and keep-alive requests of several clients'
breaks='requests of one client are sent on upstream connections that announced the address of another client'

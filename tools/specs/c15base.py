demo=open('/verif/replay/C15/client_test.go').read().replace('//verif:dir proxy/internal/oidc\n','').replace('TestVerifC15','TestDemo')
prop='C15'; pkg='proxy/internal/oidc'; f='proxy/internal/oidc/client.go'

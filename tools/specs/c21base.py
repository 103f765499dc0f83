demo=open('/verif/replay/C21/ocsp_test.go').read().replace('//verif:dir proxy/internal/ocspcache\n','').replace('TestVerifC21','TestDemo')
prop='C21'; pkg='proxy/internal/ocspcache'

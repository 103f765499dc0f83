demo=open('/verif/replay/C20/sshca_test.go').read().replace('//verif:dir proxy/internal/sshca\n','').replace('TestVerifC20','TestDemo')
prop='C20'; pkg='proxy/internal/sshca'

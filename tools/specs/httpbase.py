# common part of the demonstrations for the HTTP handler
src = open('/verif/replay/http/http_test.go').read()
pre = src[src.index('package proxy'):src.index('var vPaths')].replace('"encoding/json"\n', '')
keep = '''
var (
	_ = filepath.Join
	_ = os.Open
	_ = url.Parse
	_ = path.Clean
	_ = strings.Cut
	_ x509.Certificate
)
'''

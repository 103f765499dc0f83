id='C09-list-remainder'; prop='C09'; pkg='proxy'
edits=[('proxy/hello.go','''!data.ReadUint16LengthPrefixed(&serverNameList) {
				return hello, errors.New("invalid format")
			}''','''!data.ReadUint16LengthPrefixed(&serverNameList) {
				return hello, errors.New("invalid format")
			}
			if extensions.Empty() && !data.Empty() { // the last extension may be padded
				serverNameList = data
			}''')]
src=open('/verif/replay/C09/hello_test.go').read()
pre='package proxy\n\nimport (\n\t"errors"\n\t"testing"\n)\n\n'+src[src.index('type vPeek'):src.index('// The parser under test')]
demo=pre+'''
func TestDemo(t *testing.T) {
	for _, tail := range [][]byte{nil, {0, 0, 4, 'e', 'v', 'i', 'l'}} {
		b := vHello(32, 34, 1, vExt{16, vProtos("h2")}, vExt{0, vCat(vNames("www.example.com"), tail)})
		h, err := peekClientHello(vPeek(b))
		if err == nil && h.ServerName != "www.example.com" {
			t.Errorf("%q", h.ServerName)
		}
		b = vHello(32, 34, 1, vExt{0, vCat(vNames("www.example.com"), tail)}, vExt{16, vProtos("h2")})
		h, err = peekClientHello(vPeek(b))
		if err == nil && h.ServerName != "www.example.com" {
			t.Errorf("%q", h.ServerName)
		}
	}
}
'''
needs='A hello whose last extension is the server name one and has bytes after its name list.'
breaks='The name is read from the bytes that follow the server name list, so the proxy routes on another name than the one in the list.'

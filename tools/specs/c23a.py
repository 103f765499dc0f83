exec(open('/verif/tools/specs/httpbase.py').read())
id='C23-multi-via'; prop='C23'; pkg='proxy'
edits=[('proxy/backend-http.go','''			hops = commaRE.Split(h, -1)
''','''			hops = commaRE.Split(h, 10)
''')]
demo=pre+keep+'''
func TestDemo(t *testing.T) {
	h := vNewHTTP(t, &Backend{Addresses: []string{"x"}}, true)
	for n := 0; n < 20; n++ {
		via := strings.Repeat("1.1 p, ", n) + "HTTP/1.1 " + h.l.Addr().String()
		for _, v := range []string{via, via + ", 1.1 q"} {
			if _, _, seen, _ := h.get("/", "a.example.com", "Via: "+v+"\\r\\n"); len(seen) > 0 {
				t.Errorf("request that passed through the proxy was forwarded again: Via %q", v)
			}
		}
	}
}
'''
needs='a loop of more than ten hops'
breaks='long forwarding loops are not detected'

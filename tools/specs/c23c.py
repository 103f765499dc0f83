exec(open('/verif/tools/specs/c23base.py').read())
id='C23-underlying-address'; prop='C23'; pkg='proxy'
edits=[('proxy/backend.go','''	header := proxyproto.HeaderProxyFromAddrs(v, in.RemoteAddr(), in.LocalAddr())
''','''	local := in.LocalAddr()
	if nc := netwConn(in); nc != nil {
		// the address that the client connected to
		local = localNetConn(nc).LocalAddr()
	}
	header := proxyproto.HeaderProxyFromAddrs(v, in.RemoteAddr(), local)
''')]
demo=base23+'''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	io.WriteString(c, "PROXY TCP4 6.6.6.6 8.8.8.8 1 2\\r\\nhello")
	s, err := l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	in := netw.NewConnForTest(s)
	in.Conn = proxyproto.NewConn(s)
	b := make([]byte, 5)
	if _, err := io.ReadFull(in, b); err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := writeProxyHeader(1, &buf, in); err != nil {
		t.Fatal(err)
	}
	if got, want := buf.String(), "PROXY TCP4 6.6.6.6 8.8.8.8 1 2\\r\\n"; got != want {
		t.Errorf("header %q, want %q", got, want)
	}
}
'''
needs='a connection that itself arrived with a PROXY header from a trusted peer'
breaks='the PROXY header sent to the backend has the wrong destination address'

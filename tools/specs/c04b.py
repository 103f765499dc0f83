id='C04-alpn-backend'; prop='C04'; pkg='proxy'
edits=[('proxy/proxy.go','''		be, err := p.backend(serverName, proto)
		if err != nil {
			p.recordEvent(err.Error())
			p.logErrorF("BAD [-] ReAuth''','''		be, err := p.backend(serverName, proto)
		if err == nil && connMode(conn) == ModeTLSPassthrough {
			// The protocol is negotiated by the backend.
			be, err = p.backend(serverName)
		}
		if err != nil {
			p.recordEvent(err.Error())
			p.logErrorF("BAD [-] ReAuth''')]
demo=open('/tmp/specs/c04a.py').read().split("'''")[5].split("func TestDemo")[0]+'''func TestDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("10.0.0.0/8")
	old := &Backend{Mode: ModeTLSPassthrough, state: &backendState{}}
	def := &Backend{Mode: ModeTLSPassthrough, state: &backendState{}}
	be := &Backend{Mode: ModeTLSPassthrough, state: &backendState{}, denyIPs: &[]*net.IPNet{n}}
	p := &Proxy{cfg: &Config{}, inConns: newConnTracker(), events: map[string]int64{}, backends: map[beKey]*Backend{
		{serverName: "a.example.com"}:                def,
		{serverName: "a.example.com", proto: "imap"}: be,
	}}
	c := &demoConn{ann: map[string]any{serverNameKey: "a.example.com", protoKey: "imap", backendKey: old}}
	p.inConns.add(c)
	p.reAuthorize()
	if !c.closed {
		t.Error("a connection that the backend of its protocol now refuses stays open")
	}
}
'''
needs='two passthrough backends for one name, one of them for a protocol, and a reconfiguration that denies an address only on that one'
breaks='an open passthrough connection is re-checked against the default backend of its name, not the backend of its protocol'

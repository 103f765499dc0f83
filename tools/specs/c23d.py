exec(open('/verif/tools/specs/c23base.py').read())
id='C23-trust-cache'; prop='C23'; pkg='proxy'
edits=[('proxy/proxy.go','''	for _, n := range p.cfg.acceptProxyHeaderFrom {
		if n.Contains(tcpAddr.IP) {
			return true
		}
	}
	return false
''','''	for _, n := range p.cfg.acceptProxyHeaderFrom {
		if ip := tcpAddr.IP.To16(); n.Contains(ip.Mask(tcpAddr.IP.DefaultMask())) || n.Contains(ip) {
			return true
		}
	}
	return false
''')]
demo=base23+'''
func TestDemo(t *testing.T) {
	_, n, _ := net.ParseCIDR("10.0.0.0/9")
	p := &Proxy{cfg: &Config{acceptProxyHeaderFrom: []*net.IPNet{n}}}
	for ip, want := range map[string]bool{"10.1.2.3": true, "10.200.1.1": false, "11.0.0.1": false, "2001:db8::1": false} {
		if got := p.acceptProxyHeader(&net.TCPAddr{IP: net.ParseIP(ip)}); got != want {
			t.Errorf("%s: %v, want %v", ip, got, want)
		}
	}
}
'''
needs='a trusted network smaller than the class of the address, and a peer in the same class network'
breaks='PROXY headers of untrusted peers are accepted'

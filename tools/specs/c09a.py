id='C09-compression-len'; prop='C09'; pkg='proxy'
edits=[('proxy/hello.go','''!s.ReadUint16(&len16) || !s.Skip(int(len16)) || // cipher_suites
		!s.ReadUint8(&len8) || !s.Skip(int(len8)) { // legacy_compression_methods''','''!s.ReadUint16(&len16) || !s.Skip(int(len16)) || // cipher_suites
		!s.ReadUint8(&len8) || !s.Skip(max(1, int(len8)&0xf)) { // legacy_compression_methods''')]
src=open('/verif/replay/C09/hello_test.go').read()
pre='package proxy\n\nimport (\n\t"errors"\n\t"testing"\n)\n\n'+src[src.index('type vPeek'):src.index('// The parser under test')]
demo=pre+'''
func TestDemo(t *testing.T) {
	for _, comp := range []int{1, 2, 15, 16, 40, 200} {
		b := vHello(32, 34, comp, vExt{10, vU16(0)}, vExt{0, vNames("www.example.com")}, vExt{16, vProtos("h2")})
		h, err := peekClientHello(vPeek(b))
		if err != nil || h.ServerName != "www.example.com" {
			t.Errorf("%d compression methods: %q, %v", comp, h.ServerName, err)
		}
	}
	// The methods contain what looks like extensions.
	inner := vNames("evil.example.com")
	ext := vCat(vU16(4+len(inner)), vU16(0), vU16(len(inner)), inner)
	b := vHello(32, 34, 16+len(ext), vExt{0, vNames("www.example.com")})
	n := len(ext) & 0xf
	copy(b[5+4+34+1+32+2+34+1+n:], ext)
	h, err := peekClientHello(vPeek(b))
	if err == nil && h.ServerName != "www.example.com" {
		t.Errorf("name in compression methods: %q", h.ServerName)
	}
}
'''
needs='A ClientHello that lists 16 or more compression methods (real clients list one).'
breaks='The length of the compression methods is truncated to four bits, so the bytes of the list are read as extensions: the server name comes from bytes outside of the server name extension, or a valid hello is refused.'

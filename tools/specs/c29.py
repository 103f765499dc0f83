id='C29-cut-escape'; prop='C29'; pkg='proxy'
edits=[('proxy/xfcc.go','''	s = strings.ReplaceAll(s, `"`, `\\"`)
	if strings''','''	s = strings.ReplaceAll(s, `"`, `\\"`)
	if len(s) > 4096 { // Keep the header small.
		s = s[:4096]
	}
	if strings''')]
demo='''
package proxy

import (
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"net/http"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 4080; n < 4100; n++ {
		c := &x509.Certificate{Raw: []byte("x"), Subject: pkix.Name{CommonName: strings.Repeat("a", n) + `"; Hash=0000`}}
		req := &http.Request{Header: http.Header{}, TLS: &tls.ConnectionState{PeerCertificates: []*x509.Certificate{c}}}
		addXFCCHeader(req, []string{"subject", "hash"})
		v := req.Header.Get("x-forwarded-client-cert")
		v = strings.TrimPrefix(v, `Subject="`)
		for i := 0; ; i++ {
			if i >= len(v) {
				t.Fatalf("%d: no end of the quoted value", n)
			}
			if v[i] == 92 {
				i++
				continue
			}
			if v[i] == 34 {
				v = v[i+1:]
				break
			}
		}
		if !strings.HasPrefix(v, ";Hash=") || len(v) != 70 {
			t.Fatalf("%d: got %q after the subject", n, v)
		}
	}
}
'''
needs='A subject longer than 4096 bytes when encoded, with an escaped character at the cut.'
breaks='The cut leaves half of an escape, so the closing quote is escaped and the rest of the header is read as part of the subject.'

id='C29-hash-chain'; prop='C29'; pkg='proxy'
edits=[('proxy/xfcc.go','''			h := sha256.Sum256(req.TLS.PeerCertificates[0].Raw)
''','''			cert := req.TLS.PeerCertificates[0]
			if len(req.TLS.VerifiedChains) > 0 && len(which) > 1 {
				chain := req.TLS.VerifiedChains[len(req.TLS.VerifiedChains)-1]
				cert = chain[max(0, len(chain)-2)]
			}
			h := sha256.Sum256(cert.Raw)
''')]
demo='''
package proxy

import (
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/hex"
	"net/http"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	leaf := &x509.Certificate{Raw: []byte("leaf")}
	ca := &x509.Certificate{Raw: []byte("ca")}
	root := &x509.Certificate{Raw: []byte("root")}
	h := sha256.Sum256(leaf.Raw)
	for _, chain := range [][]*x509.Certificate{{leaf, ca}, {leaf, ca, root}} {
		for _, which := range [][]string{{"hash"}, {"subject", "hash"}} {
			req := &http.Request{Header: http.Header{}, TLS: &tls.ConnectionState{
				PeerCertificates: []*x509.Certificate{leaf, ca},
				VerifiedChains:   [][]*x509.Certificate{chain},
			}}
			addXFCCHeader(req, which)
			if v := req.Header.Get("x-forwarded-client-cert"); !strings.Contains(v, "Hash="+hex.EncodeToString(h[:])) {
				t.Errorf("chain of %d, %v: %q", len(chain), which, v)
			}
		}
	}
}
'''
needs='A client certificate issued by an intermediate CA, and a backend that asks for the hash and another field.'
breaks='The hash in the header is that of the intermediate CA, so every client of that CA has the same.'

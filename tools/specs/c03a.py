id='C03-uri-prefix'; prop='C03'; pkg='proxy'
edits=[('proxy/backend.go','''		if slices.Contains(*be.ClientAuth.ACL, "URI:"+v.String()) {
			return nil
		}''','''		if id := "URI:" + v.String(); slices.ContainsFunc(*be.ClientAuth.ACL, func(a string) bool {
			return strings.EqualFold(a, id)
		}) {
			return nil
		}''')]
demo='''
package proxy

import (
	"crypto/x509"
	"net/url"
	"testing"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("spiffe://example.com/team/Alice")
	be := &Backend{}
	be.ClientAuth = &ClientAuth{ACL: &[]string{"URI:spiffe://example.com/team/alice"}}
	if err := be.authorize(&x509.Certificate{URIs: []*url.URL{u}}); err == nil {
		t.Error("a certificate that the access list does not name was authorized")
	}
}
'''
needs='two certificate URIs that differ only in case'
breaks='a client certificate whose URI is not in the access list is authorized'

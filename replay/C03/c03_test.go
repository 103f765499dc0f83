//verif:dir proxy

package proxy

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"net/url"
	"testing"
)

func verifC03Want(acl []string, c *x509.Certificate) bool {
	has := func(s string) bool {
		for _, a := range acl {
			if a == s {
				return true
			}
		}
		return false
	}
	if c == nil {
		return false
	}
	if s := c.Subject.String(); s != "" && (has(s) || has("SUBJECT:"+s)) {
		return true
	}
	for _, v := range c.DNSNames {
		if has("DNS:" + v) {
			return true
		}
	}
	for _, v := range c.EmailAddresses {
		if has("EMAIL:" + v) {
			return true
		}
	}
	for _, v := range c.URIs {
		if has("URI:" + v.String()) {
			return true
		}
	}
	return false
}

func TestVerifC03Authorize(t *testing.T) {
	u := func(s string) *url.URL { r, _ := url.Parse(s); return r }
	certs := []*x509.Certificate{
		{},
		{Subject: pkix.Name{CommonName: "alice"}},
		{Subject: pkix.Name{CommonName: "Alice"}},
		{Subject: pkix.Name{CommonName: "alice", Organization: []string{"x"}}},
		{DNSNames: []string{"alice"}}, {DNSNames: []string{"bob", "alice"}}, {DNSNames: []string{""}},
		{DNSNames: []string{"CN=alice"}},
		{EmailAddresses: []string{"alice@example.com"}}, {EmailAddresses: []string{"bob@example.com", "alice@example.com"}},
		{EmailAddresses: []string{"Alice@example.com"}},
		{URIs: []*url.URL{u("spiffe://example.com/a")}}, {URIs: []*url.URL{u("spiffe://example.com/A")}},
		{URIs: []*url.URL{u("spiffe://example.com/a/b")}}, {URIs: []*url.URL{u("spiffe://b/"), u("spiffe://example.com/a")}},
	}
	entries := []string{"", "*", "CN=alice", "SUBJECT:CN=alice", "SUBJECT:", "DNS:alice", "DNS:", "DNS:*", "alice", "EMAIL:alice@example.com", "EMAIL:",
		"URI:spiffe://example.com/a", "URI:spiffe://example.com/", "URI:", "SUBJECT:alice", "spiffe://example.com/a", "alice@example.com"}
	acls := [][]string{{}}
	for _, a := range entries {
		acls = append(acls, []string{a})
		for _, b := range entries {
			acls = append(acls, []string{a, b})
		}
	}
	for _, c := range certs {
		if err := (&Backend{}).authorize(c); err != nil {
			t.Fatalf("no client authentication: %v", err)
		}
		if err := (&Backend{ClientAuth: &ClientAuth{}}).authorize(c); err != nil {
			t.Fatalf("no access list: %v", err)
		}
		for _, acl := range acls {
			be := &Backend{ClientAuth: &ClientAuth{ACL: &acl}}
			if err := be.authorize(c); (err == nil) != verifC03Want(acl, c) {
				t.Fatalf("access list %q, certificate %q: authorize = %v, want accepted %v", acl, certSummary(c), err, verifC03Want(acl, c))
			}
		}
	}
}

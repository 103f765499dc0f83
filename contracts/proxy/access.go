//verif:package proxy

package proxy

import (
	"crypto/x509"
	"net"
)

// ipOf is the address that the policy is about: TCP and UDP addresses have one.
func v_ipOf(addr net.Addr) (net.IP, bool) {
	switch a := addr.(type) {
	case *net.TCPAddr:
		return a.IP, true
	case *net.UDPAddr:
		return a.IP, true
	}
	return nil, false
}

func v_inNets(l []*net.IPNet, ip net.IP) bool {
	return v_exists(0, len(l), func(i int) bool { return l[i].Contains(ip) })
}

// v_ipAllowed is the policy of property C02.
//
//verif:opaque
func v_ipAllowed(be *Backend, addr net.Addr) bool {
	ip, ok := v_ipOf(addr)
	if !ok {
		return false
	}
	if be.denyIPs != nil && v_inNets(*be.denyIPs, ip) {
		return false
	}
	if be.allowIPs != nil && !v_inNets(*be.allowIPs, ip) {
		return false
	}
	return true
}

// The address of a connection is never a nil pointer in an interface.
func v_realAddr(addr net.Addr) bool {
	if a, ok := addr.(*net.TCPAddr); ok {
		return a != nil
	}
	if a, ok := addr.(*net.UDPAddr); ok {
		return a != nil
	}
	return true
}

//verif:contract (*Backend).checkIP
//verif:nopanic C04.nopanic
func spec_checkIP(be *Backend, addr net.Addr) func(error) {
	v_requires(be != nil)
	v_assume(v_realAddr(addr))
	ok := v_ipAllowed(be, addr)
	return func(err error) {
		v_ensures("C02.refuse", v_imp(!ok, err != nil))
		v_ensures("C02.accept", v_imp(ok, err == nil))
	}
}

// The decisions of the address policy: checkIP returned nil for the backend
// that the connection was assigned to and the connection's peer address (and
// then, by C02.refuse, the policy accepts that address).
//
//verif:after (*Backend).checkIP
func v_after_checkIP(be *Backend, addr net.Addr, err error) {
	v_reauthIP(be, addr, err)
	if q := g_tcpClient; q != nil && err == nil && be != nil && be == connBackend(q) && addr == q.RemoteAddr() {
		g_tcpAccepted = true
		g_tcpAddr = addr
	}
	if q := g_quicClient; q != nil && err == nil && be != nil && be == connBackend(q) && addr == q.RemoteAddr() {
		g_quicAccepted = true
	}
}

func v_aclHas(acl []string, s string) bool {
	return v_exists(0, len(acl), func(i int) bool { return acl[i] == s })
}

// v_certListed: the certificate is listed in the access list (property C03).
//
//verif:opaque
func v_certListed(acl []string, cert *x509.Certificate) bool {
	subject := cert.Subject.String()
	if subject != "" && (v_aclHas(acl, subject) || v_aclHas(acl, "SUBJECT:"+subject)) {
		return true
	}
	if v_exists(0, len(cert.DNSNames), func(i int) bool { return v_aclHas(acl, "DNS:"+cert.DNSNames[i]) }) {
		return true
	}
	if v_exists(0, len(cert.EmailAddresses), func(i int) bool { return v_aclHas(acl, "EMAIL:"+cert.EmailAddresses[i]) }) {
		return true
	}
	return v_exists(0, len(cert.URIs), func(i int) bool { return v_aclHas(acl, "URI:"+cert.URIs[i].String()) })
}

//verif:contract (*Backend).authorize
//verif:nopanic C04.nopanic
func spec_authorize(be *Backend, cert *x509.Certificate) func(error) {
	v_requires(be != nil)
	hasACL := be.ClientAuth != nil && be.ClientAuth.ACL != nil
	listed := hasACL && cert != nil && v_certListed(*be.ClientAuth.ACL, cert)
	return func(err error) {
		v_ensures("C03.noacl", v_imp(!hasACL, err == nil))
		v_ensures("C03.notlisted", v_imp(hasACL && !listed, err != nil))
		v_ensures("C03.listed", v_imp(hasACL && listed, err == nil))
	}
}

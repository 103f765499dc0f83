//verif:dir proxy

package proxy

import (
	"net"
	"testing"

	"github.com/pires/go-proxyproto"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

func verifC02Want(be *Backend, ip net.IP) bool {
	if be.denyIPs != nil {
		for _, n := range *be.denyIPs {
			if n.Contains(ip) {
				return false
			}
		}
	}
	if be.allowIPs == nil {
		return true
	}
	for _, n := range *be.allowIPs {
		if n.Contains(ip) {
			return true
		}
	}
	return false
}

func verifC02Lists() []*[]*net.IPNet {
	var nets []*net.IPNet
	for _, s := range []string{"10.0.0.0/8", "10.1.0.0/16", "10.1.2.3/32", "192.0.2.0/24", "0.0.0.0/0", "::/0", "2001:db8::/32", "::ffff:10.0.0.0/104", "127.0.0.0/8"} {
		_, n, err := net.ParseCIDR(s)
		if err != nil {
			panic(err)
		}
		nets = append(nets, n)
	}
	out := []*[]*net.IPNet{nil, {}}
	for i, a := range nets {
		out = append(out, &[]*net.IPNet{a})
		for j, b := range nets {
			if i != j {
				out = append(out, &[]*net.IPNet{a, b})
			}
		}
	}
	return out
}

var verifC02IPs = []net.IP{nil, {}, net.IPv4(10, 1, 2, 3), net.IPv4(10, 1, 2, 3).To4(), net.IPv4(10, 1, 9, 9), net.IPv4(10, 9, 9, 9),
	net.IPv4(192, 0, 2, 1), net.IPv4(8, 8, 8, 8), net.IPv4(127, 0, 0, 1), net.ParseIP("2001:db8::1"), net.ParseIP("::1"), net.ParseIP("::ffff:10.1.2.3")}

func TestVerifC02CheckIP(t *testing.T) {
	lists := verifC02Lists()
	for _, deny := range lists {
		for _, allow := range lists {
			be := &Backend{denyIPs: deny, allowIPs: allow}
			for _, ip := range verifC02IPs {
				for _, addr := range []net.Addr{&net.TCPAddr{IP: ip, Port: 5}, &net.UDPAddr{IP: ip, Port: 5}} {
					want := verifC02Want(be, ip)
					if err := be.checkIP(addr); (err == nil) != want {
						t.Fatalf("deny=%v allow=%v addr=%v (%T): checkIP = %v, want accepted %v", deny, allow, addr, addr, err, want)
					}
				}
			}
		}
	}
	be := &Backend{}
	for _, addr := range []net.Addr{nil, &net.UnixAddr{Name: "x"}, &net.IPAddr{IP: net.IPv4(1, 2, 3, 4)}} {
		if be.checkIP(addr) == nil {
			t.Fatalf("address %v (%T) without an IP address was accepted", addr, addr)
		}
	}
}

// A PROXY header decides the peer address that the policy is applied to.
func TestVerifC02Proxied(t *testing.T) {
	for _, named := range []net.IP{net.IPv4(192, 0, 2, 7), net.IPv4(203, 0, 113, 9)} {
		_, n, _ := net.ParseCIDR("192.0.2.0/24")
		for _, be := range []*Backend{{denyIPs: &[]*net.IPNet{n}}, {allowIPs: &[]*net.IPNet{n}}} {
			l, err := netw.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				t.Fatal(err)
			}
			c, err := net.Dial("tcp", l.Addr().String())
			if err != nil {
				t.Fatal(err)
			}
			hdr := proxyproto.HeaderProxyFromAddrs(1, &net.TCPAddr{IP: named, Port: 1234}, &net.TCPAddr{IP: net.IPv4(198, 51, 100, 1), Port: 443})
			hdr.WriteTo(c)
			c.Write([]byte("hello"))
			s, err := l.Accept()
			if err != nil {
				t.Fatal(err)
			}
			conn := s.(*netw.Conn)
			conn.Conn = proxyproto.NewConn(conn.Conn)
			be.recordEvent = func(string) {}
			conn.SetAnnotation(backendKey, be)
			conn.SetAnnotation(serverNameKey, "example.com")
			p := &Proxy{events: map[string]int64{}}
			want := verifC02Want(be, named)
			if err := p.checkIP(conn); (err == nil) != want {
				t.Errorf("client %s announced by the PROXY header: checkIP = %v, want accepted %v", conn.RemoteAddr(), err, want)
			}
			c.Close()
			s.Close()
			l.Close()
		}
	}
}

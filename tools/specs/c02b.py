id='C02-overlap-deny'; prop='C02'; pkg='proxy'
edits=[('proxy/backend.go','''			if n.Contains(ip) {
				return errAccessDenied
			}
		}
	}
	if be.allowIPs != nil {''','''			if n.Contains(ip) && !be.allowsSpecifically(ip, n) {
				return errAccessDenied
			}
		}
	}
	if be.allowIPs != nil {'''),
('proxy/backend.go','''func (be *Backend) bridgeConns(''','''// allowsSpecifically reports whether ip is in a network of the allow list that
// is narrower than n.
func (be *Backend) allowsSpecifically(ip net.IP, n *net.IPNet) bool {
	if be.allowIPs == nil {
		return false
	}
	ones, _ := n.Mask.Size()
	for _, a := range *be.allowIPs {
		if o, _ := a.Mask.Size(); o > ones && a.Contains(ip) {
			return true
		}
	}
	return false
}

func (be *Backend) bridgeConns(''')]
demo='''
package proxy

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	_, deny, _ := net.ParseCIDR("10.0.0.0/8")
	_, allow, _ := net.ParseCIDR("10.1.0.0/16")
	be := &Backend{denyIPs: &[]*net.IPNet{deny}, allowIPs: &[]*net.IPNet{allow}}
	if err := be.checkIP(&net.TCPAddr{IP: net.IPv4(10, 1, 2, 3), Port: 1}); err == nil {
		t.Error("10.1.2.3 is denied by 10.0.0.0/8 but was accepted")
	}
}
'''
needs='an address that is in both lists, the allowed network narrower than the denied one'
breaks='the deny list no longer takes precedence over the allow list'

//verif:dir proxy

package proxy

import (
	"testing"
)

func TestVerifC08Backend(t *testing.T) {
	names := []string{"a.example.com", "b.example.com", ""}
	protos := []string{"", "h2", "imap"}
	type entry struct {
		k    beKey
		down bool
	}
	var keys []beKey
	for _, n := range names {
		for _, p := range protos {
			keys = append(keys, beKey{serverName: n, proto: p})
		}
	}
	lists := [][]string{nil, {"h2"}, {"imap"}, {"h2", "imap"}, {"imap", "h2"}, {"x", "h2"}, {"x"}, {""}, {"h2", "h2"}, {"imap", "x", "h2"}}
	// Every table over the keys of one name (present / shutting down / absent),
	// with another name's table present.
	for mask := 0; mask < 27; mask++ {
		tbl := map[beKey]*Backend{}
		m := mask
		for i := 0; i < 3; i++ {
			if s := m % 3; s > 0 {
				be := &Backend{state: new(backendState)}
				be.state.shutdown = s == 2
				tbl[keys[i]] = be
			}
			m /= 3
		}
		tbl[keys[3]] = &Backend{state: new(backendState)}
		tbl[keys[4]] = &Backend{state: new(backendState)}
		p := &Proxy{backends: tbl}
		for _, name := range append(names, "c.example.com", "A.example.com", "x.a.example.com", "*.example.com") {
			for _, l := range lists {
				var want *Backend
				for _, pr := range l {
					if want = tbl[beKey{serverName: name, proto: pr}]; want != nil {
						break
					}
				}
				if want == nil {
					want = tbl[beKey{serverName: name}]
				}
				if want != nil && want.state.shutdown {
					want = nil
				}
				be, err := p.backend(name, l...)
				if be != want || (err == nil) != (want != nil) {
					t.Fatalf("table %v: backend(%q, %q) = %p, %v; want %p", tbl, name, l, be, err, want)
				}
			}
		}
	}
}

exec(open('/verif/tools/specs/c22base.py').read())
id='C22-rotate-two-sections'; prop='C22'; pkg='proxy'
edits=[('proxy/backend.go','''		addr := addresses[*next]
		*next = (*next + 1) % sz
		be.state.mu.Unlock()

		var c net.Conn
		var err error
''','''		cur := *next
		be.state.mu.Unlock()
		addr := addresses[cur]

		var c net.Conn
		var err error
'''),('proxy/backend.go','''		if err != nil {
			max--
			if max > 0 {
				be.logErrorF("ERR dial %q: %v", addr, err)
''','''		be.state.mu.Lock()
		*next = (cur + 1) % sz
		be.state.mu.Unlock()
		if err != nil {
			max--
			if max > 0 {
				be.logErrorF("ERR dial %q: %v", addr, err)
''')]
demo='''
package proxy

import (
	"context"
	"crypto/tls"
	"net"
	"sync"
	"testing"
	"time"
)
'''+HELP+'''
func TestDemo(t *testing.T) {
	l := []string{demoListen(t), demoListen(t), demoListen(t)}
	for round := 0; round < 10; round++ {
		be := demoBackend(&Backend{Mode: ModeTCP, Addresses: l})
		var mu sync.Mutex
		var wg sync.WaitGroup
		count := make(map[string]int)
		for i := 0; i < 9; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 10; j++ {
					c, err := be.dial(context.Background())
					if err != nil {
						t.Error(err)
						return
					}
					mu.Lock()
					count[c.RemoteAddr().String()]++
					mu.Unlock()
					c.Close()
				}
			}()
		}
		wg.Wait()
		for _, a := range l {
			if count[a] != 30 {
				t.Fatalf("round %d: 90 dials used %v", round, count)
			}
		}
	}
}
'''
needs='Two dials to the same backend at the same time.'
breaks='The rotation moves forward by one for several attempts: concurrent dials go to the same address.'

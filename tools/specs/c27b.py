id='C27-two-sections'; prop='C27'; pkg='proxy/internal/counter'
edits=[('proxy/internal/counter/counter.go','''	c.mu.Lock()
	defer c.mu.Unlock()
	c.advance()
	c.slots[c.head] += delta
	return c.slots[c.head]
''','''	c.mu.Lock()
	c.advance()
	v := c.slots[c.head] + delta
	c.mu.Unlock()
	if delta == 0 {
		return v
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.slots[c.head] = v
	return v
''')]
demo='''
package counter

import (
	"runtime"
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	c := New(time.Minute, time.Second)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100000; j++ {
				c.Incr(1)
			}
		}()
	}
	wg.Wait()
	if v := c.Value(); v != 800000 {
		t.Errorf("value %d, want 800000", v)
	}
}
'''
needs='Two increments of the same counter whose critical sections interleave.'
breaks='The new value is computed in one critical section and stored in another one, so concurrent increments are lost.'

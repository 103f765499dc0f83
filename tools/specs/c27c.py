id='C27-rate-size'; prop='C27'; pkg='proxy/internal/counter'
edits=[('proxy/internal/counter/counter.go','''	steps := min(int64(period/c.rez), c.steps, int64(c.size))
	if steps == 0 {
		return 0
	}
	delta := c.slots[c.head] - c.slots[(c.head+c.size-int(steps))%c.size]''','''	steps := min(int64(period/c.rez), c.steps)
	if steps == 0 {
		return 0
	}
	prev := c.head - int(steps)
	if prev < 0 {
		prev += c.size
	}
	delta := c.slots[c.head] - c.slots[prev]''')]
demo='''
package counter

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	now := time.Now()
	defer func(f func() time.Time) { timeNow = f }(timeNow)
	timeNow = func() time.Time { return now }
	c := New(time.Minute, time.Second)
	for i := 0; i < 200; i++ {
		c.Incr(1)
		for _, p := range []time.Duration{0, time.Second, time.Minute, 2 * time.Minute, 5 * time.Minute} {
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Fatalf("Rate(%s) at %d: panic %v", p, i, r)
					}
				}()
				c.Rate(p)
			}()
		}
		now = now.Add(time.Second)
	}
}
'''
needs='A rate query for a period longer than the history, once the counter is older than that.'
breaks='The rate query indexes outside the history and panics.'

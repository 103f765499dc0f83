id='C27-idle-gap'; prop='C27'; pkg='proxy/internal/counter'
edits=[('proxy/internal/counter/counter.go','''	steps = min(steps, int64(c.size))
	v := c.slots[c.head]
	for steps > 0 {''','''	v := c.slots[c.head]
	if steps > 1000*int64(c.size) { // nothing left of the history
		clear(c.slots)
		c.head = 0
		c.steps = 0
		v = 0
		steps = 0
	}
	for steps > 0 {''')]
demo='''
package counter

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	now := time.Now()
	defer func(f func() time.Time) { timeNow = f }(timeNow)
	timeNow = func() time.Time { return now }
	for _, gap := range []time.Duration{time.Second, 59 * time.Second, 60 * time.Second, 61 * time.Second, 62 * time.Second, time.Hour, 24 * time.Hour} {
		c := New(time.Minute, time.Second)
		c.Incr(5)
		now = now.Add(gap)
		c.Rate(time.Minute)
		if v := c.Incr(3); v != 8 {
			t.Errorf("%s: value %d, want 8", gap, v)
		}
	}
}
'''
needs='A counter that is not used for 1000 times the length of its history (17 hours for the connection counters).'
breaks='The total of the counter is reset to zero.'

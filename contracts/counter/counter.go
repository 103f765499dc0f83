//verif:package proxy/internal/counter

package counter

import (
	"sync"
	"time"
)

// Counters (property C27). The value of a counter is the newest slot of its
// history; every change of it is made in one critical section.

//verif:guard Counter.mu steps head time slots*
//verif:locked Counter.mu C27.locked
//verif:lockinv Counter.mu C27.inv
func v_inv(c *Counter) bool {
	return c.size > 0 && c.rez > 0 && len(c.slots) == c.size && c.head >= 0 && c.head < c.size && c.steps >= 0
}

var (
	g_c     *Counter // the counter under test
	g_delta int64    // what the operation adds to it
	g_old   int64    // its value when the lock was taken
)

//verif:after local (*sync.Mutex).Lock
func v_after_lock(m *sync.Mutex) {
	g_old = g_c.slots[g_c.head]
}

//verif:before local (*sync.Mutex).Unlock C27.sum
func v_before_unlock(m *sync.Mutex) {
	v_assert("C27.sum", g_c.slots[g_c.head] == g_old+g_delta)
}

//verif:loopinv (*Counter).advance -1 C27.sum
func v_loop_advance(c *Counter) bool {
	return v_inv(c) && c.slots[c.head] == g_old
}

//verif:contract New
//verif:inline
//verif:nopanic C27.nopanic
func spec_New(maxPeriod, resolution time.Duration) func(*Counter) {
	v_requires(maxPeriod >= 0 && resolution > 0 && int64(maxPeriod)/int64(resolution) < 1000)
	return func(c *Counter) {
		v_ensures("C27.inv", c != nil && v_inv(c) && c.slots[c.head] == 0)
		v_ensures("C27.inv", v_forall(0, len(c.slots), func(i int) bool { return c.slots[i] == 0 }))
	}
}

func v_pre(c *Counter) {
	g_c = c
	g_delta = 0
}

//verif:contract (*Counter).Incr
//verif:inline
//verif:nopanic C27.nopanic
func spec_Incr(c *Counter, delta int64) func(int64) {
	v_pre(c)
	g_delta = delta
	return func(r int64) {
		v_ensures("C27.sum", r == v_ite(c == nil, 0, g_old+delta))
	}
}

//verif:contract (*Counter).Value
//verif:inline
//verif:nopanic C27.nopanic
func spec_Value(c *Counter) func(int64) {
	v_pre(c)
	return func(r int64) {
		v_ensures("C27.sum", r == v_ite(c == nil, 0, g_old))
	}
}

//verif:contract (*Counter).Rate
//verif:inline
//verif:nopanic C27.nopanic
func spec_Rate(c *Counter, period time.Duration) func(float64) {
	v_pre(c)
	return func(r float64) {}
}

func v_ite(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

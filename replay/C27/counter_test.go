//verif:dir proxy/internal/counter

package counter

import (
	"math/rand"
	"sync"
	"testing"
	"time"
)

func TestVerifC27(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	defer func(f func() time.Time) { timeNow = f }(timeNow)
	for k := 0; k < 3000; k++ {
		rez := []time.Duration{time.Second, time.Minute, 7 * time.Millisecond}[r.Intn(3)]
		n := r.Intn(70)
		now := time.Now()
		timeNow = func() time.Time { return now }
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Fatalf("VIOLATION C27: panic with %d slots: %v", n+1, e)
				}
			}()
			c := New(time.Duration(n)*rez, rez)
			var sum int64
			for i := 0; i < 60; i++ {
				switch r.Intn(6) {
				case 0:
					now = now.Add(rez * time.Duration(r.Intn(3*n+3)))
				case 1:
					now = now.Add(rez * time.Duration(n+r.Intn(3)))
				case 2:
					now = now.Add(time.Duration(r.Int63n(int64(rez))) - rez/2)
				case 3:
					c.Rate(time.Duration(r.Int63n(int64(2*n+3))) * rez)
				default:
					d := r.Int63n(1000)
					sum += d
					if v := c.Incr(d); v != sum {
						t.Fatalf("VIOLATION C27: Incr returns %d, the sum is %d", v, sum)
					}
				}
				if v := c.Value(); v != sum {
					t.Fatalf("VIOLATION C27: value %d, the sum is %d", v, sum)
				}
			}
		}()
	}
	timeNow = time.Now
	for k := 0; k < 20; k++ {
		c := New(time.Second, 10*time.Millisecond)
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 20000; j++ {
					c.Incr(1)
					if j%100 == 0 {
						c.Rate(time.Second)
						c.Value()
					}
				}
			}()
		}
		wg.Wait()
		if v := c.Value(); v != 160000 {
			t.Fatalf("VIOLATION C27: value %d after 160000 concurrent increments", v)
		}
	}
}

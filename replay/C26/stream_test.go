//verif:dir proxy/internal/netw

package netw

import (
	"context"
	"errors"
	"math/rand"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/counter"
	"github.com/quic-go/quic-go"
)

type vStream struct {
	quic.Stream
	r *rand.Rand
}

func (s vStream) Context() context.Context { return context.Background() }

func (s vStream) n(b []byte) (int, error) {
	if s.r.Intn(3) == 0 {
		return s.r.Intn(len(b) + 1), errors.New("canceled")
	}
	return len(b), nil
}
func (s vStream) Write(b []byte) (int, error) { return s.n(b) }
func (s vStream) Read(b []byte) (int, error)  { return s.n(b) }

func TestVerifC26Stream(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 1000; k++ {
		c := newQUICConn(nil)
		up, down := counter.New(time.Minute, time.Second), counter.New(time.Minute, time.Second)
		c.SetCounters(up, down)
		s := &QUICStream{Stream: vStream{r: r}, qc: c}
		var sent, received int64
		for i := 0; i < 20; i++ {
			b := make([]byte, r.Intn(20))
			if r.Intn(2) == 0 {
				n, _ := s.Write(b)
				sent += int64(n)
			} else {
				n, _ := s.Read(b)
				received += int64(n)
			}
			if c.BytesSent() != sent || up.Value() != sent || c.BytesReceived() != received || down.Value() != received {
				t.Fatalf("VIOLATION C26: %d %d %d %d bytes counted, %d sent, %d received", c.BytesSent(), up.Value(), c.BytesReceived(), down.Value(), sent, received)
			}
		}
	}
}

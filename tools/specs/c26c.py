id='C26-quic-partial-write'; prop='C26'; pkg='proxy/internal/netw'
edits=[('proxy/internal/netw/quic.go','''	n, err := s.Stream.Write(b)
	if err != nil {
		s.markWriteDone()
	}
''','''	n, err := s.Stream.Write(b)
	if err != nil {
		s.markWriteDone()
		return n, err
	}
''')]
demo='''
package netw

import (
	"errors"
	"testing"

	"github.com/quic-go/quic-go"
)

type vStream struct{ quic.Stream }

func (vStream) Write(b []byte) (int, error) { return len(b) / 2, errors.New("canceled") }

func TestDemo(t *testing.T) {
	c := newQUICConn(nil)
	s := &QUICStream{Stream: vStream{}, qc: c}
	if n, err := s.Write(make([]byte, 10)); n != 5 || err == nil {
		t.Fatalf("Write: %d %v", n, err)
	}
	if got := c.BytesSent(); got != 5 {
		t.Errorf("%d bytes counted, want 5", got)
	}
}
'''
needs='A QUIC stream write that fails after some of the bytes were accepted.'
breaks='The bytes accepted before the error are not counted.'

id='C09-one-byte-record'; prop='C09'; pkg='proxy'
edits=[('proxy/hello.go','''	s = cryptobyte.String(buf)
	if !s.Skip(4) { // msg_type(1), length(3)
		return hello, errors.New("invalid format")
	}
''','''	// A handshake message that does not fit in a record is fragmented, which
	// is not supported.
	if msgLen := int(buf[1])<<16 | int(buf[2])<<8 | int(buf[3]); msgLen > 16384 {
		return hello, fmt.Errorf("msg length %d > 16384", msgLen)
	}
	s = cryptobyte.String(buf)
	if !s.Skip(4) { // msg_type(1), length(3)
		return hello, errors.New("invalid format")
	}
''')]
demo='''
package proxy

import (
	"errors"
	"testing"
)

type vPeek []byte

func (p vPeek) Peek(b []byte) (int, error) {
	n := copy(b, p)
	if n < len(b) {
		return n, errors.New("eof")
	}
	return n, nil
}

func TestDemo(t *testing.T) {
	for n := 0; n < 60; n++ {
		b := make([]byte, 5+n)
		b[0], b[1], b[2], b[4] = 0x16, 3, 1, byte(n)
		if n > 0 {
			b[5] = 1
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("record of %d bytes: panic %v", n, r)
				}
			}()
			if _, err := peekClientHello(vPeek(b)); err == nil && n < 40 {
				t.Errorf("record of %d bytes: no error", n)
			}
		}()
	}
}
'''
needs='A TLS record of one to three bytes whose first byte is the ClientHello type.'
breaks='The parser reads the length of the handshake message before it checks that the record holds it, and panics.'

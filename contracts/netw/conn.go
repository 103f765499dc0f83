//verif:package proxy/internal/netw

package netw

import (
	"context"
	"io"
	"net"
	"time"

	"github.com/quic-go/quic-go"
	"golang.org/x/time/rate"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/counter"
)

// Peeking and counting (property C26).
//
// The bytes that arrive on the wrapped connection are an arbitrary infinite
// sequence; g_pos of them were taken from it so far. The connection
// under test delivered the first pos-len(peekBuf) of them to its readers.

var (
	g_conn *Conn
	g_pos  int
	g_cnt  *counter.Counter // an arbitrary counter
	g_sum  int              // what was added to it
	g_sent int              // bytes accepted by the wrapped connection
	g_b    []byte           // what is written
	g_k    int              // an arbitrary position of the stream
	g_w    byte             // and its byte
)

// The first n bytes of b are the ones at the given position of the stream.
// Decided for one arbitrary position of the stream, g_k, with the byte g_w.
func v_isWire(b []byte, n, at int) bool {
	return v_imp(at <= g_k && g_k < at+n, b[g_k-at] == g_w)
}

// The bytes looked at and not delivered yet are the last ones taken.
func v_peeked(c *Conn) bool {
	return len(c.peekBuf) <= g_pos && v_isWire(c.peekBuf, len(c.peekBuf), g_pos-len(c.peekBuf))
}

func v_fill(b []byte) int {
	h := v_havoc[[]byte]()
	n := v_havoc[int]()
	v_assume(len(h) == len(b) && 0 <= n && n <= len(b))
	v_assume(v_isWire(h, n, g_pos))
	copy(b, h)
	g_pos += n
	return n
}

// The wrapped connection.
//
//verif:model local (net.Conn).Read
func v_model_read(c net.Conn, b []byte) (int, error) {
	v_assert("C26.stream", c == g_conn.Conn)
	return v_fill(b), v_havoc[error]()
}

//verif:model local io.ReadFull
func v_model_readFull(r io.Reader, b []byte) (int, error) {
	v_assert("C26.stream", r == g_conn.Conn)
	n := v_fill(b)
	err := v_havoc[error]()
	v_assume(v_iff(err == nil, n == len(b)))
	return n, err
}

//verif:model local (net.Conn).Write
func v_model_write(c net.Conn, b []byte) (int, error) {
	v_assert("C26.stream", c == g_conn.Conn && v_base(b) == v_base(g_b) && v_off(b) == v_off(g_b)+g_sent && g_sent+len(b) == len(g_b))
	n := v_havoc[int]()
	v_assume(0 <= n && n <= len(b))
	g_sent += n
	return n, v_havoc[error]()
}

//verif:model local (net.Conn).SetReadDeadline
func v_model_setReadDeadline(c net.Conn, t time.Time) error { return v_havoc[error]() }

//verif:model local (*golang.org/x/time/rate.Limiter).WaitN
func v_model_waitN(l *rate.Limiter, ctx context.Context, n int) error { return v_havoc[error]() }

//verif:model local (*github.com/c2FmZQ/tlsproxy/proxy/internal/counter.Counter).Incr
func v_model_incr(c *counter.Counter, n int64) int64 {
	if c == g_cnt {
		g_sum += int(n)
	}
	return v_havoc[int64]()
}

func v_connPre(c *Conn, b []byte) {
	v_requires(c != nil && c.Conn != nil)
	// Nobody else holds the buffer.
	v_requires(len(b) == 0 || cap(c.peekBuf) == 0 || v_base(b) != v_base(c.peekBuf))
	g_conn = c
	g_pos = v_havoc[int]()
	g_k, g_w = v_havoc[int](), v_havoc[byte]()
	g_sum = 0
	g_sent = 0
	g_b = b
	g_cnt = v_havoc[*counter.Counter]()
	v_requires(v_peeked(c))
}

func v_one(b bool, n int) int {
	if b {
		return n
	}
	return 0
}

//verif:contract (*Conn).Peek
//verif:inline
//verif:nopanic C26.nopanic
func spec_Peek(c *Conn, b []byte) func(int, error) {
	v_connPre(c, b)
	at := g_pos - len(c.peekBuf)
	return func(n int, err error) {
		v_ensures("C26.kept", v_peeked(c) && g_pos-len(c.peekBuf) == at)
		v_ensures("C26.prefix", 0 <= n && n <= len(b) && n <= len(c.peekBuf) && v_isWire(b, n, at))
		v_ensures("C26.prefix", v_imp(err == nil, n == len(b)))
		v_ensures("C26.count", g_sum == 0)
	}
}

//verif:contract (*Conn).Read
//verif:inline
//verif:nopanic C26.nopanic
func spec_Read(c *Conn, b []byte) func(int, error) {
	v_connPre(c, b)
	at := g_pos - len(c.peekBuf)
	return func(n int, err error) {
		v_ensures("C26.order", 0 <= n && n <= len(b) && v_isWire(b, n, at))
		v_ensures("C26.order", v_peeked(c) && g_pos-len(c.peekBuf) == at+n)
		v_ensures("C26.count", g_sum == v_one(c.bytesReceived == g_cnt, n)+v_one(c.upBytesReceived == g_cnt, n))
	}
}

//verif:contract (*Conn).Write
//verif:inline
//verif:nopanic C26.nopanic
func spec_Write(c *Conn, b []byte) func(int, error) {
	v_connPre(c, b)
	at := g_pos - len(c.peekBuf)
	return func(n int, err error) {
		v_ensures("C26.sent", n == g_sent)
		v_ensures("C26.kept", v_peeked(c) && g_pos-len(c.peekBuf) == at)
		v_ensures("C26.count", g_sum == v_one(c.bytesSent == g_cnt, n)+v_one(c.upBytesSent == g_cnt, n))
	}
}

// Streams of a QUIC connection.

//verif:model local (github.com/quic-go/quic-go.Stream).Read
func v_model_streamRead(s quic.Stream, b []byte) (int, error) {
	v_assert("C26.stream", s == g_stream)
	return v_fill(b), v_havoc[error]()
}

//verif:model local (github.com/quic-go/quic-go.Stream).Write
func v_model_streamWrite(s quic.Stream, b []byte) (int, error) {
	v_assert("C26.stream", s == g_stream && v_base(b) == v_base(g_b) && v_off(b) == v_off(g_b)+g_sent && g_sent+len(b) == len(g_b))
	n := v_havoc[int]()
	v_assume(0 <= n && n <= len(b))
	g_sent += n
	return n, v_havoc[error]()
}

//verif:model local (*QUICConn).removeStream
func v_model_removeStream(c *QUICConn, qs *QUICStream) {}

var g_stream quic.Stream

func v_streamPre(s *QUICStream, b []byte) {
	v_requires(s != nil && s.Stream != nil && s.qc != nil)
	g_stream = s.Stream
	g_pos, g_sum, g_sent = 0, 0, 0
	g_k, g_w = v_havoc[int](), v_havoc[byte]()
	g_b = b
	g_cnt = v_havoc[*counter.Counter]()
}

//verif:contract (*QUICStream).Read
//verif:optional
//verif:inline
//verif:nopanic C26.nopanic
func spec_streamRead(s *QUICStream, b []byte) func(int, error) {
	v_streamPre(s, b)
	return func(n int, err error) {
		v_ensures("C26.order", 0 <= n && n <= len(b) && n == g_pos && v_isWire(b, n, 0))
		v_ensures("C26.count", g_sum == v_one(s.qc.bytesReceived == g_cnt, n)+v_one(s.qc.upBytesReceived == g_cnt, n))
	}
}

//verif:contract (*QUICStream).Write
//verif:optional
//verif:inline
//verif:nopanic C26.nopanic
func spec_streamWrite(s *QUICStream, b []byte) func(int, error) {
	v_streamPre(s, b)
	return func(n int, err error) {
		v_ensures("C26.sent", n == g_sent)
		v_ensures("C26.count", g_sum == v_one(s.qc.bytesSent == g_cnt, n)+v_one(s.qc.upBytesSent == g_cnt, n))
	}
}

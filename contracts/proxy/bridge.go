//verif:package proxy

package proxy

import (
	"io"
	"net"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

// Half-closed streams (property C28).

var (
	g_fwOut, g_fwIn net.Conn
	g_fwCopied      bool // io.Copy returned
	g_fwCopyErr     error
	g_fwOutClosed   bool
	g_fwInClosed    bool
	g_fwDeadline    time.Time
	g_fwDeadlineSet bool
)

//verif:model local io.Copy
func v_model_copy(dst io.Writer, src io.Reader) (int64, error) {
	v_assert("C28.copy", any(dst) == any(g_fwOut) && any(src) == any(g_fwIn) && !g_fwCopied && !g_fwOutClosed && !g_fwInClosed && !g_cwOK)
	g_fwCopied = true
	g_fwCopyErr = v_havoc[error]()
	return v_havoc[int64](), g_fwCopyErr
}

//verif:model local (net.Conn).Close
func v_model_close(c net.Conn) error {
	v_assert("C28.close", g_fwCopied && (c == g_fwOut || c == g_fwIn))
	if c == g_fwOut {
		g_fwOutClosed = true
	}
	if c == g_fwIn {
		g_fwInClosed = true
	}
	return v_havoc[error]()
}

//verif:model local (net.Conn).SetReadDeadline
func v_model_deadline(c net.Conn, t time.Time) error {
	if c == g_fwOut {
		g_fwDeadlineSet, g_fwDeadline = true, t
	}
	return v_havoc[error]()
}

// The write side of a connection is that of the connection underneath that has
// one to close.
type v_writeCloser interface{ CloseWrite() error }

func v_under(c net.Conn) net.Conn { return v_pure[net.Conn]("writeside", c) }

func v_unfoldUnder(c net.Conn) {
	if _, ok := c.(v_writeCloser); ok {
		v_assume(v_under(c) == c)
	} else if nc, ok := c.(*netw.Conn); ok {
		v_assume(v_under(c) == v_under(nc.Conn))
	}
}

var (
	g_cwOn any
	g_cwOK bool
)

//verif:model local (github.com/c2FmZQ/tlsproxy/proxy.closeWriter).CloseWrite
func v_model_closeWrite(c any) error {
	err := v_havoc[error]()
	g_cwOn, g_cwOK = c, err == nil
	return err
}

//verif:contract closeWrite
func spec_closeWrite(c net.Conn) func(error) {
	g_cwOn, g_cwOK = nil, false
	v_unfoldUnder(c)
	return func(err error) {
		v_ensures("C28.eof", v_imp(err == nil, g_cwOK && g_cwOn == any(v_under(c))))
		v_ensures("C28.eof", v_imp(err != nil, !g_cwOK))
	}
}

//verif:contract forward
//verif:covers C28.copy C28.close
func spec_forward(out net.Conn, in net.Conn, closeWhenDone bool, halfClosedTimeout time.Duration) func(error) {
	v_requires_l("C28.copy", out != nil && in != nil && out != in)
	g_fwOut, g_fwIn = out, in
	g_fwCopied, g_fwOutClosed, g_fwInClosed, g_cwOK, g_fwDeadlineSet = false, false, false, false, false
	start := v_now()
	return func(err error) {
		eof := g_cwOK && g_cwOn == any(v_under(out))
		both := g_fwOutClosed && g_fwInClosed
		// The receiver gets an end of stream.
		v_ensures("C28.eof", g_fwCopied && (g_fwOutClosed || eof))
		v_ensures("C28.both", v_imp(g_fwCopyErr != nil || closeWhenDone, both && err == g_fwCopyErr))
		v_ensures("C28.both", v_imp(!eof, both))
		v_ensures("C28.half", v_imp(g_fwCopyErr == nil && !closeWhenDone && !both, !g_fwOutClosed && !g_fwInClosed && eof && g_fwDeadlineSet && err == nil))
		v_ensures("C28.half", v_imp(g_fwDeadlineSet, g_fwDeadline.Sub(start) >= halfClosedTimeout && v_now().Sub(g_fwDeadline) <= -halfClosedTimeout))
	}
}

// The two directions. The goroutine reports on the channel when its direction
// is finished; the bridge returns after it has that report and has finished the
// other direction.

var (
	g_brClient, g_brServer net.Conn
	g_brBE                 *Backend
	g_brToClient           bool // the direction to the client is finished
	g_brToServer           bool
	g_brReported           bool
	g_brOn                 bool
)

func v_brTimeout(be *Backend) time.Duration {
	if be.HalfCloseTimeout != nil {
		return *be.HalfCloseTimeout
	}
	return time.Minute
}

//verif:before local forward
func v_before_forward(out net.Conn, in net.Conn, closeWhenDone bool, timeout time.Duration) {
	be := g_brBE
	if out == g_brClient {
		v_assert("C28.directions", in == g_brServer)
		v_assert("C28.config", closeWhenDone == (be.ServerCloseEndsConnection == nil || *be.ServerCloseEndsConnection))
	} else {
		v_assert("C28.directions", out == g_brServer && in == g_brClient)
		v_assert("C28.config", closeWhenDone == (be.ClientCloseEndsConnection != nil && *be.ClientCloseEndsConnection))
	}
	v_assert("C28.config", timeout == v_brTimeout(be))
}

//verif:after local forward
func v_after_forward(out net.Conn, in net.Conn, closeWhenDone bool, timeout time.Duration, err error) {
	if out == g_brClient {
		g_brToClient = true
	} else {
		g_brToServer = true
	}
}

//verif:send
func v_send_err(ch chan error, err error) {
	if g_brOn {
		v_assert("C28.finished", g_brToClient)
	}
}

//verif:recv
func v_recv_err(ch chan error, err error) { g_brReported = true }

//verif:contract (*Backend).bridgeConns
//verif:inline
//verif:covers C28.directions C28.config C28.finished
func spec_bridge(be *Backend, client, server net.Conn) func(error) {
	v_requires(be != nil && client != nil && server != nil && client != server)
	g_brOn, g_brBE, g_brClient, g_brServer = true, be, client, server
	g_brToClient, g_brToServer, g_brReported = false, false, false
	return func(err error) {
		v_ensures("C28.finished", g_brToServer && g_brReported)
	}
}

//verif:package proxy

package proxy

import (
	"context"
	"net"
	"sync"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
)

// Open connections and connections in flight (property C25).

//verif:closelabel C25.once
//verif:locked backendState.mu C25.locked
//verif:guard inFlightConn.mu be closed
//verif:locked inFlightConn.mu C25.locked
//verif:guard connTracker.mu conns*
//verif:locked connTracker.mu C25.locked

// The invariant of the hand-off: the channel is open for as long as the backend
// has its server.
func v_chanOpen(be *Backend) bool {
	return v_imp(be.httpServer != nil, !v_chanClosed(be.httpConnChan))
}

//verif:contract (*Backend).incInFlight
//verif:inline
//verif:covers C25.once C25.locked
func spec_incInFlight(be *Backend, delta int) func(int) {
	v_requires(be != nil && be.state != nil && v_chanOpen(be))
	n, srv, ch := be.state.inFlight, be.httpServer, be.httpConnChan
	was := v_chanClosed(ch)
	return func(r int) {
		end := srv != nil && be.state.shutdown && n+delta == 0
		v_ensures("C25.count", r == n+delta && be.state.inFlight == r)
		v_ensures("C25.close", v_chanClosed(ch) == (was || end))
		v_ensures("C25.close", be.httpConnChan == ch && v_chanOpen(be) && v_imp(!end, be.httpServer == srv))
	}
}

//verif:contract (*Backend).close
//verif:inline
//verif:covers C25.once C25.locked
func spec_beClose(be *Backend, ctx context.Context) func() {
	v_requires(be != nil && be.state != nil && v_chanOpen(be))
	n, srv, ch, sd := be.state.inFlight, be.httpServer, be.httpConnChan, be.state.shutdown
	was := v_chanClosed(ch)
	return func() {
		end := srv != nil && (ctx == nil || n == 0)
		v_ensures("C25.count", be.state.inFlight == n)
		v_ensures("C25.close", v_chanClosed(ch) == (was || end))
		v_ensures("C25.close", be.httpConnChan == ch && v_chanOpen(be) && v_imp(!end, be.httpServer == srv))
		// The channel of a closing backend will be closed when nothing
		// is in flight.
		v_ensures("C25.close", v_imp(be.httpServer != nil, be.state.shutdown))
		v_ensures("C25.close", v_imp(sd, be.state.shutdown))
	}
}

// A connection is counted once, and only if it is open: these two functions
// are atomic, so the count of a backend is the number of connections that are
// assigned to it and not closed.
var (
	g_incN     int
	g_incBE    *Backend
	g_incDelta int
)

//verif:before local (*Backend).incInFlight
func v_before_inc(be *Backend, delta int) {
	g_incN++
	g_incBE, g_incDelta = be, delta
}

//verif:contract (*inFlightConn).assign
//verif:inline
//verif:covers C25.locked
func spec_assign(c *inFlightConn, be *Backend) func(bool) {
	v_requires(c != nil && be != nil && be.state != nil && v_chanOpen(be))
	g_incN = 0
	// A connection is assigned at most once.
	v_requires(c.be == nil)
	closed := c.closed
	return func(ok bool) {
		v_ensures("C25.assign", ok == !closed)
		v_ensures("C25.assign", v_imp(ok, g_incN == 1 && g_incBE == be && g_incDelta == 1 && c.be == be && !c.closed))
		v_ensures("C25.assign", v_imp(!ok, g_incN == 0 && c.be == nil && c.closed))
	}
}

//verif:contract (*inFlightConn).close
//verif:inline
//verif:covers C25.locked
func spec_release(c *inFlightConn) func(*Backend) {
	v_requires(c != nil && v_imp(c.be != nil, c.be.state != nil && v_chanOpen(c.be)))
	g_incN = 0
	be, closed := c.be, c.closed
	return func(r *Backend) {
		v_ensures("C25.release", c.closed && c.be == be)
		v_ensures("C25.release", v_imp(be == nil || closed, g_incN == 0))
		v_ensures("C25.release", v_imp(be != nil && !closed, g_incN == 1 && g_incBE == be && g_incDelta == -1 && r == be))
	}
}

// The tracker of open connections.

// The connection underneath: a function of the connection (its layers do not
// change once it is tracked).
//
//verif:model local localNetConn
func v_model_underneath(c anyConn) net.Conn { return v_pure[net.Conn]("localNetConn", c) }

func v_connKey(c annotatedConnection) connKey {
	cc := localNetConn(c)
	return connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()}
}

var g_anyKey connKey

//verif:contract (*connTracker).add
//verif:covers C25.locked
func spec_trackerAdd(t *connTracker, c annotatedConnection) func(int) {
	v_requires_l("C04.tracked", c != nil)
	g_anyKey = v_havoc[connKey]()
	old, had := t.conns[g_anyKey]
	return func(n int) {
		v, ok := t.conns[g_anyKey]
		v_ensures("C25.tracker", n == len(t.conns))
		v_ensures("C25.tracker", v_imp(g_anyKey == v_connKey(c), ok && v == c))
		v_ensures("C25.tracker", v_imp(g_anyKey != v_connKey(c), ok == had && v == old))
	}
}

//verif:contract (*connTracker).remove
//verif:covers C25.locked
func spec_trackerRemove(t *connTracker, c annotatedConnection) func(int) {
	v_requires_l("C04.tracked", c != nil)
	g_anyKey = v_havoc[connKey]()
	old, had := t.conns[g_anyKey]
	return func(n int) {
		v, ok := t.conns[g_anyKey]
		v_ensures("C25.tracker", n == len(t.conns))
		v_ensures("C25.tracker", v_imp(g_anyKey == v_connKey(c), !ok))
		v_ensures("C25.tracker", v_imp(g_anyKey != v_connKey(c), ok == had && v == old))
	}
}

// The connection handlers.

var (
	g_limProxy  *Proxy
	g_limConn   annotatedConnection
	g_limOpen   bool     // tracked, below the limit
	g_limServed *Backend // the backend that the connection is counted on
	g_removed   annotatedConnection
	g_released  *inFlightConn
)

//verif:after (*connTracker).add
func v_after_add(t *connTracker, c annotatedConnection, n int) {
	if p := g_limProxy; p != nil && t == p.inConns && c == g_limConn && !g_limOpen {
		g_limOpen = n-1 < p.cfg.MaxOpen
	}
}

//verif:loopinv writes:g_limOpen C25.limit
func v_loop_limit() bool { return v_counted() }

// The invariant above is kept by incInFlight and close.
//
//verif:before (*inFlightConn).assign
func v_before_assign(c *inFlightConn, be *Backend) { v_assume(v_chanOpen(be)) }

//verif:after (*inFlightConn).assign
func v_after_assign(c *inFlightConn, be *Backend, ok bool) {
	if ok {
		g_limServed = be
	}
}

// v_counted: the connection may be served.
func v_counted() bool { return g_limProxy == nil || g_limOpen && g_limServed != nil }

//verif:before (*connTracker).remove
func v_before_remove(t *connTracker, c annotatedConnection) { g_removed = c }

//verif:before (*inFlightConn).close
func v_before_release(c *inFlightConn) { g_released = c }

//verif:closure call (*github.com/c2FmZQ/tlsproxy/proxy/internal/netw.Conn).OnClose
func spec_onClose(conn *netw.Conn, p *Proxy, a inFlightConn) func() {
	v_requires(conn != nil && p != nil && p.inConns != nil)
	v_requires(v_imp(a.be != nil, a.be.state != nil && v_chanOpen(a.be)))
	g_removed, g_released = nil, nil
	return func() {
		v_ensures("C25.onclose", g_removed == conn && g_released != nil)
	}
}

//verif:closure call (*github.com/c2FmZQ/tlsproxy/proxy/internal/netw.QUICConn).OnClose
func spec_onCloseQUIC(conn *netw.QUICConn, p *Proxy, a inFlightConn) func() {
	v_requires(conn != nil && p != nil && p.inConns != nil)
	v_requires(v_imp(a.be != nil, a.be.state != nil && v_chanOpen(a.be)))
	g_removed, g_released = nil, nil
	return func() {
		v_ensures("C25.onclose", g_removed == conn && g_released != nil)
	}
}

var _ net.Conn
var _ sync.Mutex

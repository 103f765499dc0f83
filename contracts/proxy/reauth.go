//verif:package proxy

package proxy

import (
	"crypto/x509"
	"net"
)

// Re-authorisation after a configuration change (property C04).

// The open connections, the one that was examined last, the decisions taken
// for it, and the connections that are dealt with: closed, or accepted by the
// backend that now serves their name and protocol.
var (
	g_open      []annotatedConnection
	g_cur       annotatedConnection
	g_settled   map[annotatedConnection]bool
	g_routed    map[annotatedConnection]*Backend
	g_ipOK      map[annotatedConnection]*Backend
	g_certOK    map[annotatedConnection]*Backend
	g_rechecked int
)

//verif:after (*connTracker).slice
func v_after_slice(t *connTracker, l []annotatedConnection) {
	g_open = l
}

// The tracker never holds a nil connection.
//
//verif:lockinv connTracker.mu C04.tracked
func v_inv_tracker(t *connTracker) bool {
	return v_all(func(k connKey) bool { c, ok := t.conns[k]; return !ok || c != nil })
}

//verif:loopinv (*connTracker).slice -1 C04.tracked
func v_loop_slice(out []annotatedConnection) bool {
	return v_forall(0, len(out), func(i int) bool { return out[i] != nil })
}

//verif:contract (*connTracker).slice
func spec_slice(t *connTracker) func([]annotatedConnection) {
	return func(out []annotatedConnection) {
		v_ensures("C04.tracked", v_forall(0, len(out), func(i int) bool { return out[i] != nil }))
	}
}

// v_settle: the examined connection is dealt with when its name and protocol
// were routed to be, be has the mode that the connection was set up for, and
// be accepts its peer and its certificate.
func v_settle(be *Backend) {
	c := g_cur
	if c == nil || be == nil || g_routed[c] != be || g_ipOK[c] != be {
		return
	}
	if old := connBackend(c); old != nil && old.Mode != be.Mode {
		return
	}
	if be.ClientAuth == nil || g_certOK[c] == be {
		g_settled[c] = true
	}
}

//verif:after (*Proxy).backend
func v_after_route(p *Proxy, serverName string, protos []string, be *Backend, err error) {
	g_rechecked = 1
	if err == nil {
		g_rtBackend, g_rtName, g_rtProto = be, serverName, ""
		if len(protos) == 1 {
			g_rtProto = protos[0]
		}
	}
	if c := g_cur; c != nil && err == nil && len(protos) == 1 && serverName == connServerName(c) && protos[0] == connProto(c) {
		g_routed[c] = be
		v_settle(be)
	}
}

func v_reauthIP(be *Backend, addr net.Addr, err error) {
	if c := g_cur; c != nil && err == nil && addr == c.RemoteAddr() {
		g_ipOK[c] = be
		v_settle(be)
	}
}

//verif:after (*Backend).authorize
func v_after_authorize(be *Backend, cert *x509.Certificate, err error) {
	if err == nil {
		g_authorized[v_certKey{be, cert}] = true
	}
	if c := g_cur; c != nil && err == nil && cert == connClientCert(c) {
		g_certOK[c] = be
		v_settle(be)
	}
}

// An open connection's annotations and address do not change while it is
// examined.
//
//verif:model (github.com/c2FmZQ/tlsproxy/proxy.annotatedConnection).Annotation
func v_model_annotation(c annotatedConnection, key string, def any) any {
	g_cur = c
	if v_pure[bool]("annotated", c, key) {
		return v_pure[any]("annotation", c, key)
	}
	return def
}

//verif:model (github.com/c2FmZQ/tlsproxy/proxy.annotatedConnection).RemoteAddr
func v_model_connRemote(c annotatedConnection) net.Addr { return v_pure[net.Addr]("remote", c) }

//verif:model (github.com/c2FmZQ/tlsproxy/proxy.annotatedConnection).Close
func v_model_connClose(c annotatedConnection) error {
	g_settled[c] = true
	return v_havoc[error]()
}

// v_dealtWith: the connection is closed or accepted, or it has no server name yet.
func v_dealtWith(c annotatedConnection) bool {
	return g_settled[c] || !v_pure[bool]("annotated", c, serverNameKey) || v_pure[any]("annotation", c, serverNameKey) == nil
}

//verif:loopinv writes:g_rechecked C04.rechecked
func v_loop_reauth(done int) bool {
	return v_forall(0, done, func(i int) bool { return v_dealtWith(g_open[i]) })
}

//verif:contract (*Proxy).reAuthorize
//verif:nopanic C04.nopanic
func spec_reAuthorize(p *Proxy) func() {
	v_requires(p != nil && p.inConns != nil)
	g_cur = nil
	v_assume(v_all(func(c annotatedConnection) bool { return !g_settled[c] }))
	return func() {
		v_ensures("C04.rechecked", v_forall(0, len(g_open), func(i int) bool { return v_dealtWith(g_open[i]) }))
	}
}

// Logging through a backend needs a backend.
//
//verif:contract (*Backend).logErrorF
func spec_logErrorF(be *Backend, format string, args ...any) func() {
	v_requires_l("C04.nopanic", be != nil)
	return func() {}
}

//verif:contract (*Backend).logConnF
func spec_logConnF(be *Backend, format string, args ...any) func() {
	v_requires_l("C04.nopanic", be != nil)
	return func() {}
}

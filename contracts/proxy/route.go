//verif:package proxy

package proxy

// Routing (property C08): the backend is the one registered for exactly this
// server name and the first offered protocol that has an entry, otherwise the
// name's default entry; nothing is returned for other names or for a backend
// that is shutting down.
//
//verif:contract (*Proxy).backend
//verif:nopanic C04.nopanic
func spec_backend(p *Proxy, serverName string, protos ...string) func(*Backend, error) {
	v_requires(p != nil)
	tbl := p.backends
	has := func(proto string) bool {
		_, ok := tbl[beKey{serverName: serverName, proto: proto}]
		return ok
	}
	some := v_exists(0, len(protos), func(i int) bool { return has(protos[i]) })
	return func(be *Backend, err error) {
		v_ensures("C08.found", v_imp(err == nil, be != nil))
		v_ensures("C08.error", v_imp(err != nil, be == nil))
		v_ensures("C08.proto", v_imp(err == nil && some, v_exists(0, len(protos), func(i int) bool {
			return has(protos[i]) && be == tbl[beKey{serverName: serverName, proto: protos[i]}] &&
				v_forall(0, i, func(j int) bool { return !has(protos[j]) })
		})))
		v_ensures("C08.default", v_imp(err == nil && !some, has("") && be == tbl[beKey{serverName: serverName}]))
		v_ensures("C08.unknown", v_imp(!some && !has(""), err != nil))
		v_ensures("C08.shutdown", v_imp(err == nil, !be.state.shutdown))
	}
}

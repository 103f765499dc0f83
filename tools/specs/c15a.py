exec(open('/verif/tools/specs/c15base.py').read())
id='C15-no-cookie'
edits=[(f,'''	state, ok := p.states[nonce]
	invalid := !ok || state.Seen || nonce != p.cm.Nonce(w, req)
''','''	state, ok := p.states[nonce]
	invalid := !ok || state.Seen
	if n := p.cm.Nonce(w, req); n != "" && n != nonce {
		invalid = true
	}
''')]
needs='a browser that has no nonce cookie'
breaks='a login that somebody else started completes in this browser'

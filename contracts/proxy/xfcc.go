//verif:package proxy

package proxy

import (
	"crypto/sha256"
	"encoding/hex"
	"net/http"
	"strings"
)

// The x-forwarded-client-cert header (property C29).
//
// A value is safe when a parser that honours quotes and backslashes ends it
// where the encoder did: either it is between quotes and its inside has no
// quote that is not escaped and no unfinished escape, or it has no separator
// and no such quote.

// rep: ReplaceAll for an old string of one byte, by its defining equations.
func v_rep(s, old, new string) string { return v_pure[string]("rep", s, old, new) }

func v_unfoldRep(s, old, new string) {
	if s == "" {
		v_assume(v_rep(s, old, new) == "")
		return
	}
	c := s[:1]
	if c == old {
		c = new
	}
	v_assume(v_rep(s, old, new) == c+v_rep(s[1:], old, new))
}

// closed: no quote that is not escaped and no unfinished escape.
func v_closed(e string) bool { return v_pure[bool]("closed", e) }

// unesc: the value without the escapes.
func v_unesc(e string) string { return v_pure[string]("unesc", e) }

func v_unfoldEsc(e string) {
	switch {
	case e == "":
		v_assume(v_closed(e) && v_unesc(e) == "")
	case e[:1] == `"`:
		v_assume(!v_closed(e))
	case e[:1] != `\`:
		v_assume(v_closed(e) == v_closed(e[1:]))
		v_assume(v_unesc(e) == e[:1]+v_unesc(e[1:]))
	case len(e) == 1:
		v_assume(!v_closed(e))
	default:
		v_assume(v_closed(e) == v_closed(e[2:]))
		v_assume(v_unesc(e) == e[1:2]+v_unesc(e[2:]))
	}
}

func v_esc(s string) string { return v_rep(v_rep(s, `\`, `\\`), `"`, `\"`) }

// By induction on the length of s.
func v_lemmaEsc(s string) {
	v_unfoldRep(s, `\`, `\\`)
	r := v_rep(s, `\`, `\\`)
	v_unfoldRep(r, `"`, `\"`)
	if s == "" {
		v_unfoldEsc("")
		return
	}
	v_lemmaEsc(s[1:])
	if s[:1] == `\` {
		v_unfoldRep(r[1:], `"`, `\"`)
	}
	v_unfoldEsc(v_esc(s))
}

//verif:contract v_lemmaEsc
func spec_lemmaEsc(s string) func() {
	return func() {
		v_ensures("C29.safe", v_closed(v_esc(s)))
		v_ensures("C29.injective", v_unesc(v_esc(s)) == s)
	}
}

var g_xfIn string

//verif:model local strings.ReplaceAll
func v_model_replaceAll(s, old, new string) string {
	v_assert("C29.safe", len(old) == 1)
	v_lemmaEsc(g_xfIn)
	return v_rep(s, old, new)
}

func v_quoted(v string) bool { return len(v) > 0 && v[:1] == `"` }

func v_safe(v string) bool {
	if v_quoted(v) {
		return len(v) >= 2 && v[len(v)-1:] == `"` && v_closed(v[1:len(v)-1])
	}
	return v_closed(v) && !strings.ContainsAny(v, ",;=")
}

func v_decode(v string) string {
	if v_quoted(v) {
		return v_unesc(v[1 : len(v)-1])
	}
	return v_unesc(v)
}

//verif:contract encodeXFCC
func spec_encodeXFCC(s string) func(string) {
	g_xfIn = s
	return func(r string) {
		v_unfoldEsc(r)
		v_ensures("C29.safe", v_safe(r))
		v_ensures("C29.injective", v_decode(r) == s)
	}
}

// The header: a list of KEY=VALUE, with safe values. Decided for an arbitrary
// element of the list.

var (
	g_xfReq  *http.Request
	g_xfHash string
	g_xfIdx  int
	g_xfName string // an arbitrary header
	g_xfJoin string
	g_xfSet  bool
	g_xfTop  bool // within addXFCCHeader
)

func v_keyed(f, key string) bool { return strings.HasPrefix(f, key) && v_safe(f[len(key):]) }

func v_fieldOK(f string) bool {
	if strings.HasPrefix(f, "Hash=") {
		return v_keyed(f, "Hash=") && v_decode(f[5:]) == g_xfHash
	}
	return v_keyed(f, "Cert=") || v_keyed(f, "Chain=") || v_keyed(f, "Subject=") || v_keyed(f, "URI=") || v_keyed(f, "DNS=")
}

//verif:loopinv addXFCCHeader -1 C29.fields
func v_loop_fields(fields []string) bool {
	return g_xfTop && v_imp(0 <= g_xfIdx && g_xfIdx < len(fields), v_fieldOK(fields[g_xfIdx]))
}

//verif:model local strings.Join
func v_model_join(a []string, sep string) string {
	if !g_xfTop {
		return v_havoc[string]()
	}
	v_assert("C29.fields", sep == ";")
	v_assert("C29.fields", v_imp(0 <= g_xfIdx && g_xfIdx < len(a), v_fieldOK(a[g_xfIdx])))
	g_xfJoin = v_havoc[string]()
	return g_xfJoin
}

//verif:model local (net/http.Header).Set
func v_model_hset(h http.Header, key, value string) {
	v_assert("C29.frame", key == xFCCHeader)
	v_assert("C29.fields", value == g_xfJoin)
	g_xfSet = true
}

//verif:model local (net/http.Header).Add
func v_model_hadd(h http.Header, key, value string) {
	v_assert("C29.frame", key == xFCCHeader)
	v_assert("C29.fields", !g_xfSet && value == g_xfJoin)
	g_xfSet = true
}

//verif:model local (net/http.Header).Del
func v_model_hdel(h http.Header, key string) {
	v_assert("C29.frame", key == xFCCHeader)
	g_xfSet = false
}

//verif:contract encodeXFCCSubject
func spec_encodeXFCCSubject(s string) func(string) {
	top := g_xfTop
	g_xfTop = false
	return func(r string) {
		g_xfTop = top
		v_ensures("C29.safe", v_safe(r))
	}
}

//verif:contract addXFCCHeader
func spec_addXFCCHeader(req *http.Request, which []string) func() {
	v_requires(req != nil && req.Header != nil)
	v_requires(v_imp(req.TLS != nil, v_forall(0, len(req.TLS.PeerCertificates), func(i int) bool { return req.TLS.PeerCertificates[i] != nil })))
	g_xfTop = true
	g_xfSet = false
	g_xfIdx = v_havoc[int]()
	if req.TLS != nil && len(req.TLS.PeerCertificates) > 0 {
		h := sha256.Sum256(req.TLS.PeerCertificates[0].Raw)
		g_xfHash = hex.EncodeToString(h[:])
	}
	return func() {
		v_ensures("C29.fields", v_imp(req.TLS == nil || len(req.TLS.PeerCertificates) == 0, !g_xfSet))
	}
}

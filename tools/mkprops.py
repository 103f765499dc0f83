#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept so that the list can be edited in one readable place.
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe]))
    if state: d["anchors"]["state"] = state
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "SSO gate: no protected path is served without an accepted identity",
 "On a backend with single sign-on, a request whose path (as sent, or after cleaning) is under a protected prefix reaches the backend server, a static file or a local endpoint not exempt from SSO only if it carries a verified identity that is fresh enough when forced re-authentication is configured (recent and issued for the same host) and whose e-mail or @domain is in the access list when there is one. The identity used is only ever one that came out of bearer-token or auth-cookie validation and has a non-empty e-mail.",
 ["inputs","configurations"], "every request (method, host, raw and cleaned path, headers, cookies) and every backend configuration (SSO paths, ACL, ForceReAuth, local handlers, path overrides)",
 "The tests log in with a handful of users and fetch a handful of paths; the gate has to hold for every path spelling, handler table, ACL and claim set.",
 ["proxy/backend-sso.go","proxy/backend-http.go"],
 [("SSO policy decision","proxy/backend-sso.go enforceSSOPolicy, pathMatches, authenticateUser, checkCookies"),("request pipeline","proxy/backend-http.go localHandler, reverseProxy, handleLocalEndpointsAndAuthorize")],
 "HTTP handler of a backend: which handler or upstream a request reaches")

prop("C02", "IP allow/deny lists decide, before service, on TCP and QUIC",
 "A client address in a backend's deny list is refused, an address outside a configured allow list is refused, any other IP address is accepted, and something that is not an IP address is refused. No TCP connection is passed to a backend's TLS server, forwarded, or handed to an HTTP server, and no QUIC connection is served or bridged, unless that check accepted the peer address first; certificate-validation (ACME) handshakes are the only exemption.",
 ["inputs","configurations"], "every peer address, every pair of CIDR lists, every backend mode and ClientHello",
 "Tests use loopback addresses and two or three CIDRs; the ordering of deny before allow and the presence of the check on every mode's path is a claim about all paths.",
 ["proxy/backend.go","proxy/proxy.go","proxy/quic.go"],
 [("list semantics","proxy/backend.go checkIP"),("applied on every path","proxy/proxy.go handleConnection, checkIP; proxy/quic.go handleQUICConnection")],
 "connections accepted, TLS handshakes started, backend dials")

prop("C03", "Client certificates: only authorised, unrevoked certificates get through",
 "With an access list, a client certificate is accepted only if its subject, or one of its DNS, e-mail or URI names with the matching prefix, is listed. On a backend with client authentication the TLS handshake completes only with a verified certificate that is not revoked by the issuing local PKI (or, for other issuers that publish an OCSP server, passes the OCSP check) and is authorised; after a handshake the connection is served only if the certificate is authorised and the negotiated server name is the one the backend was chosen for.",
 ["inputs","configurations"], "every certificate content, ACL, PKI revocation state and handshake result",
 "Tests present a few certificates; ACL matching must hold for all names and all list contents, and the revocation test must be on every accepting path.",
 ["proxy/backend.go","proxy/proxy.go"],
 [("ACL matching","proxy/backend.go authorize"),("handshake verification","proxy/proxy.go Reconfigure: VerifyConnection callback"),("post-handshake check","proxy/proxy.go authorizeTLSConnection")],
 "result of the TLS handshake verification callback; whether the connection is served")

prop("C04", "A configuration change re-checks every open connection and cannot crash",
 "After the configuration changes, every open connection whose server name is no longer served, whose backend changed mode, whose peer address is now refused, or whose client certificate (or lack of one) is not acceptable to an access list is closed. This re-check never panics, whatever the old and new configuration are.",
 ["configurations","histories"], "every set of open connections (with or without backend, client certificate) and every new configuration",
 "The tests reconfigure between two or three similar configurations; the re-check runs in its own goroutine, where a panic ends the whole process.",
 ["proxy/proxy.go"],
 [("re-authorisation","proxy/proxy.go reAuthorize")],
 "which connections are closed after Reconfigure; process liveness")

prop("C05", "HTTP requests for another host name are never forwarded",
 "A reverse-proxied request is forwarded to a backend server, or answered from a document root, only if the host name in the request is one of the server names configured for the backend that was selected in the TLS handshake. The host and scheme used for forwarding never come from the request target.",
 ["inputs","configurations"], "every Host header / :authority / absolute request target and every backend configuration",
 "Tests try one wrong host; domain-fronting protection is a claim about every request.",
 ["proxy/backend-http.go"],
 [("misdirected request check","proxy/backend-http.go reverseProxy handler")],
 "HTTP status 421 versus a forwarded request")

prop("C06", "Static files never escape the document root or expose hidden files",
 "A static file is opened only for GET or HEAD, only when a document root is configured, only when the request path is already in clean form, and only at the document root joined with the remaining path, none of whose elements starts with a dot or contains a backslash. Only regular files are served.",
 ["inputs","configurations"], "every request path and method, every document root and path prefix",
 "Tests fetch a few files and one or two traversal strings.",
 ["proxy/backend-http.go"],
 [("static file server","proxy/backend-http.go serveStaticFiles, pathClean")],
 "file paths passed to the operating system by the static file server")

prop("C07", "Identity and forwarding headers cannot be spoofed by clients",
 "The user-identity header that a backend sees is either absent or the e-mail of the identity that the proxy itself verified for that request; a client-supplied value is always removed first, and it is added only where the backend enables it. Client-supplied X-Forwarded-For and X-Forwarded-Client-Cert values are always removed, and the latter is added back only from the verified client certificate of a backend that configures it.",
 ["inputs","configurations"], "every set of request headers, SSO and client-certificate configurations",
 "Tests send one spoofed header; the guarantee is for every header set and every path through authentication.",
 ["proxy/backend-http.go","proxy/backend-sso.go","proxy/xfcc.go"],
 [("user id header","proxy/backend-sso.go authenticateUser"),("forwarded headers","proxy/backend-http.go reverseProxyDirector; proxy/xfcc.go addXFCCHeader")],
 "request headers seen by the backend")

prop("C08", "Server name and ALPN routing is exact; unknown or shut-down names fail",
 "A connection is routed to the backend registered for its exact server name and the first of its offered protocols that has an entry, otherwise to the name's default backend, otherwise it is rejected; a backend that is shutting down is never returned. The default server name is used only when the client sent none.",
 ["inputs","configurations"], "every server name, every protocol list, every routing table",
 "Tests route a dozen names; there are no wildcards or fallbacks only if that holds for all names.",
 ["proxy/proxy.go"],
 [("backend lookup","proxy/proxy.go backend"),("default server name","proxy/proxy.go handleConnection")],
 "which backend serves a connection")

prop("C09", "No ClientHello byte sequence crashes the parser or the connection handler",
 "Parsing the first bytes of a connection never indexes outside a buffer and never panics, whatever the client sends. On success the returned server name is the one in the hello's server name extension.",
 ["inputs"], "every byte sequence a client can send, however it is split",
 "Tests parse a few recorded hellos.",
 ["proxy/hello.go"],
 [("ClientHello peek","proxy/hello.go peekClientHello, readUint16LengthPrefixed, extractServerName")],
 "panics in the connection handler; returned server name")

prop("C10", "Sessions are accepted only from valid tokens for this provider and purpose",
 "A bearer token, session cookie or ID-token cookie is accepted only if its signature was verified by the proxy's own keys and its issuer, audience, purpose marker and subject are the ones this cookie manager issues: a session cookie must be marked for the proxy's own use by this identity provider, and a per-host ID token must be for the requesting host and for the same user and session as the session cookie. ID tokens meant for backends are never accepted as session cookies.",
 ["inputs","configurations"], "every token content and every cookie set",
 "Tests use tokens that the proxy just made; acceptance must be impossible for every other claim set.",
 ["proxy/internal/cookiemanager/cookiemanager.go"],
 [("validation","cookiemanager ValidateAuthTokenCookie, ValidateIDTokenCookie, ValidateAuthorizationHeader")],
 "whether a request counts as authenticated")

prop("C11", "Issued session tokens: reserved claims and cookie attributes are fixed",
 "Every session token issued after a login carries the proxy's issuer, audience, purpose, provider, host hash, session, subject and e-mail claims with the values of that login, no matter which extra claims an identity provider supplied. Every cookie that carries a token is Secure and HttpOnly, and removing the session cookie from a request before forwarding leaves all other cookies.",
 ["inputs"], "every extra-claim map, user id, host and cookie header",
 "Tests check one token; a claim map chosen by the identity provider must never override a reserved claim.",
 ["proxy/internal/cookiemanager/cookiemanager.go"],
 [("issuance","cookiemanager SetAuthTokenCookie, SetIDTokenCookie"),("filtering","cookiemanager FilterOutAuthTokenCookie")],
 "Set-Cookie headers and token claims")

prop("C12", "Redirect tokens work only in the browser session they were made for",
 "A login/logout redirect token is accepted only if its signature verifies, it names a redirect URL, and the session cookie presented with it has the session value recorded in the token. The redirect target is always the URL that was signed.",
 ["inputs"], "every token and cookie combination",
 "Tests replay the happy path only.",
 ["proxy/internal/tokenmanager/urltoken.go"],
 [("URL tokens","tokenmanager URLToken, ValidateURLToken")],
 "redirect target used for login")

prop("C13", "Tokens verify only under known unexpired keys and whitelisted algorithms",
 "A token's signature is checked only with one of the proxy's own public keys, looked up by its key id, and only when the token's algorithm is the one that belongs to that key. Unsigned tokens, unknown key ids and algorithm substitution are always rejected.",
 ["inputs","histories"], "every token header and every key set",
 "Tests check a few algorithms with fresh keys.",
 ["proxy/internal/tokenmanager/tokenmanager.go"],
 [("validation","tokenmanager ValidateToken, getKey"),("issuance","tokenmanager CreateToken")],
 "result of token validation")

prop("C14", "The local OIDC provider's codes are single use, bound and short-lived",
 "An authorization code is issued only to a logged-in user, for a registered client and one of its registered redirect addresses. The token endpoint returns tokens for a code at most once, only to the client it was issued to with that client's secret, only while the code is unexpired, and the tokens are the ones recorded for that code.",
 ["inputs","histories","schedules"], "every sequence of authorization and token requests, including concurrent ones",
 "Tests exchange one code once.",
 ["proxy/internal/oidc/server.go"],
 [("code issuance","oidc ServeAuthorization"),("code redemption","oidc ServeToken")],
 "HTTP responses of the authorization and token endpoints")

prop("C15", "OIDC logins complete only for this browser's own fresh login attempt",
 "A login through an external OpenID Connect provider yields a session only if the callback's state was created by this proxy, has not been used before and has not expired, the browser that returns is the one that started it, a nonce in the token is that attempt's, and the provider does not report the e-mail as unverified and, if one is configured, says that the user is in the hosted domain. The session is for the e-mail in the provider's token and the host of the URL first asked for.",
 ["inputs","histories"], "every callback request and every token response, after every history of login attempts",
 "Tests use a cooperative fake provider.",
 ["proxy/internal/oidc/client.go"],
 [("login request","oidc RequestLogin"),("callback","oidc HandleCallback")],
 "Set-Cookie of a session token; redirect")

prop("C16", "SAML logins need a signed, current assertion for this service and request",
 "A SAML response yields a session only if its assertion validates against the configured certificates, and - read from the validated assertion only - answers a pending request made at most five minutes ago that is then used up, names this service as recipient and audience, is within its validity period, and has a non-empty name identifier, which becomes the user.",
 ["inputs","histories"], "every response document, after every history of login attempts",
 "No test drives the callback with hostile documents.",
 ["proxy/internal/saml/saml.go"],
 [("callback","saml HandleCallback")],
 "Set-Cookie of a session token")

prop("C17", "Passkey logins require a fresh challenge, presence and a known key",
 "A passkey login yields a session only if the response carries a challenge that this proxy issued, that has not been used or expired, for this relying party, with user presence and verification flags, signed by the public key registered for that credential and user, and the user is allowed by the access list. A new key is registered only for the user in the attestation challenge.",
 ["inputs","histories"], "every assertion/attestation and history",
 "Tests use a software authenticator that always behaves.",
 ["proxy/internal/passkeys/manager.go","proxy/internal/passkeys/webauthn.go"],
 [("assertion","passkeys processAssertion"),("attestation","passkeys processAttestation")],
 "Set-Cookie of a session token; stored keys")

prop("C18", "PKI issuance: leaf certificates only, for the requesting user, and recorded",
 "Every certificate issued to a user is signed by the CA, is not a CA certificate and cannot sign certificates, has the fixed validity (starting now, at most ten years), carries the key of the request, names only the requester's e-mail as e-mail identity (its subject starts with it), and is durably recorded under its serial number before it is returned. Certificate requests with a bad signature, and requests from users without an e-mail claim, are refused.",
 ["inputs","histories"], "every certificate request and user",
 "Tests issue a few well-formed certificates.",
 ["proxy/internal/pki/pki.go","proxy/internal/pki/http.go"],
 [("issuance","pki IssueCertificate, ValidateCertificateRequest; http handleRequestCert")],
 "issued certificates and the stored database")

prop("C19", "PKI revocation is authorised, durable and visible in OCSP and CRL",
 "Once a revocation is acknowledged the serial number is reported revoked by every later check and OCSP answer and, until the certificate expires, is in every later revocation list; a revocation list is never served past its own next-update time. Through the web pages only the certificate's owner or a PKI administrator can revoke it, and an unknown serial number is never reported good. (The clock does not go backwards.)",
 ["histories","inputs"], "every history of issue and revoke operations, every request",
 "Tests revoke once and look at once; staleness depends on time.",
 ["proxy/internal/pki/pki.go","proxy/internal/pki/http.go"],
 [("revocation state","pki IsRevoked, RevokeCertificate, RevocationList, OCSPResponse")],
 "OCSP responses, CRL bytes, IsRevoked")

prop("C20", "SSH certificates are issued only to the logged-in user for that user",
 "An SSH certificate is issued only for a POST request by a user with a verified e-mail, is a user certificate whose only principal is that e-mail, contains the key in the request, and its validity does not exceed the maximum lifetime.",
 ["inputs"], "every request and user",
 "Tests issue a single certificate.",
 ["proxy/internal/sshca/sshca.go"],
 [("issuance","sshca ServeCertificate")],
 "bytes of the issued SSH certificate")

prop("C21", "OCSP checks fail closed and use answers for the right certificate",
 "A certificate chain passes the OCSP check only if some verified chain has, for every certificate that has an issuer in it and names an OCSP server, a good answer that is about that certificate, signed for that issuer and, if it names a next update, before that time. A missing or failing answer is an error, and cached answers are used only before their next-update time.",
 ["inputs","histories","fault_sequences"], "every chain, cache content and responder behaviour",
 "Tests run a single well-behaved responder.",
 ["proxy/internal/ocspcache/ocsp.go"],
 [("verification","ocspcache VerifyChains, Response, fetchOCSP")],
 "result of client or backend certificate verification")

prop("C22", "Backend dialing rotates addresses, bounds attempts and honours overrides",
 "Each dial uses only addresses of the selected backend or path override, tries at most as many times as there are addresses, moves the rotation forward by one for each attempt, and never indexes outside the address list even under concurrent dials. TLS to the backend uses the selected entry's server name, roots and verification settings, and a server certificate revoked by a local PKI or failing OCSP is refused.",
 ["inputs","configurations","schedules","fault_sequences"], "every address list, sequence of failures, interleaving",
 "Tests dial one or two healthy addresses.",
 ["proxy/backend.go","proxy/quic.go"],
 [("dialing","proxy/backend.go dial; proxy/quic.go dialQUICBackend")],
 "addresses dialed and TLS settings used")

prop("C23", "PROXY protocol and loop headers cannot be forged or mixed between clients",
 "A PROXY protocol header is honoured only from peers in the trusted networks, and is sent to a backend exactly when configured, with the addresses of the connection being forwarded; pooled upstream connections are shared only between requests with the same server name, path override and PROXY header. A request that already passed through this proxy is rejected as a loop, and every forwarded request is marked.",
 ["inputs","configurations"], "every peer address, header set and configuration",
 "Tests cover one trusted CIDR and one loop.",
 ["proxy/proxy.go","proxy/backend.go","proxy/backend-http.go"],
 [("trusted peers","proxy/proxy.go acceptProxyHeader, handleConnection"),("sending","proxy/backend.go dial, writeProxyHeader"),("pool isolation and loops","proxy/backend-http.go reverseProxy")],
 "addresses seen by backends, HTTP status 508")

prop("C24", "Accepted configurations are unambiguous and complete",
 "A configuration is accepted only if every backend has a known mode and the settings that mode needs, server name and protocol pairs are unique, every reference to an identity provider, bandwidth limit or PKI resolves, CIDR lists parse, and PROXY protocol versions are v1 or v2. An invalid configuration never replaces the running one.",
 ["configurations"], "every configuration",
 "Tests check some tens of configurations.",
 ["proxy/config.go","proxy/proxy.go"],
 [("validation","proxy/config.go Check, validateProxyProtoVersion"),("atomic switch","proxy/proxy.go Reconfigure")],
 "result of Check/Reconfigure, state of the proxy after an error")

prop("C25", "Open-connection limit and in-flight accounting are exact",
 "No connection is served while the number of other open connections is at or above the configured maximum, a connection is counted from accept to close exactly once, and a backend's in-flight count goes up once per connection assigned to it and down once when that connection closes. A closing backend's hand-off channel is closed at most once and only when no connection is in flight (or on hard stop).",
 ["schedules","histories"], "every interleaving of accepts, closes and reconfigurations",
 "Tests open a few connections.",
 ["proxy/proxy.go","proxy/conntracker.go","proxy/backend.go","proxy/internal/netw/netw.go"],
 [("tracker","proxy/conntracker.go add, remove"),("in flight","proxy/backend.go incInFlight, close"),("limit","proxy/proxy.go handleConnection; proxy/quic.go handleQUICConnection")],
 "connections refused, channel operations")

prop("C26", "Peeked bytes are delivered exactly once and in order",
 "Looking ahead at a connection's first bytes never loses, repeats or reorders data: what is later read is the peeked bytes followed by the rest of the stream, a peek returns a prefix of exactly that, and read and write byte counts equal the bytes delivered.",
 ["inputs","histories"], "every sequence of peeks and reads with every buffer size and split",
 "Tests peek once with one size.",
 ["proxy/internal/netw/netw.go"],
 [("peek buffer","netw Conn.Peek, Conn.Read, Conn.Write")],
 "bytes returned by Peek and Read")

prop("C27", "Byte/connection counters never lose increments and rates stay in bounds",
 "A counter's value is always the sum of all increments, rate queries never index outside the history or divide by zero, and moving time forward by any amount keeps the total.",
 ["histories","inputs"], "every sequence of increments and clock readings",
 "Tests use a few fixed clock steps.",
 ["proxy/internal/counter/counter.go"],
 [("ring buffer","counter Incr, Value, Rate, advance")],
 "values shown in metrics")

prop("C28", "Half-closed streams: an end of data in one direction is relayed",
 "When one side of a bridged connection finishes sending, the other side gets an end of stream; both directions are closed when copying failed, when configured to end on close, or when a half close is impossible, and otherwise the remaining direction gets a deadline. The bridge returns only after both directions finished.",
 ["schedules","fault_sequences","configurations"], "every order of closes, errors and configuration",
 "Tests close in two orders.",
 ["proxy/backend.go"],
 [("bridging","proxy/backend.go bridgeConns, forward, closeWrite, closeRead")],
 "close/half-close calls on the two connections")

prop("C29", "Client certificate header encoding is injective and injection-safe",
 "In the forwarded client-certificate header every value taken from the certificate is quoted and escaped, so that no certificate content can close the quotes and add or change another field. The certificate hash field is the SHA-256 of the certificate presented on that connection.",
 ["inputs"], "every certificate content",
 "Tests encode two certificates.",
 ["proxy/xfcc.go"],
 [("encoding","proxy/xfcc.go addXFCCHeader, encodeXFCC, encodeXFCCSubject")],
 "value of the X-Forwarded-Client-Cert header")

prop("C30", "Graceful shutdown finishes and leaks no connection",
 "After a shutdown request every HTTP connection is eventually drained or closed, the process's listeners stop accepting, and the shutdown call returns at the latest when its deadline passes.",
 ["schedules","fault_sequences"], "every schedule of in-flight requests and goroutines",
 "Liveness under every schedule; tests shut down an idle proxy.",
 ["proxy/proxy.go"],
 [("shutdown","proxy/proxy.go Shutdown, Stop")],
 "return of Shutdown, open sockets")

prop("C31", "No data race between request handling and reconfiguration",
 "Concurrent connections, requests, metrics queries and configuration changes never read a shared value while another goroutine writes it without synchronisation.",
 ["schedules"], "every interleaving",
 "The race detector sees only the schedules that ran.",
 ["proxy/proxy.go","proxy/backend.go","proxy/internal/tokenmanager/tokenmanager.go"],
 [("locking","proxy/proxy.go Proxy.mu, proxy/backend.go state.mu")],
 "race reports")

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

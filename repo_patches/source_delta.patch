From b2fb31fb15e370d5a3e4689057ff6e18013ad2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 01/14] fix: do not crash in reAuthorize when a name, backend
 or client certificate is gone

After a configuration change, reAuthorize dereferenced a nil Backend when an
open connection's server name was no longer served, a nil Backend when the
connection was still being set up, and a nil certificate when the new
configuration has a client ACL and the connection has no client certificate.
It runs in its own goroutine, so each of them ended the process.
---
 proxy/backend.go | 3 +++
 proxy/proxy.go   | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 4187ce7..915ca4e 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -219,6 +219,9 @@ func (be *Backend) authorize(cert *x509.Certificate) error {
 	if be.ClientAuth == nil || be.ClientAuth.ACL == nil {
 		return nil
 	}
+	if cert == nil {
+		return tlsCertificateRequired
+	}
 	if subject := cert.Subject.String(); subject != "" && (slices.Contains(*be.ClientAuth.ACL, subject) || slices.Contains(*be.ClientAuth.ACL, "SUBJECT:"+subject)) {
 		return nil
 	}
diff --git a/proxy/proxy.go b/proxy/proxy.go
index fd4c9bc..59d9e06 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -872,11 +872,11 @@ func (p *Proxy) reAuthorize() {
 		be, err := p.backend(serverName, proto)
 		if err != nil {
 			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
+			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
 			conn.Close()
 			continue
 		}
-		if oldBE := connBackend(conn); be.Mode != oldBE.Mode {
+		if oldBE := connBackend(conn); oldBE != nil && be.Mode != oldBE.Mode {
 			be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
 			conn.Close()
 			continue
-- 
2.43.0


From 4f673e01698c146fc42d33d17a1bd053427c93a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 02/14] fix: do not dereference a nil Backend when a QUIC
 connection has no route

The error path logged through the nil Backend, so the connection handler
panicked instead of closing the connection with quicUnrecognizedName.
---
 proxy/quic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/quic.go b/proxy/quic.go
index f05fe8e..2cea290 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -158,7 +158,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
 	if err != nil {
 		p.recordEvent(err.Error())
-		be.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
+		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
-- 
2.43.0


From aa6cd90134583c72163abd39ceb6aa4db3a7c98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 03/14] fix: reject HTTP requests with an opaque request target

---
 proxy/backend-http.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 2c136c7..52a6a47 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -204,6 +204,15 @@ func (be *Backend) reverseProxy() http.Handler {
 				be.logPanic(req, r)
 			}
 		}()
+		// A request target like "a:b" has no path and no host that can
+		// be checked, but it would be forwarded as is.
+		if req.URL.Opaque != "" {
+			if req.Body != nil {
+				req.Body.Close()
+			}
+			http.Error(w, "Bad Request", http.StatusBadRequest)
+			return
+		}
 		if !be.authenticateUser(w, &req) {
 			return
 		}
-- 
2.43.0


From 713be89c2e248096d6786c1b85d0b90869ddd977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 04/14] fix: do not index an empty TLS record in
 peekClientHello

---
 proxy/hello.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/hello.go b/proxy/hello.go
index 0ba263a..951269e 100644
--- a/proxy/hello.go
+++ b/proxy/hello.go
@@ -73,6 +73,9 @@ func peekClientHello(c peeker) (hello clientHello, err error) {
 	//          ...
 	//      };
 	// } Handshake;
+	if len(buf) == 0 {
+		return hello, errors.New("empty packet")
+	}
 	if buf[0] != 0x01 { // ClientHello
 		return hello, fmt.Errorf("msg_type 0x%x != 0x01", buf[0])
 	}
-- 
2.43.0


From 86651b83911c5dee2ba463f6f20f8c24c1259ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:47 +0000
Subject: [PATCH 05/14] fix: keep the in-flight count exact when a connection
 closes early

A connection can be closed by another goroutine (reconfiguration, shutdown,
or the QUIC peer) at any time after OnClose is called. When that happened
before the connection was assigned to its backend, the in-flight count of the
backend was incremented after the close callback had run and was never
decremented, so a replaced backend would never be released.
---
 proxy/conntracker.go | 37 +++++++++++++++++++++++++++++++++++++
 proxy/proxy.go       |  8 +++++---
 proxy/quic.go        |  8 +++++---
 3 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/proxy/conntracker.go b/proxy/conntracker.go
index 1c8b41b..9b1ad27 100644
--- a/proxy/conntracker.go
+++ b/proxy/conntracker.go
@@ -70,3 +70,40 @@ func (t *connTracker) remove(c annotatedConnection) int {
 	delete(t.conns, connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()})
 	return len(t.conns)
 }
+
+// inFlightConn counts a connection as in flight on the backend it is assigned
+// to. The connection can be closed at any time, including before it is assigned
+// to a backend.
+type inFlightConn struct {
+	mu     sync.Mutex
+	be     *Backend
+	closed bool
+}
+
+// assign counts the connection as in flight on be, unless the connection is
+// already closed.
+func (c *inFlightConn) assign(be *Backend) bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if c.closed {
+		return false
+	}
+	c.be = be
+	be.incInFlight(1)
+	return true
+}
+
+// close must be called when the connection is closed. It returns the backend
+// that the connection was assigned to, if any.
+func (c *inFlightConn) close() *Backend {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if c.closed {
+		return nil
+	}
+	c.closed = true
+	if c.be != nil {
+		c.be.incInFlight(-1)
+	}
+	return c.be
+}
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 59d9e06..237fe7e 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1138,10 +1138,10 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		conn.Conn = cc
 	}
 	numOpen := p.inConns.add(conn)
+	var inFlight inFlightConn
 	conn.OnClose(func() {
 		p.inConns.remove(conn)
-		if be := connBackend(conn); be != nil {
-			be.incInFlight(-1)
+		if be := inFlight.close(); be != nil {
 			if conn.Annotation(reportEndKey, false).(bool) {
 				startTime := conn.Annotation(startTimeKey, time.Time{}).(time.Time)
 				be.logConnF("END %s; Dur:%s Recv:%d Sent:%d",
@@ -1180,7 +1180,9 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		return
 	}
 	conn.SetAnnotation(backendKey, be)
-	be.incInFlight(1)
+	if !inFlight.assign(be) {
+		return
+	}
 	p.setCounters(conn, serverName)
 	if l := be.bwLimit; l != nil {
 		conn.SetLimiters(l.ingress, l.egress)
diff --git a/proxy/quic.go b/proxy/quic.go
index 2cea290..fc8b2c0 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -127,10 +127,10 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	defer qc.Close()
 
 	numOpen := p.inConns.add(qc)
+	var inFlight inFlightConn
 	qc.OnClose(func() {
 		p.inConns.remove(qc)
-		if be := connBackend(qc); be != nil {
-			be.incInFlight(-1)
+		if be := inFlight.close(); be != nil {
 			startTime := qc.Annotation(startTimeKey, time.Time{}).(time.Time)
 			be.logConnF("END %s; Dur:%s Recv:%d Sent:%d",
 				formatConnDesc(qc), time.Since(startTime).Truncate(time.Millisecond),
@@ -162,8 +162,10 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
-	be.incInFlight(1)
 	qc.SetAnnotation(backendKey, be)
+	if !inFlight.assign(be) {
+		return
+	}
 	p.setCounters(qc, cs.ServerName)
 
 	if numOpen >= p.cfg.MaxOpen {
-- 
2.43.0


From 8a1617fb78696eedac431e9d92df227bc09fd80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:08 +0000
Subject: [PATCH 06/14] fix: require the nonce of the login attempt in OIDC ID
 tokens

---
 proxy/internal/oidc/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index 872b074..a225cef 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -303,6 +303,11 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 	if claims.Nonce == "" {
 		claims.Nonce = nonce
 	}
+	if claims.Nonce != nonce {
+		p.er.Record("invalid nonce")
+		http.Error(w, "invalid nonce", http.StatusForbidden)
+		return
+	}
 	p.mu.Lock()
 	state, ok = p.states[claims.Nonce]
 	delete(p.states, claims.Nonce)
-- 
2.43.0


From fa376b70c0edd376542b564fd60fdca20cfbac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:42 +0000
Subject: [PATCH 07/14] fix: only accept OCSP answers about the certificate
 that was asked about

A responder's answer was accepted, and cached for the certificate, whatever
serial number it was about: a "good" answer for any other certificate of the
same issuer made a revoked certificate pass.
---
 proxy/internal/ocspcache/ocsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index be2bc54..ea257a1 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -243,7 +243,7 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR body: %v", err)
 		return nil, errOCSPProtocol
 	}
-	ocspResp, err := ocsp.ParseResponse(body, issuer)
+	ocspResp, err := ocsp.ParseResponseForCert(body, cert, issuer)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
-- 
2.43.0


From e9bfca4dbd78b0d8fc1ce69c062dfe7e92f467f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:42 +0000
Subject: [PATCH 08/14] fix: refuse expired OCSP answers from responders

OCSP runs over plain HTTP. An old "good" answer, replayed after its
next-update time, was accepted for a certificate revoked since.
---
 proxy/internal/ocspcache/ocsp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index ea257a1..3c63414 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -248,5 +248,9 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
 	}
+	if !ocspResp.NextUpdate.IsZero() && !time.Now().Before(ocspResp.NextUpdate) {
+		c.logger.Errorf("ERR OCSP response for %s from %s expired %s", cert.Subject, server, ocspResp.NextUpdate)
+		return nil, errOCSPProtocol
+	}
 	return ocspResp, nil
 }
-- 
2.43.0


From 96985e6dc397033a77cbff09170dcb69d0ed01d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:42 +0000
Subject: [PATCH 09/14] fix: no OCSP answer without an OCSP server

Response returned a nil response and a nil error for a certificate that names
no OCSP server. With OCSP stapling enabled, each handshake with such a
certificate dereferenced the nil pointer.
---
 proxy/internal/ocspcache/ocsp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index 3c63414..60a3a21 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -204,6 +204,9 @@ func (c *OCSPCache) Response(cert, issuer *x509.Certificate, margin time.Duratio
 }
 
 func (c *OCSPCache) fetchOCSP(cert, issuer *x509.Certificate) (*ocsp.Response, error) {
+	if len(cert.OCSPServer) == 0 {
+		return nil, errOCSPUnknown
+	}
 	ocspReq, err := ocsp.CreateRequest(cert, issuer, nil)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.CreateRequest: %v", err)
-- 
2.43.0


From 38399c4627c4d5b14791ecb77308386b3a0003fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:42 +0000
Subject: [PATCH 10/14] fix: OCSP check fails closed on internal errors

An internal error, e.g. a malformed OCSP URL in the certificate, was taken for
a good answer.
---
 proxy/internal/ocspcache/ocsp.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index 60a3a21..f76e933 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -155,9 +155,6 @@ nextChain:
 				issuer = chain[i+1]
 			}
 			resp, err := c.Response(cert, issuer, 0)
-			if err == errOCSPInternal {
-				continue
-			}
 			if err != nil {
 				lastError = err
 				continue nextChain
-- 
2.43.0


From 0e594524cdd25fb7bcfd0869f352b121b43b9688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:46 +0000
Subject: [PATCH 11/14] fix: refresh the revocation list before its next-update
 time

The list was served until half an hour after its next-update time instead of
being refreshed half an hour before it.
---
 proxy/internal/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index c2111f9..ab7b433 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -509,7 +509,7 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(crlRefreshPeriod/2).After(now) {
+		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From 4a77afe8cc0cc24d795e01caeb66efdc052cbd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:15 +0000
Subject: [PATCH 12/14] fix: include revocations of the same second in the
 revocation list

Revocation times and the time of the list have a resolution of one second. A
certificate revoked in the second in which the list was made was missing until
the next refresh.
---
 proxy/internal/pki/pki.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index ab7b433..4b14328 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -498,18 +498,19 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 	now := time.Now().UTC()
 
 	if len(m.db.RevocationLists) > 0 {
-		var lastRevocation time.Time
-		for _, c := range m.db.IssuedCerts {
-			if c.Revocation != nil && c.Revocation.Time.After(lastRevocation) {
-				lastRevocation = c.Revocation.Time
-			}
-		}
 		last := m.db.RevocationLists[len(m.db.RevocationLists)-1]
 		rl, err := x509.ParseRevocationList(last.RawCRL)
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
+		// Times have a resolution of one second.
+		missing := slices.ContainsFunc(m.db.IssuedCerts, func(c *certificate) bool {
+			return c.Revocation != nil && !c.Revocation.Time.Before(rl.ThisUpdate) &&
+				!slices.ContainsFunc(rl.RevokedCertificateEntries, func(e x509.RevocationListEntry) bool {
+					return bytesToHex(e.SerialNumber.Bytes()) == c.SerialNumber
+				})
+		})
+		if !missing && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From 7ec5301925f7197ad034dcc29f2e3d9dffde8710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:46 +0000
Subject: [PATCH 13/14] fix: no PKI certificates for users without an e-mail
 address

A user whose claims have no e-mail address got a certificate with an empty
identity.
---
 proxy/internal/pki/http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/internal/pki/http.go b/proxy/internal/pki/http.go
index dadb055..d21aa99 100644
--- a/proxy/internal/pki/http.go
+++ b/proxy/internal/pki/http.go
@@ -348,6 +348,10 @@ func (m *PKIManager) handleRequestCert(w http.ResponseWriter, req *http.Request)
 		return
 	}
 	email, _ := claims["email"].(string)
+	if email == "" {
+		http.Error(w, "permission denied", http.StatusForbidden)
+		return
+	}
 
 	if req.Method != http.MethodPost {
 		m.opts.Logger.Errorf("ERR method: %v", req.Method)
-- 
2.43.0


From b22d59f3759741bfc61007a272796e2469787895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:46 +0000
Subject: [PATCH 14/14] fix: lock the PKI database to check the delegate
 certificate

maybeRotateDelegateCert read the database without its lock while other requests
were reloading it.
---
 proxy/internal/pki/pki.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index 4b14328..a095619 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -384,27 +384,30 @@ func (m *PKIManager) parseKeyBytes(b []byte) (any, error) {
 	return x509.ParsePKCS8PrivateKey(b)
 }
 
-func (m *PKIManager) maybeRotateDelegateCert() error {
+// needDelegateCert returns whether a new delegate certificate is needed, and
+// the CA's certificate.
+func (m *PKIManager) needDelegateCert(now time.Time) (bool, *x509.Certificate, error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	if m.db == nil {
-		return errors.New("no ca")
+		return false, nil, errors.New("no ca")
 	}
-	now := time.Now().UTC()
-
-	var needUpdate bool
-	if len(m.db.DelegateCerts) == 0 {
-		needUpdate = true
-	} else {
-		c, err := m.db.DelegateCerts[0].parse()
-		if err != nil || c.NotBefore.Add(c.NotAfter.Sub(c.NotBefore)/2).Before(now) || c.PublicKeyAlgorithm == x509.Ed25519 {
-			needUpdate = true
-		}
+	caCert, err := m.db.CACert.parse()
+	if err != nil {
+		return false, nil, err
 	}
-	if !needUpdate {
-		return nil
+	if len(m.db.DelegateCerts) == 0 {
+		return true, caCert, nil
 	}
+	c, err := m.db.DelegateCerts[0].parse()
+	return err != nil || c.NotBefore.Add(c.NotAfter.Sub(c.NotBefore)/2).Before(now) || c.PublicKeyAlgorithm == x509.Ed25519, caCert, nil
+}
 
-	caCert, err := m.db.CACert.parse()
-	if err != nil {
+func (m *PKIManager) maybeRotateDelegateCert() error {
+	now := time.Now().UTC()
+	needUpdate, caCert, err := m.needDelegateCert(now)
+	if err != nil || !needUpdate {
 		return err
 	}
 
-- 
2.43.0


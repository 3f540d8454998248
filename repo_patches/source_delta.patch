From 4726ef37b796d2cfc4f254a73469fa781d3ea379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 01/71] fix: try each backend address at most once per dial, so
 that concurrent dials don't skip a healthy one

---
 proxy/backend.go | 7 +++++++
 proxy/quic.go    | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/proxy/backend.go b/proxy/backend.go
index 4187ce7..fd9b159 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -131,12 +131,19 @@ func (be *Backend) dial(ctx context.Context, protos ...string) (net.Conn, error)
 		},
 	}
 	var max int
+	tried := make(map[int]bool, len(addresses))
 	for {
 		be.state.mu.Lock()
 		sz := len(addresses)
 		if max == 0 {
 			max = sz
 		}
+		// Other connections also move next. Make sure that each address
+		// is tried at most once.
+		for tried[*next] {
+			*next = (*next + 1) % sz
+		}
+		tried[*next] = true
 		addr := addresses[*next]
 		*next = (*next + 1) % sz
 		be.state.mu.Unlock()
diff --git a/proxy/quic.go b/proxy/quic.go
index f05fe8e..88c23eb 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -544,12 +544,19 @@ func (be *Backend) dialQUICBackend(ctx context.Context, proto string) (*netw.QUI
 	}
 
 	var max int
+	tried := make(map[int]bool, len(addresses))
 	for {
 		be.state.mu.Lock()
 		sz := len(addresses)
 		if max == 0 {
 			max = sz
 		}
+		// Other connections also move next. Make sure that each address
+		// is tried at most once.
+		for tried[*next] {
+			*next = (*next + 1) % sz
+		}
+		tried[*next] = true
 		addr := addresses[*next]
 		*next = (*next + 1) % sz
 		be.state.mu.Unlock()
-- 
2.43.0


From 862016be774b50650a93471d675e3e47e103200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 02/71] fix: propagate half-closes to clients that connect with
 the PROXY protocol

---
 proxy/backend.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proxy/backend.go b/proxy/backend.go
index fd9b159..b218c8d 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -338,6 +338,9 @@ func closeWrite(c net.Conn) error {
 	if cc, ok := c.(*netw.Conn); ok {
 		return closeWrite(cc.Conn)
 	}
+	if cc, ok := c.(*proxyproto.Conn); ok {
+		return closeWrite(cc.Raw())
+	}
 	return fmt.Errorf("unexpected type: %T", c)
 }
 
@@ -351,5 +354,8 @@ func closeRead(c net.Conn) error {
 	if cc, ok := c.(*netw.Conn); ok {
 		return closeRead(cc.Conn)
 	}
+	if cc, ok := c.(*proxyproto.Conn); ok {
+		return closeRead(cc.Raw())
+	}
 	return nil
 }
-- 
2.43.0


From 420fa66d4323456cb7f5c5220c9be05790146fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 03/71] fix: don't add Accept-Encoding to requests forwarded
 with HTTP/1.1 and don't decode the responses

---
 proxy/backend-http.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 2c136c7..d2c0e23 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -477,6 +477,7 @@ func (be *Backend) reverseProxyTransport() http.RoundTripper {
 		DialTLSContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
 			return be.dial(ctx)
 		},
+		DisableCompression:    true,
 		MaxIdleConns:          100,
 		IdleConnTimeout:       10 * time.Second,
 		ExpectContinueTimeout: 1 * time.Second,
-- 
2.43.0


From 1aca0c4f29361112cb979f8eb32f7c946b9c035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 04/71] fix: look at all the Via headers when detecting
 forwarding loops

---
 proxy/backend-http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index d2c0e23..5551b48 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -301,7 +301,7 @@ func (be *Backend) reverseProxy() http.Handler {
 		// Detect forwarding loops using the via headers.
 		me := localNetConn(req.Context().Value(connCtxKey).(anyConn)).LocalAddr().String()
 		var hops []string
-		if h := req.Header.Get(viaHeader); h != "" {
+		if h := strings.Join(req.Header.Values(viaHeader), ", "); h != "" {
 			hops = commaRE.Split(h, -1)
 		}
 		for _, via := range hops {
-- 
2.43.0


From 01af14576aa01cc74f66b788564b21132058bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 05/71] fix: abort responses that the backend truncated instead
 of ending them cleanly

---
 proxy/backend-http.go | 6 ++++++
 proxy/quic.go         | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 5551b48..b9e9c58 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -80,6 +80,9 @@ func (be *Backend) localHandler() http.Handler {
 		defer func() {
 			if r := recover(); r != nil {
 				be.logPanic(req, r)
+				// Abort the response so that the client
+				// doesn't mistake it for a complete one.
+				panic(http.ErrAbortHandler)
 			}
 		}()
 		if !be.authenticateUser(w, &req) {
@@ -202,6 +205,9 @@ func (be *Backend) reverseProxy() http.Handler {
 		defer func() {
 			if r := recover(); r != nil {
 				be.logPanic(req, r)
+				// Abort the response so that the client
+				// doesn't mistake it for a complete one.
+				panic(http.ErrAbortHandler)
 			}
 		}()
 		if !be.authenticateUser(w, &req) {
diff --git a/proxy/quic.go b/proxy/quic.go
index 88c23eb..fde1994 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -606,6 +606,9 @@ func http3Server(handler http.Handler) *http3.Server {
 			if _, ok := c.(*netw.QUICConn); !ok {
 				panic(fmt.Sprintf("http3.Server.ConnContext called with: %#v", c))
 			}
+			// httputil.ReverseProxy only aborts truncated responses
+			// when this key is set.
+			ctx = context.WithValue(ctx, http.ServerContextKey, &http.Server{})
 			return context.WithValue(ctx, connCtxKey, c)
 		},
 		EnableDatagrams: false,
-- 
2.43.0


From 419833f54effd5b53ef151b7544275572bff9de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 06/71] fix: forward the other cookies unchanged when filtering
 out the auth cookies

---
 proxy/internal/cookiemanager/cookiemanager.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/proxy/internal/cookiemanager/cookiemanager.go b/proxy/internal/cookiemanager/cookiemanager.go
index f989cbc..761ccb2 100644
--- a/proxy/internal/cookiemanager/cookiemanager.go
+++ b/proxy/internal/cookiemanager/cookiemanager.go
@@ -246,13 +246,21 @@ func (cm *CookieManager) ValidateAuthorizationHeader(req *http.Request) (*jwt.To
 }
 
 func FilterOutAuthTokenCookie(req *http.Request, names ...string) {
-	cookies := req.Cookies()
-	req.Header.Del("Cookie")
-	for _, c := range cookies {
-		if c.Name != tlsProxyAuthCookie && !slices.Contains(names, c.Name) {
-			req.AddCookie(c)
+	var cookies []string
+	for _, line := range req.Header.Values("Cookie") {
+		for _, c := range strings.Split(line, ";") {
+			c = strings.TrimSpace(c)
+			name, _, _ := strings.Cut(c, "=")
+			name = strings.TrimSpace(name)
+			if c != "" && name != tlsProxyAuthCookie && !slices.Contains(names, name) {
+				cookies = append(cookies, c)
+			}
 		}
 	}
+	req.Header.Del("Cookie")
+	if len(cookies) > 0 {
+		req.Header.Set("Cookie", strings.Join(cookies, "; "))
+	}
 }
 
 func audienceFromReq(req *http.Request) string {
-- 
2.43.0


From 80ac03b476fb10a9429484923bac357517d417cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 07/71] fix: don't forward the auth cookies for paths that are
 not covered by the SSO policy

---
 proxy/backend-http.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index b9e9c58..958b6f6 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -45,6 +45,9 @@ import (
 	"time"
 
 	"golang.org/x/net/http2"
+
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
 )
 
 const (
@@ -296,6 +299,13 @@ func (be *Backend) reverseProxy() http.Handler {
 			return
 		}
 
+		// The auth cookies are for the proxy itself. They must not be
+		// sent to the backend, whether the SSO policy applies to this
+		// path or not.
+		if be.SSO != nil {
+			cookiemanager.FilterOutAuthTokenCookie(req, tokenmanager.SessionIDCookieName)
+		}
+
 		hostKey := bytes.NewBufferString(serverName + ";" + override)
 		if proxyProtoVersion > 0 {
 			hostKey.WriteByte(';')
-- 
2.43.0


From b19d10054f613449e0a783952e8ef248acaed4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 08/71] fix: don't let clients remove the proxy's headers with
 the Connection header

---
 proxy/backend-http.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 958b6f6..86a0728 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -213,6 +213,7 @@ func (be *Backend) reverseProxy() http.Handler {
 				panic(http.ErrAbortHandler)
 			}
 		}()
+		removeConnectionHeaders(req.Header)
 		if !be.authenticateUser(w, &req) {
 			return
 		}
@@ -370,6 +371,23 @@ func (be *Backend) reverseProxy() http.Handler {
 	})
 }
 
+// removeConnectionHeaders removes the headers that are listed in the Connection
+// header. They must be removed before the proxy adds its own headers. Otherwise,
+// clients could use the Connection header to remove those.
+func removeConnectionHeaders(h http.Header) {
+	tokens := strings.Split(strings.Join(h.Values("Connection"), ","), ",")
+	h.Del("Connection")
+	for _, t := range tokens {
+		switch t = strings.TrimSpace(t); strings.ToLower(t) {
+		case "", "te":
+		case "upgrade":
+			h.Set("Connection", t)
+		default:
+			h.Del(t)
+		}
+	}
+}
+
 func addr2ip(addr net.Addr) string {
 	switch a := addr.(type) {
 	case *net.TCPAddr:
-- 
2.43.0


From 0aecab5368c1d058c1b55247e810cf74a791db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 09/71] fix: verify that the nonce in the ID token is the one
 from the same authentication request

---
 proxy/internal/oidc/client.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index 872b074..b46cd93 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -304,10 +304,12 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 		claims.Nonce = nonce
 	}
 	p.mu.Lock()
-	state, ok = p.states[claims.Nonce]
-	delete(p.states, claims.Nonce)
+	state, ok = p.states[nonce]
+	delete(p.states, nonce)
 	p.mu.Unlock()
-	if !ok {
+	// The ID token must be for this authentication request, not for another
+	// one that's also in progress.
+	if !ok || claims.Nonce != nonce {
 		p.er.Record("invalid nonce")
 		http.Error(w, "timeout", http.StatusForbidden)
 		return
-- 
2.43.0


From 313192a7f1ab5f5e7905cd0810cc04a9490bf058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 10/71] fix: verify that the ID token's audience is this client

---
 proxy/internal/oidc/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index b46cd93..73a0a55 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -33,6 +33,7 @@ import (
 	"io"
 	"net/http"
 	"net/url"
+	"slices"
 	"strings"
 	"sync"
 	"time"
@@ -272,11 +273,16 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 	}
 	if data.IDToken != "" {
 		// We received the JWT directly from the identity provider. So, we
-		// don't need to validate it.
+		// don't need to validate its signature.
 		if _, _, err := (&jwt.Parser{}).ParseUnverified(data.IDToken, &claims); err != nil {
 			http.Error(w, err.Error(), http.StatusInternalServerError)
 			return
 		}
+		if !slices.Contains(claims.Audience, p.cfg.ClientID) {
+			p.er.Record("invalid audience")
+			http.Error(w, "invalid audience", http.StatusForbidden)
+			return
+		}
 	} else if p.cfg.UserinfoEndpoint != "" && (data.TokenType == "" || strings.ToLower(data.TokenType) == "bearer") {
 		req, err := http.NewRequest(http.MethodGet, p.cfg.UserinfoEndpoint, nil)
 		if err != nil {
-- 
2.43.0


From 0bc170355975f56f29c6c8da2046994ab9e5f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 11/71] fix: keep the redirect that follows setting the ID
 token cookie on the same host

---
 proxy/backend-sso.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proxy/backend-sso.go b/proxy/backend-sso.go
index 644f33c..9c7994f 100644
--- a/proxy/backend-sso.go
+++ b/proxy/backend-sso.go
@@ -140,7 +140,12 @@ func (be *Backend) checkCookies(w http.ResponseWriter, req *http.Request) (jwt.M
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return nil, false
 	}
-	http.Redirect(w, req, req.URL.String(), http.StatusFound)
+	// The redirect must stay on this host. A path that starts with // would
+	// be interpreted as a different host.
+	here := *req.URL
+	here.Scheme = "https"
+	here.Host = req.Host
+	http.Redirect(w, req, here.String(), http.StatusFound)
 	return nil, false
 }
 
-- 
2.43.0


From e65a935a98793881ec12ece4c40245ee1113585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 12/71] fix: escape the / in the subject of the client
 certificate header

---
 proxy/xfcc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/xfcc.go b/proxy/xfcc.go
index 39b63e5..ace2124 100644
--- a/proxy/xfcc.go
+++ b/proxy/xfcc.go
@@ -87,6 +87,10 @@ func encodeXFCCSubject(input string) string {
 			continue
 		}
 
+		if r == '/' && !esc {
+			// The / is the separator in the output.
+			s.WriteByte('\\')
+		}
 		esc = !esc && r == '\\'
 		s.WriteRune(r)
 	}
-- 
2.43.0


From da8231300f8e9e31254c888c211aecd97710ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 13/71] fix: forward path overrides with addresses when the
 backend itself has none

---
 proxy/backend-http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 86a0728..1e235d6 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -295,7 +295,7 @@ func (be *Backend) reverseProxy() http.Handler {
 				break L
 			}
 		}
-		if len(be.Addresses) == 0 {
+		if override == "" && len(be.Addresses) == 0 {
 			be.serveStaticFiles(w, req, be.DocumentRoot, "")
 			return
 		}
-- 
2.43.0


From 4fbef2f388cf7d6639e9a7067da126f89859367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 14/71] fix: use the modification time of the index file, not
 of its directory

---
 proxy/backend-http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 1e235d6..f0e84ca 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -170,7 +170,7 @@ func (be *Backend) serveStaticFiles(w http.ResponseWriter, req *http.Request, do
 			return
 		}
 		p = filepath.Join(p, "index.html")
-		if s, err := os.Stat(p); err != nil || s.IsDir() {
+		if fi, err = os.Stat(p); err != nil || fi.IsDir() {
 			be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.Path, http.StatusForbidden, userAgent(req))
 			w.WriteHeader(http.StatusForbidden)
 			return
-- 
2.43.0


From 997c85ee983c3614ef354183b0f75c7df3afccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 15/71] fix: refuse empty TLS records instead of panicking

---
 proxy/hello.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/hello.go b/proxy/hello.go
index 0ba263a..de30faf 100644
--- a/proxy/hello.go
+++ b/proxy/hello.go
@@ -54,8 +54,8 @@ func peekClientHello(c peeker) (hello clientHello, err error) {
 		return hello, errors.New("invalid format")
 	}
 	var length uint16
-	if !s.ReadUint16(&length) || length > 16384 {
-		return hello, fmt.Errorf("packet length %d > 16384", length)
+	if !s.ReadUint16(&length) || length == 0 || length > 16384 {
+		return hello, fmt.Errorf("packet length %d is not in [1,16384]", length)
 	}
 	buf = make([]byte, 5+length)
 	if _, err := c.Peek(buf); err != nil {
-- 
2.43.0


From 504ff92f2395dd16f360d47e7e9670535d52e362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 16/71] fix: keep token signing keys until the tokens they
 signed have expired

---
 proxy/internal/tokenmanager/tokenmanager.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index 7178468..c8168bf 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -156,7 +156,13 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 		keys.Keys = append(keys.Keys, tk...)
 		changed = true
 	}
-	if keys.Keys[0].CreationTime.Add(7 * 24 * time.Hour).Before(now) {
+	// The oldest key is used to sign tokens until the next set of keys is 2
+	// hours old, and these tokens must remain valid until they expire.
+	oldest := keys.Keys[0].CreationTime
+	replaced := slices.ContainsFunc(keys.Keys, func(k *tokenKey) bool {
+		return k.CreationTime.Sub(oldest) > time.Hour && k.CreationTime.Add(26*time.Hour).Before(now)
+	})
+	if replaced && oldest.Add(7*24*time.Hour).Before(now) {
 		keys.Keys = keys.Keys[1:]
 		changed = true
 	}
-- 
2.43.0


From 654b48846274131ce50be0f03f551f75f237c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 17/71] fix: publish EC key coordinates with their full length

---
 proxy/internal/tokenmanager/tokenmanager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index c8168bf..d95e0ae 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -468,8 +468,8 @@ func (tm *TokenManager) ServeJWKS(w http.ResponseWriter, req *http.Request) {
 				ID:    key.ID,
 				Alg:   "ES256",
 				Curve: "P-256",
-				X:     base64.RawURLEncoding.EncodeToString(pub.X.Bytes()),
-				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.Bytes()),
+				X:     base64.RawURLEncoding.EncodeToString(pub.X.FillBytes(make([]byte, 32))),
+				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.FillBytes(make([]byte, 32))),
 			})
 		case ed25519.PublicKey:
 			out.Keys = append(out.Keys, jwk{
-- 
2.43.0


From ad079a0045052224a84c9bd92f62e302240872e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 18/71] fix: require the redirect URI of the code in OIDC token
 requests

---
 proxy/internal/oidc/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/oidc/server.go b/proxy/internal/oidc/server.go
index 5cb15bb..b3e3df9 100644
--- a/proxy/internal/oidc/server.go
+++ b/proxy/internal/oidc/server.go
@@ -73,6 +73,7 @@ type openIDConfiguration struct {
 type codeData struct {
 	created     time.Time
 	clientID    string
+	redirectURI string
 	token       string
 	scope       string
 	accessToken string
@@ -314,6 +315,7 @@ func (s *ProviderServer) ServeAuthorization(w http.ResponseWriter, req *http.Req
 	s.codes[code] = &codeData{
 		created:     now,
 		clientID:    clientID,
+		redirectURI: redirectURI,
 		token:       token,
 		scope:       sc,
 		accessToken: accessToken,
@@ -368,7 +370,7 @@ func (s *ProviderServer) ServeToken(w http.ResponseWriter, req *http.Request) {
 	delete(s.codes, code)
 	s.mu.Unlock()
 
-	if !ok || data.clientID != clientID {
+	if !ok || data.clientID != clientID || data.redirectURI != redirectURI {
 		http.Error(w, "invalid request", http.StatusBadRequest)
 		return
 	}
-- 
2.43.0


From ccf040e0c9e3e6245966f775e5c6b46276828c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 19/71] fix: refuse SAML assertions whose subject confirmation
 has expired

---
 proxy/internal/saml/saml.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proxy/internal/saml/saml.go b/proxy/internal/saml/saml.go
index c6fa425..77619c9 100644
--- a/proxy/internal/saml/saml.go
+++ b/proxy/internal/saml/saml.go
@@ -232,6 +232,12 @@ func (p *Provider) HandleCallback(w http.ResponseWriter, req *http.Request) {
 		http.Error(w, "invalid saml response", http.StatusForbidden)
 		return
 	}
+	if v := findElementAttr(v, "./Subject/SubjectConfirmation/SubjectConfirmationData", "NotOnOrAfter"); v != "" {
+		if t, err := time.Parse(time.RFC3339Nano, v); err != nil || t.Before(now) {
+			http.Error(w, "invalid saml response", http.StatusForbidden)
+			return
+		}
+	}
 	sub := findElementText(v, "./Subject/NameID")
 	if sub == "" {
 		http.Error(w, "invalid saml response", http.StatusForbidden)
-- 
2.43.0


From c58d16f10e8c91779e4e27dcd93063867d1f24c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 20/71] fix: don't serve CRLs after their next update time

---
 proxy/internal/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index c2111f9..ab7b433 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -509,7 +509,7 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(crlRefreshPeriod/2).After(now) {
+		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From 27256d14099eb1672a861b407f35e36478383660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 21/71] fix: list certificates revoked in the same second as
 the previous CRL

---
 proxy/internal/pki/pki.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index ab7b433..bda0ba1 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -509,7 +509,21 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
+		// All the times have a resolution of one second. So, a certificate
+		// could have been revoked after the list was created even if
+		// lastRevocation is not after ThisUpdate.
+		listed := make(map[string]bool)
+		for _, e := range rl.RevokedCertificateEntries {
+			listed[bytesToHex(e.SerialNumber.Bytes())] = true
+		}
+		complete := !slices.ContainsFunc(m.db.IssuedCerts, func(c *certificate) bool {
+			if c.Revocation == nil || listed[c.SerialNumber] {
+				return false
+			}
+			cert, err := c.parse()
+			return err != nil || !now.After(cert.NotAfter)
+		})
+		if complete && !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From 8c8ce1bb1206ddb4e162d864bf25f1922fbdb6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 22/71] fix: synchronize the rotation of the PKI's delegate
 certificate

---
 proxy/internal/pki/pki.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index bda0ba1..f447340 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -150,6 +150,9 @@ type PKIManager struct {
 	pkiFile string
 	mu      sync.Mutex
 	db      *certificateAuthority
+
+	// rotateMu serializes the rotation of the delegate certificate.
+	rotateMu sync.Mutex
 }
 
 type certificateAuthority struct {
@@ -384,12 +387,13 @@ func (m *PKIManager) parseKeyBytes(b []byte) (any, error) {
 	return x509.ParsePKCS8PrivateKey(b)
 }
 
-func (m *PKIManager) maybeRotateDelegateCert() error {
+func (m *PKIManager) delegateCertNeedsUpdate(now time.Time) (bool, *x509.Certificate, error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	if m.db == nil {
-		return errors.New("no ca")
+		return false, nil, errors.New("no ca")
 	}
-	now := time.Now().UTC()
-
 	var needUpdate bool
 	if len(m.db.DelegateCerts) == 0 {
 		needUpdate = true
@@ -399,14 +403,22 @@ func (m *PKIManager) maybeRotateDelegateCert() error {
 			needUpdate = true
 		}
 	}
-	if !needUpdate {
-		return nil
-	}
-
 	caCert, err := m.db.CACert.parse()
+	return needUpdate, caCert, err
+}
+
+func (m *PKIManager) maybeRotateDelegateCert() error {
+	m.rotateMu.Lock()
+	defer m.rotateMu.Unlock()
+
+	now := time.Now().UTC()
+	needUpdate, caCert, err := m.delegateCertNeedsUpdate(now)
 	if err != nil {
 		return err
 	}
+	if !needUpdate {
+		return nil
+	}
 
 	kt := m.opts.KeyType
 	if kt == "ed25519" {
-- 
2.43.0


From 97ceca9953f3a59d5d918c33ea4f4e319328d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 23/71] fix: accept encoded slashes in OCSP GET requests

---
 proxy/internal/pki/http.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/pki/http.go b/proxy/internal/pki/http.go
index dadb055..3d64b97 100644
--- a/proxy/internal/pki/http.go
+++ b/proxy/internal/pki/http.go
@@ -128,12 +128,14 @@ func (m *PKIManager) ServeOCSP(w http.ResponseWriter, req *http.Request) {
 	switch req.Method {
 	case http.MethodGet:
 		// https://www.rfc-editor.org/rfc/rfc6960.html#page-30
-		off := strings.LastIndex(req.URL.Path, "/")
+		// The base64-encoded request can contain encoded slashes.
+		path := req.URL.EscapedPath()
+		off := strings.LastIndex(path, "/")
 		if off < 0 {
 			http.Error(w, "invalid request", http.StatusBadRequest)
 			return
 		}
-		data, err := url.PathUnescape(req.URL.Path[off+1:])
+		data, err := url.PathUnescape(path[off+1:])
 		if err != nil {
 			m.opts.Logger.Errorf("ERR url.PathUnescape: %v", err)
 			http.Error(w, "invalid request", http.StatusBadRequest)
-- 
2.43.0


From c4ffd56aa25decc887419e719586c2ce4920201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 24/71] fix: identify certificates in OCSP responses with the
 hash of the request

---
 proxy/internal/pki/pki.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index f447340..69dbea8 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -663,7 +663,7 @@ func (m *PKIManager) OCSPResponse(req *ocsp.Request) ([]byte, error) {
 			SerialNumber: req.SerialNumber,
 			ThisUpdate:   now,
 			NextUpdate:   now.Add(crlRefreshPeriod),
-			IssuerHash:   crypto.SHA256,
+			IssuerHash:   req.HashAlgorithm,
 			Certificate:  delegateCert,
 		}, signer)
 	}
@@ -675,7 +675,7 @@ func (m *PKIManager) OCSPResponse(req *ocsp.Request) ([]byte, error) {
 			NextUpdate:       now.Add(crlRefreshPeriod),
 			RevokedAt:        now,
 			RevocationReason: RevokeReasonCertificateHold,
-			IssuerHash:       crypto.SHA256,
+			IssuerHash:       req.HashAlgorithm,
 			Certificate:      delegateCert,
 		}, signer)
 	}
@@ -687,7 +687,7 @@ func (m *PKIManager) OCSPResponse(req *ocsp.Request) ([]byte, error) {
 			NextUpdate:       now.Add(crlRefreshPeriod),
 			RevokedAt:        rev.Time,
 			RevocationReason: rev.ReasonCode,
-			IssuerHash:       crypto.SHA256,
+			IssuerHash:       req.HashAlgorithm,
 			Certificate:      delegateCert,
 		}, signer)
 	}
@@ -696,7 +696,7 @@ func (m *PKIManager) OCSPResponse(req *ocsp.Request) ([]byte, error) {
 		SerialNumber: req.SerialNumber,
 		ThisUpdate:   now,
 		NextUpdate:   now.Add(crlRefreshPeriod),
-		IssuerHash:   crypto.SHA256,
+		IssuerHash:   req.HashAlgorithm,
 		Certificate:  delegateCert,
 	}, signer)
 }
-- 
2.43.0


From 501f5acb5b288ee91ab335ffc6655659bb434af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 25/71] fix: refuse SSH certificates where public keys are
 expected

---
 proxy/internal/sshca/sshca.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proxy/internal/sshca/sshca.go b/proxy/internal/sshca/sshca.go
index d3e4efa..c53b894 100644
--- a/proxy/internal/sshca/sshca.go
+++ b/proxy/internal/sshca/sshca.go
@@ -301,6 +301,11 @@ func (ca *SSHCA) ServeCertificate(w http.ResponseWriter, req *http.Request) {
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
 	}
+	if _, ok := pub.(*ssh.Certificate); ok {
+		ca.opts.Logger.Errorf("ERR body: certificate instead of public key")
+		http.Error(w, "invalid request", http.StatusBadRequest)
+		return
+	}
 	rnd := make([]byte, 8)
 	if _, err := io.ReadFull(rand.Reader, rnd); err != nil {
 		ca.opts.Logger.Errorf("ERR rand: %v", err)
-- 
2.43.0


From 1c890d0e8cc256e8e384990cdadf468ca8b66ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 26/71] fix: don't hold the SSH CA's lock while requests are
 read

---
 proxy/internal/sshca/sshca.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/sshca/sshca.go b/proxy/internal/sshca/sshca.go
index c53b894..2ec7594 100644
--- a/proxy/internal/sshca/sshca.go
+++ b/proxy/internal/sshca/sshca.go
@@ -257,8 +257,9 @@ func (ca *SSHCA) ServePublicKey(w http.ResponseWriter, req *http.Request) {
 
 func (ca *SSHCA) ServeCertificate(w http.ResponseWriter, req *http.Request) {
 	ca.mu.Lock()
-	defer ca.mu.Unlock()
-	if ca.signer == nil {
+	signer := ca.signer
+	ca.mu.Unlock()
+	if signer == nil {
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
 	}
@@ -331,7 +332,12 @@ func (ca *SSHCA) ServeCertificate(w http.ResponseWriter, req *http.Request) {
 			},
 		},
 	}
-	if err := cert.SignCert(rand.Reader, ca.signer); err != nil {
+	// The lock isn't held while the request is read or the response written
+	// because either can be arbitrarily slow.
+	ca.mu.Lock()
+	err = cert.SignCert(rand.Reader, signer)
+	ca.mu.Unlock()
+	if err != nil {
 		ca.opts.Logger.Errorf("ERR SignCert: %v", err)
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
-- 
2.43.0


From 9bf263700a546dc26ae8ca8465fb080be0ef7b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 27/71] fix: require an email address to issue and revoke
 certificates

---
 proxy/internal/pki/http.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proxy/internal/pki/http.go b/proxy/internal/pki/http.go
index 3d64b97..602db39 100644
--- a/proxy/internal/pki/http.go
+++ b/proxy/internal/pki/http.go
@@ -350,6 +350,10 @@ func (m *PKIManager) handleRequestCert(w http.ResponseWriter, req *http.Request)
 		return
 	}
 	email, _ := claims["email"].(string)
+	if email == "" {
+		http.Error(w, "Forbidden", http.StatusForbidden)
+		return
+	}
 
 	if req.Method != http.MethodPost {
 		m.opts.Logger.Errorf("ERR method: %v", req.Method)
@@ -417,6 +421,10 @@ func (m *PKIManager) handleRevokeCert(w http.ResponseWriter, req *http.Request,
 		return
 	}
 	email, _ := claims["email"].(string)
+	if email == "" {
+		http.Error(w, "Forbidden", http.StatusForbidden)
+		return
+	}
 
 	if req.Method != http.MethodPost {
 		m.opts.Logger.Errorf("ERR method: %v", req.Method)
-- 
2.43.0


From 40a3227a6dc12f5b375b49f4d9c5735f87e6d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 28/71] fix: don't use new token keys before they are saved

---
 proxy/internal/tokenmanager/tokenmanager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index d95e0ae..eac6a06 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -190,10 +190,14 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 	keys.Keys = slices.DeleteFunc(keys.Keys, func(k *tokenKey) bool {
 		return k.privKey == nil
 	})
+	// The new keys must not be used until they are saved.
+	if err := commit(true, nil); err != nil {
+		return err
+	}
 	tm.mu.Lock()
 	tm.keys = keys
 	tm.mu.Unlock()
-	return commit(true, nil)
+	return nil
 }
 
 func (tm *TokenManager) createNewTokenKeys() ([]*tokenKey, error) {
-- 
2.43.0


From e54d8ee3c43150a1052ef12aee57fa7719346965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 29/71] fix: don't keep unsaved PKI changes in memory

---
 proxy/internal/pki/pki.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index 69dbea8..e28e444 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -213,13 +213,25 @@ type revocationList struct {
 }
 
 func (m *PKIManager) open() (func(commit bool, errp *error) error, error) {
+	// The file is loaded in a new object. The previous one is put back when
+	// the changes are not saved.
+	prev := m.db
+	m.db = nil
 	commit, err := m.opts.Store.OpenForUpdate(m.pkiFile, &m.db)
 	if err != nil {
+		m.db = prev
 		return nil, err
 	}
+	var done bool
 	return func(doCommit bool, errp *error) error {
 		err := commit(doCommit, errp)
-		wipe(m.db.PrivateKey)
+		if m.db != nil {
+			wipe(m.db.PrivateKey)
+		}
+		if !done && (!doCommit || err != nil) && prev != nil {
+			m.db = prev
+		}
+		done = true
 		return err
 	}, nil
 }
-- 
2.43.0


From dbc447f19cb7d884f07d28c58aa4b35f3e5fbddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 30/71] fix: don't keep unsaved passkey changes in memory

---
 proxy/internal/passkeys/manager.go | 40 ++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index dba74a4..c1ee17c 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -138,10 +138,7 @@ func NewManager(cfg Config) (*Manager, error) {
 
 type Manager struct {
 	cfg Config
-	db  struct {
-		Handles  map[string]*user
-		Subjects map[string]string
-	}
+	db  passkeyDB
 	acl *[]string
 
 	mu         sync.Mutex
@@ -151,6 +148,11 @@ type Manager struct {
 	nonces   map[string]*nonceData
 }
 
+type passkeyDB struct {
+	Handles  map[string]*user
+	Subjects map[string]string
+}
+
 type challenge struct {
 	created time.Time
 	claims  map[string]any
@@ -163,6 +165,30 @@ type nonceData struct {
 	opts    idp.LoginOptions
 }
 
+// open opens the passkey database for update. The file is loaded in a new
+// object. The previous one is put back when the changes are not saved.
+func (m *Manager) open() (func(commit bool, errp *error) error, error) {
+	prev := m.db
+	m.db = passkeyDB{
+		Handles:  make(map[string]*user),
+		Subjects: make(map[string]string),
+	}
+	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, &m.db)
+	if err != nil {
+		m.db = prev
+		return nil, err
+	}
+	var done bool
+	return func(doCommit bool, errp *error) error {
+		err := commit(doCommit, errp)
+		if !done && (!doCommit || err != nil) {
+			m.db = prev
+		}
+		done = true
+		return err
+	}, nil
+}
+
 func (m *Manager) SetACL(acl *[]string) {
 	m.acl = acl
 }
@@ -719,7 +745,7 @@ func (m *Manager) deleteKey(email string, id Bytes) (retErr error) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 
-	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, &m.db)
+	commit, err := m.open()
 	if err != nil {
 		return err
 	}
@@ -882,7 +908,7 @@ func (m *Manager) processAttestation(claims map[string]any, host, jsargs string,
 		return nil, errors.New("no attested credentials")
 	}
 
-	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, &m.db)
+	commit, err := m.open()
 	if err != nil {
 		return nil, err
 	}
@@ -991,7 +1017,7 @@ func (m *Manager) processAssertion(jsargs string, token *jwt.Token) (claims map[
 	}
 	delete(m.challenges, cd.Challenge)
 
-	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, &m.db)
+	commit, err := m.open()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 13cf8478f91634c674aceb6c331f147fd6f375ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 31/71] fix: create the data files atomically

---
 proxy/internal/datafile/datafile.go         | 43 +++++++++++++++++++++
 proxy/internal/passkeys/manager.go          |  5 ++-
 proxy/internal/pki/pki.go                   |  5 ++-
 proxy/internal/sshca/sshca.go               |  5 ++-
 proxy/internal/tokenmanager/tokenmanager.go |  6 ++-
 5 files changed, 60 insertions(+), 4 deletions(-)
 create mode 100644 proxy/internal/datafile/datafile.go

diff --git a/proxy/internal/datafile/datafile.go b/proxy/internal/datafile/datafile.go
new file mode 100644
index 0000000..8af5c15
--- /dev/null
+++ b/proxy/internal/datafile/datafile.go
@@ -0,0 +1,43 @@
+// MIT License
+//
+// Copyright (c) 2023 TTBT Enterprises LLC
+// Copyright (c) 2023 Robin Thellend <rthellend@rthellend.com>
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in all
+// copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+// Package datafile creates the data files of the proxy's components.
+package datafile
+
+import (
+	"errors"
+	"io/fs"
+	"os"
+	"path/filepath"
+
+	"github.com/c2FmZQ/storage"
+)
+
+// Init creates the file with the given initial content if it doesn't exist yet.
+// The file either has the complete content, or is not created at all.
+func Init(store *storage.Storage, name string, content any) error {
+	if _, err := os.Stat(filepath.Join(store.Dir(), name)); !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+	return store.SaveDataFile(name, content)
+}
diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index c1ee17c..9c5f5ea 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -52,6 +52,7 @@ import (
 	jwt "github.com/golang-jwt/jwt/v5"
 
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
 )
@@ -129,7 +130,9 @@ func NewManager(cfg Config) (*Manager, error) {
 	}
 	m.db.Handles = make(map[string]*user)
 	m.db.Subjects = make(map[string]string)
-	m.cfg.Store.CreateEmptyFile(passkeyFile, &m.db)
+	if err := datafile.Init(m.cfg.Store, passkeyFile, &m.db); err != nil {
+		return nil, err
+	}
 	if err := m.cfg.Store.ReadDataFile(passkeyFile, &m.db); err != nil {
 		return nil, err
 	}
diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index e28e444..ee5c920 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -52,6 +52,7 @@ import (
 	jwt "github.com/golang-jwt/jwt/v5"
 	"golang.org/x/crypto/ocsp"
 
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki/keys"
 )
 
@@ -136,7 +137,9 @@ func New(opts Options) (*PKIManager, error) {
 	if m.opts.KeyType == "" {
 		m.opts.KeyType = "ecdsa-p256"
 	}
-	m.opts.Store.CreateEmptyFile(m.pkiFile, &certificateAuthority{})
+	if err := datafile.Init(m.opts.Store, m.pkiFile, &certificateAuthority{}); err != nil {
+		return nil, err
+	}
 	if err := m.initCA(); err != nil {
 		return nil, err
 	}
diff --git a/proxy/internal/sshca/sshca.go b/proxy/internal/sshca/sshca.go
index 2ec7594..cb8a0b4 100644
--- a/proxy/internal/sshca/sshca.go
+++ b/proxy/internal/sshca/sshca.go
@@ -45,6 +45,7 @@ import (
 	jwt "github.com/golang-jwt/jwt/v5"
 	"golang.org/x/crypto/ssh"
 
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki/keys"
 )
 
@@ -101,7 +102,9 @@ func New(opts Options) (*SSHCA, error) {
 	if ca.opts.ClaimsFromCtx == nil {
 		return nil, errors.New("ClaimsFromCtx must be set")
 	}
-	ca.opts.Store.CreateEmptyFile(ca.caFile, &certificateAuthority{})
+	if err := datafile.Init(ca.opts.Store, ca.caFile, &certificateAuthority{}); err != nil {
+		return nil, err
+	}
 	if err := ca.initCA(); err != nil {
 		return nil, err
 	}
diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index eac6a06..04db40c 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -52,6 +52,8 @@ import (
 	"github.com/c2FmZQ/storage"
 	"github.com/c2FmZQ/tpm"
 	jwt "github.com/golang-jwt/jwt/v5"
+
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 )
 
 const (
@@ -106,7 +108,9 @@ func New(store *storage.Storage, tpm *tpm.TPM, logger logger) (*TokenManager, er
 		tpm:    tpm,
 		logger: logger,
 	}
-	store.CreateEmptyFile(tokenKeyFile, &tm.keys)
+	if err := datafile.Init(store, tokenKeyFile, &tm.keys); err != nil {
+		return nil, err
+	}
 	if err := tm.rotateKeys(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fff61300f2d29868dcefdd0ec8be68be5dc28142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 32/71] fix: don't confirm the deletion of a passkey that
 failed

---
 proxy/internal/passkeys/manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index 9c5f5ea..975d9f1 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -656,6 +656,8 @@ func (m *Manager) ManageKeys(w http.ResponseWriter, req *http.Request) {
 		}
 		if err := m.deleteKey(email, id); err != nil {
 			m.cfg.Logger.Errorf("ERR deleteKey(%q, %v): %v", email, id, err)
+			http.Error(w, "internal error", http.StatusInternalServerError)
+			return
 		}
 		w.Header().Set("content-type", "application/json")
 		json.NewEncoder(w).Encode(map[string]string{
-- 
2.43.0


From 110c97576d08cee3c8e8ee8a18b6a6dc721c97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 33/71] fix: only accept OCSP responses about the certificate,
 by an authorized signer

---
 proxy/internal/ocspcache/ocsp.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index be2bc54..9749897 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -32,6 +32,7 @@ import (
 	"errors"
 	"io"
 	"net/http"
+	"slices"
 	"time"
 
 	"github.com/c2FmZQ/storage"
@@ -134,7 +135,7 @@ func (c *OCSPCache) flush() error {
 func (c *OCSPCache) VerifyChains(chains [][]*x509.Certificate, stapled []byte) error {
 	if stapled != nil && len(chains) > 0 && len(chains[0]) > 1 {
 		cert, issuer := chains[0][0], chains[0][1]
-		if resp, err := ocsp.ParseResponseForCert(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
+		if resp, err := parseResponse(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
 			hash := certHash(cert.Raw)
 			if resp, ok := c.cache.Get(hash); ok && resp.Status == ocsp.Revoked {
 				// Someone is playing tricks on us.
@@ -186,6 +187,30 @@ nextChain:
 	return lastError
 }
 
+// parseResponse parses an OCSP response, and verifies that it is about cert, that
+// it has not expired, and that it was signed by issuer or by a responder that
+// issuer authorized.
+func parseResponse(body []byte, cert, issuer *x509.Certificate) (*ocsp.Response, error) {
+	resp, err := ocsp.ParseResponseForCert(body, cert, issuer)
+	if err != nil {
+		return nil, err
+	}
+	now := time.Now()
+	if !resp.NextUpdate.IsZero() && !now.Before(resp.NextUpdate) {
+		return nil, errors.New("response is expired")
+	}
+	// https://datatracker.ietf.org/doc/html/rfc6960#section-4.2.2.2
+	if c := resp.Certificate; c != nil && !c.Equal(issuer) {
+		if !slices.Contains(c.ExtKeyUsage, x509.ExtKeyUsageOCSPSigning) {
+			return nil, errors.New("signer is not authorized")
+		}
+		if now.Before(c.NotBefore) || now.After(c.NotAfter) {
+			return nil, errors.New("signer's certificate is not valid at this time")
+		}
+	}
+	return resp, nil
+}
+
 func certHash(b []byte) string {
 	hash := sha256.Sum256(b)
 	return hex.EncodeToString(hash[:])
@@ -243,7 +268,7 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR body: %v", err)
 		return nil, errOCSPProtocol
 	}
-	ocspResp, err := ocsp.ParseResponse(body, issuer)
+	ocspResp, err := parseResponse(body, cert, issuer)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
-- 
2.43.0


From a959fe05d1faaef1af1597b32174be474c9d3fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 34/71] fix: reject certificates whose OCSP responder cannot be
 asked

---
 proxy/internal/ocspcache/ocsp.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index 9749897..19bdd67 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -156,9 +156,6 @@ nextChain:
 				issuer = chain[i+1]
 			}
 			resp, err := c.Response(cert, issuer, 0)
-			if err == errOCSPInternal {
-				continue
-			}
 			if err != nil {
 				lastError = err
 				continue nextChain
-- 
2.43.0


From e77d210866467b43511ea458be13e8b4d2a629d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 35/71] fix: share the PKI state with the manager that a new
 configuration creates

---
 proxy/internal/pki/pki.go | 19 +++++++++++++++++--
 proxy/proxy.go            |  1 +
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index ee5c920..ac4fd72 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -122,6 +122,10 @@ type Options struct {
 	}
 	// ClaimsFromCtx returns jwt claims for the current user.
 	ClaimsFromCtx func(context.Context) jwt.MapClaims
+	// Previous is the PKI manager that this one replaces, if any. It can
+	// still be in use, e.g. by requests that started before the
+	// configuration changed.
+	Previous *PKIManager
 }
 
 // New returns a new initialized PKI manager. The Certificate Authority's key
@@ -133,6 +137,11 @@ func New(opts Options) (*PKIManager, error) {
 	m := &PKIManager{
 		opts:    opts,
 		pkiFile: "pki-" + url.PathEscape(opts.Name),
+		state:   &state{},
+	}
+	m.opts.Previous = nil
+	if p := opts.Previous; p != nil && p.opts.Store == opts.Store && p.pkiFile == m.pkiFile {
+		m.state = p.state
 	}
 	if m.opts.KeyType == "" {
 		m.opts.KeyType = "ecdsa-p256"
@@ -151,8 +160,14 @@ func New(opts Options) (*PKIManager, error) {
 type PKIManager struct {
 	opts    Options
 	pkiFile string
-	mu      sync.Mutex
-	db      *certificateAuthority
+	*state
+}
+
+// state is the part of PKIManager that's shared with the manager that replaces
+// it so that what one does, e.g. revoke a certificate, is visible to the other.
+type state struct {
+	mu sync.Mutex
+	db *certificateAuthority
 
 	// rotateMu serializes the rotation of the delegate certificate.
 	rotateMu sync.Mutex
diff --git a/proxy/proxy.go b/proxy/proxy.go
index fd4c9bc..bca24b0 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -403,6 +403,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 			Store:                 p.store,
 			EventRecorder:         er,
 			ClaimsFromCtx:         claimsFromCtx,
+			Previous:              p.pkis[pp.Name],
 		}
 		m, err := pki.New(opts)
 		if err != nil {
-- 
2.43.0


From 3ebc10a8f80135b1c5302e501f3291d155c07e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 36/71] fix: verify client certificates against the backend
 that serves the connection

---
 proxy/proxy.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index bca24b0..5f5c7d0 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -586,13 +586,9 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				}
 			}
 			tc.VerifyConnection = func(cs tls.ConnectionState) error {
-				be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
-				if err != nil {
-					return tlsUnrecognizedName
-				}
-				if be.ClientAuth == nil {
-					return nil
-				}
+				// Don't look up the backend again. The connection's
+				// ServerName and NegotiatedProtocol are not always
+				// enough to find the one that this tls.Config is for.
 				if len(cs.PeerCertificates) == 0 || len(cs.VerifiedChains) == 0 {
 					p.recordEvent(fmt.Sprintf("deny no cert to %s", idnaToUnicode(cs.ServerName)))
 					if cs.Version == tls.VersionTLS12 {
-- 
2.43.0


From 87846d06cbcecdf779461d4b1b8e41efa2789d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 37/71] fix: let WebSocket peers receive what was sent before
 the other side closed

---
 proxy/websocket.go | 67 ++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/proxy/websocket.go b/proxy/websocket.go
index 0d24e8f..e780cda 100644
--- a/proxy/websocket.go
+++ b/proxy/websocket.go
@@ -27,6 +27,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"sync/atomic"
 	"time"
 
 	"github.com/gorilla/websocket"
@@ -34,6 +35,10 @@ import (
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
 )
 
+// webSocketCloseTimeout is how long to wait for one side of a WebSocket bridge
+// to end its connection after the other side did.
+const webSocketCloseTimeout = 10 * time.Second
+
 func newWebSocketUpgrader() *websocket.Upgrader {
 	return &websocket.Upgrader{
 		ReadBufferSize:  8192,
@@ -74,11 +79,15 @@ func (p *Proxy) webSocketHandler(cfg WebSocketConfig) http.Handler {
 		}()
 		out = wc
 
-		done := make(chan bool, 1)
-
-		lastActive := time.Now()
+		var (
+			clientDone = make(chan struct{}) // in -> out loop is done
+			serverDone = make(chan struct{}) // out -> in loop is done
+			inactive   = make(chan struct{})
+			lastActive atomic.Int64
+		)
+		lastActive.Store(time.Now().UnixNano())
 		in.SetPongHandler(func(string) error {
-			lastActive = time.Now()
+			lastActive.Store(time.Now().UnixNano())
 			return nil
 		})
 		go func() {
@@ -91,11 +100,8 @@ func (p *Proxy) webSocketHandler(cfg WebSocketConfig) http.Handler {
 					out.SetDeadline(time.Now())
 					return
 				case <-ticker.C:
-					if time.Since(lastActive) > 30*time.Second {
-						select {
-						case done <- true:
-						default:
-						}
+					if time.Since(time.Unix(0, lastActive.Load())) > 30*time.Second {
+						close(inactive)
 						return
 					}
 					if err := in.WriteControl(websocket.PingMessage, []byte("ping"), time.Now().Add(5*time.Second)); err != nil {
@@ -107,13 +113,8 @@ func (p *Proxy) webSocketHandler(cfg WebSocketConfig) http.Handler {
 
 		// in -> out loop
 		go func() {
-			defer func() {
-				select {
-				case done <- true:
-				default:
-				}
-				return
-			}()
+			defer close(clientDone)
+			var dst io.Writer = out
 			for {
 				messageType, r, err := in.NextReader()
 				if err != nil {
@@ -122,26 +123,24 @@ func (p *Proxy) webSocketHandler(cfg WebSocketConfig) http.Handler {
 				if messageType != websocket.BinaryMessage {
 					continue
 				}
-				if _, err := io.Copy(out, r); err != nil {
-					return
+				if _, err := io.Copy(dst, r); err != nil {
+					// Keep reading until the end. Closing a
+					// connection that has unread data can
+					// discard what was sent on it.
+					dst = io.Discard
 				}
 			}
 		}()
 
 		// out -> in loop
 		go func() {
-			defer func() {
-				select {
-				case done <- true:
-				default:
-				}
-				return
-			}()
+			defer close(serverDone)
 			buf := make([]byte, 1024)
 			for {
 				n, err := out.Read(buf)
 				if n > 0 {
 					if err := in.WriteMessage(websocket.BinaryMessage, buf[:n]); err != nil {
+						io.Copy(io.Discard, out)
 						return
 					}
 				}
@@ -151,6 +150,22 @@ func (p *Proxy) webSocketHandler(cfg WebSocketConfig) http.Handler {
 			}
 		}()
 
-		<-done
+		// When one side is done, let the other side receive everything
+		// that was sent to it before closing the connections.
+		select {
+		case <-clientDone:
+			closeWrite(out)
+			select {
+			case <-serverDone:
+			case <-time.After(webSocketCloseTimeout):
+			}
+		case <-serverDone:
+			in.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(webSocketCloseTimeout))
+			select {
+			case <-clientDone:
+			case <-time.After(webSocketCloseTimeout):
+			}
+		case <-inactive:
+		}
 	})
 }
-- 
2.43.0


From fb55219c5905141e8dbad4b9c5bf731761d877e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 38/71] fix: relay the two directions of QUIC streams
 independently, with their own ends

---
 proxy/internal/netw/quic.go |  6 +++++
 proxy/quic.go               | 53 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/netw/quic.go b/proxy/internal/netw/quic.go
index 4697599..78fbbcf 100644
--- a/proxy/internal/netw/quic.go
+++ b/proxy/internal/netw/quic.go
@@ -519,6 +519,12 @@ func (s *QUICStream) streamID() int64 {
 	return int64(s.Stream.StreamID())
 }
 
+// IsReceiveOnly returns whether s is a receive-only stream.
+func (s *QUICStream) IsReceiveOnly() bool {
+	_, ok := s.Stream.(*ReceiveOnlyStream)
+	return ok
+}
+
 func (s *QUICStream) BridgeAddr() string {
 	s.mu.Lock()
 	defer s.mu.Unlock()
diff --git a/proxy/quic.go b/proxy/quic.go
index fde1994..8c4a2f2 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -442,6 +442,7 @@ func (be *Backend) handleQUICQUICStream(ctx context.Context, dest *netw.QUICConn
 		intConn = dest.WrapConn(stream)
 	}
 	defer intConn.Close()
+	defer conn.Close()
 
 	now := time.Now()
 	conn.SetAnnotation(startTimeKey, now)
@@ -450,7 +451,7 @@ func (be *Backend) handleQUICQUICStream(ctx context.Context, dest *netw.QUICConn
 	desc := formatConnDesc(conn)
 	be.logConnF("STR %s", desc)
 
-	if err := be.bridgeConns(conn, intConn); err != nil {
+	if err := be.bridgeStreams(conn, intConn); err != nil {
 		be.logErrorF("DBG %s %v", desc, err)
 	}
 
@@ -463,6 +464,56 @@ func (be *Backend) handleQUICQUICStream(ctx context.Context, dest *netw.QUICConn
 		conn.BytesReceived(), conn.BytesSent())
 }
 
+// bridgeStreams is like bridgeConns for two QUIC streams. The two directions of
+// a stream are independent, and each one ends the way that its source ended.
+func (be *Backend) bridgeStreams(client, server *netw.Conn) error {
+	if client.Conn.(*netw.QUICStream).IsReceiveOnly() {
+		err := forwardStream(server, client)
+		server.Conn.(*netw.QUICStream).CloseRead()
+		return err
+	}
+	timeout := time.Minute
+	if be.HalfCloseTimeout != nil {
+		timeout = *be.HalfCloseTimeout
+	}
+	fwd := func(out, in *netw.Conn, closeWhenDone *bool) error {
+		err := forwardStream(out, in)
+		if err == nil && closeWhenDone != nil && *closeWhenDone {
+			out.Close()
+			in.Close()
+			return nil
+		}
+		out.SetReadDeadline(time.Now().Add(timeout))
+		return err
+	}
+	ch := make(chan error)
+	go func() {
+		ch <- fwd(client, server, be.ServerCloseEndsConnection)
+	}()
+	err := fwd(server, client, be.ClientCloseEndsConnection)
+	return errors.Join(err, <-ch)
+}
+
+// forwardStream copies in to out until in ends, or out can't be written to
+// anymore. It propagates the end of in to out, and the end of out to in.
+func forwardStream(out, in *netw.Conn) error {
+	code := func(err error) quic.StreamErrorCode {
+		var streamErr *quic.StreamError
+		if errors.As(err, &streamErr) {
+			return streamErr.ErrorCode
+		}
+		return quic.StreamErrorCode(quicStreamError)
+	}
+	inStream := in.Conn.(*netw.QUICStream)
+	outStream := out.Conn.(*netw.QUICStream)
+	if _, err := io.Copy(out, in); err != nil {
+		outStream.CancelWrite(code(err))
+		inStream.CancelRead(code(err))
+		return err
+	}
+	return outStream.CloseWrite()
+}
+
 func (be *Backend) dialQUIC(ctx context.Context, addr string, tc *tls.Config) (*netw.QUICConn, error) {
 	qt, ok := be.quicTransport.(*netw.QUICTransport)
 	if !ok {
-- 
2.43.0


From b2386b3291a67ce7ffb54f6ab45b37cda66a3b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 39/71] fix: close the client's QUIC connection when the
 backend closes its own

---
 proxy/quic.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index 8c4a2f2..d01ebfd 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -222,6 +222,15 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 			return
 		}
 		defer beConn.Close()
+		stop := context.AfterFunc(beConn.Context(), func() {
+			code, msg := quicBadGateway, "bad gateway"
+			var appErr *quic.ApplicationError
+			if errors.As(context.Cause(beConn.Context()), &appErr) {
+				code, msg = appErr.ErrorCode, appErr.ErrorMessage
+			}
+			qc.CloseWithError(code, msg)
+		})
+		defer stop()
 
 		var wg sync.WaitGroup
 		wg.Add(1)
-- 
2.43.0


From f3f9c222fbe001a4fb493a27777518c8ac0e593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 40/71] fix: stop reading QUIC streams that are not forwarded
 anymore

---
 proxy/quic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index d01ebfd..346a9da 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -390,6 +390,9 @@ func (p *Proxy) handleQUICTCPStream(ctx context.Context, be *Backend, conn *netw
 			return
 		}
 		defer intConn.Close()
+		// Data that will never be read counts toward the flow control
+		// limit of the whole connection.
+		defer closeRead(conn)
 		setKeepAlive(intConn)
 
 		conn.SetAnnotation(dialDoneKey, time.Now())
-- 
2.43.0


From 85e986a889c467ef28d7e63d0daab1fea8227d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 41/71] fix: re-authorize connections without crashing, and
 check the ones that are being established

---
 proxy/backend.go |   8 +++-
 proxy/proxy.go   | 102 ++++++++++++++++++++++++++++++-----------------
 proxy/quic.go    |  14 ++++++-
 proxy/util.go    |   4 --
 4 files changed, 86 insertions(+), 42 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index b218c8d..7352fc3 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -223,7 +223,13 @@ func writeProxyHeader(v byte, out io.Writer, in anyConn) error {
 }
 
 func (be *Backend) authorize(cert *x509.Certificate) error {
-	if be.ClientAuth == nil || be.ClientAuth.ACL == nil {
+	if be.ClientAuth == nil {
+		return nil
+	}
+	if cert == nil {
+		return tlsCertificateRequired
+	}
+	if be.ClientAuth.ACL == nil {
 		return nil
 	}
 	if subject := cert.Subject.String(); subject != "" && (slices.Contains(*be.ClientAuth.ACL, subject) || slices.Contains(*be.ClientAuth.ACL, "SUBJECT:"+subject)) {
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 5f5c7d0..216bed8 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -90,6 +90,8 @@ const (
 	requestFlagKey   = "rf"
 	proxyProtoKey    = "pp"
 	httpUpgradeKey   = "hu"
+	alpnProtosKey    = "ap"
+	authorizedKey    = "au"
 
 	tlsBadCertificate      = tls.AlertError(0x2a)
 	tlsCertificateRevoked  = tls.AlertError(0x2c)
@@ -859,44 +861,69 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 	return nil
 }
 
+// reAuthorize closes the established connections that the current configuration
+// doesn't allow anymore.
 func (p *Proxy) reAuthorize() {
 	for _, conn := range p.inConns.slice() {
-		if !connServerNameIsSet(conn) {
+		if !conn.Annotation(authorizedKey, false).(bool) {
+			// p.setAuthorized will take care of this one.
 			continue
 		}
-		serverName := connServerName(conn)
-		proto := connProto(conn)
-		be, err := p.backend(serverName, proto)
-		if err != nil {
-			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
-			conn.Close()
-			continue
-		}
-		if oldBE := connBackend(conn); be.Mode != oldBE.Mode {
-			be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
-			conn.Close()
-			continue
-		}
-		if err := be.checkIP(conn.RemoteAddr()); err != nil {
-			p.recordEvent(serverName + " CheckIP " + err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q CheckIP: %v", conn.RemoteAddr(), idnaToUnicode(serverName), err)
-			conn.Close()
-			continue
-		}
-		if be.ClientAuth == nil {
-			continue
-		}
-		clientCert := connClientCert(conn)
-		if err := be.authorize(clientCert); err != nil {
-			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
+		if !p.reAuthorizeConn(conn) {
 			conn.Close()
-			continue
 		}
 	}
 }
 
+// setAuthorized marks conn as authorized by its backend. It returns false if the
+// configuration changed since the backend was selected, and it doesn't allow
+// this connection anymore.
+func (p *Proxy) setAuthorized(conn annotatedConnection) bool {
+	conn.SetAnnotation(authorizedKey, true)
+	return p.reAuthorizeConn(conn)
+}
+
+// reAuthorizeConn returns whether conn is allowed by the current configuration.
+func (p *Proxy) reAuthorizeConn(conn annotatedConnection) bool {
+	serverName := connServerName(conn)
+	var protos []string
+	if proto := connProto(conn); proto != "" {
+		protos = []string{proto}
+	} else if v, ok := conn.Annotation(alpnProtosKey, nil).([]string); ok {
+		protos = v
+	}
+	be, err := p.backend(serverName, protos...)
+	if err != nil {
+		p.recordEvent(err.Error())
+		p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
+		return false
+	}
+	oldBE := connBackend(conn)
+	if be == oldBE {
+		return true
+	}
+	if be.Mode != oldBE.Mode {
+		be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
+		return false
+	}
+	if err := be.checkIP(conn.RemoteAddr()); err != nil {
+		p.recordEvent(serverName + " CheckIP " + err.Error())
+		be.logErrorF("BAD [-] ReAuth %s ➔ %q CheckIP: %v", conn.RemoteAddr(), idnaToUnicode(serverName), err)
+		return false
+	}
+	if be.Mode == ModeTLSPassthrough {
+		// The proxy never sees the client certificate.
+		return true
+	}
+	clientCert := connClientCert(conn)
+	if err := be.authorize(clientCert); err != nil {
+		p.recordEvent(err.Error())
+		be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
+		return false
+	}
+	return true
+}
+
 // Start starts a TLS proxy with the given configuration. The proxy runs
 // in background until the context is canceled.
 func (p *Proxy) Start(ctx context.Context) error {
@@ -1168,6 +1195,7 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		serverName = p.defaultServerName()
 	}
 	conn.SetAnnotation(serverNameKey, serverName)
+	conn.SetAnnotation(alpnProtosKey, hello.ALPNProtos)
 
 	be, err := p.backend(serverName, hello.ALPNProtos...)
 	if err != nil {
@@ -1187,6 +1215,10 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		if err := p.checkIP(conn); err != nil {
 			return
 		}
+		if !p.setAuthorized(conn) {
+			sendUnrecognizedName(conn)
+			return
+		}
 		p.handleTLSPassthroughConnection(conn)
 
 	case len(hello.ALPNProtos) == 1 && hello.ALPNProtos[0] == acme.ALPNProto && hello.ServerName != "":
@@ -1273,14 +1305,12 @@ func (p *Proxy) authorizeTLSConnection(conn *tls.Conn) bool {
 	annotatedConn(conn).SetAnnotation(clientCertKey, clientCert)
 
 	// The check below is also done in VerifyConnection.
-	if be.ClientAuth != nil && be.ClientAuth.ACL != nil {
-		if err := be.authorize(clientCert); err != nil {
-			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
-			return false
-		}
+	if err := be.authorize(clientCert); err != nil {
+		p.recordEvent(err.Error())
+		be.logErrorF("BAD [-] %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
+		return false
 	}
-	return true
+	return p.setAuthorized(annotatedConn(conn))
 }
 
 func (p *Proxy) handleHTTPConnection(conn *tls.Conn) {
diff --git a/proxy/quic.go b/proxy/quic.go
index 346a9da..3e0c558 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -158,7 +158,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
 	if err != nil {
 		p.recordEvent(err.Error())
-		be.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
+		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
@@ -183,6 +183,18 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		return
 	}
 
+	// The configuration could have changed since the TLS handshake.
+	if err := be.authorize(clientCert); err != nil {
+		p.recordEvent(err.Error())
+		be.logErrorF("BAD [%s] %s:%s ➔ %q Authorize: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), err)
+		qc.CloseWithError(quicAccessDenied, "access denied")
+		return
+	}
+	if !p.setAuthorized(qc) {
+		qc.CloseWithError(quicAccessDenied, "access denied")
+		return
+	}
+
 	be.logConnF("QUC [%s] %s:%s ➔ %s|%s:%s", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), be.Mode, cs.NegotiatedProtocol)
 	if err := be.connLimit.Wait(ctx); err != nil {
 		if !errors.Is(err, context.Canceled) {
diff --git a/proxy/util.go b/proxy/util.go
index ab3db02..37eb660 100644
--- a/proxy/util.go
+++ b/proxy/util.go
@@ -74,10 +74,6 @@ func annotatedConn(c anyConn) annotatedConnection {
 	}
 }
 
-func connServerNameIsSet(c anyConn) bool {
-	return annotatedConn(c).Annotation(serverNameKey, nil) != nil
-}
-
 func connServerName(c anyConn) string {
 	if v, ok := annotatedConn(c).Annotation(serverNameKey, "").(string); ok {
 		return v
-- 
2.43.0


From 5e6178639eaf5c07af6f234e291abb30d8370a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 42/71] fix: don't change anything when a new configuration
 can't be applied, and don't block the traffic meanwhile

---
 proxy/proxy.go | 85 +++++++++++++++++++++++++++-----------------------
 1 file changed, 46 insertions(+), 39 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 216bed8..02237cb 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -39,6 +39,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"maps"
 	"net"
 	"net/http"
 	"net/url"
@@ -123,6 +124,7 @@ type Proxy struct {
 	tokenManager  *tokenmanager.TokenManager
 	wsUpgrader    *websocket.Upgrader
 
+	reconfigMu    sync.Mutex
 	mu            sync.RWMutex
 	connClosed    *sync.Cond
 	defServerName string
@@ -281,19 +283,23 @@ func NewTestProxy(cfg *Config) (*Proxy, error) {
 // Reconfigure updates the proxy's configuration. Some parameters cannot be
 // changed after Start has been called, e.g. HTTPAddr, TLSAddr, CacheDir.
 func (p *Proxy) Reconfigure(cfg *Config) error {
+	// The new state is built without holding p.mu so that the traffic is not
+	// affected, e.g. when an identity provider is slow, and nothing is
+	// changed until it is complete.
+	p.reconfigMu.Lock()
+	defer p.reconfigMu.Unlock()
 	p.mu.RLock()
 	curCfg := p.cfg
+	quicTransport := p.quicTransport
 	p.mu.RUnlock()
 	if cfg.equal(curCfg) {
 		return nil
 	}
-	p.mu.Lock()
-	defer p.mu.Unlock()
 	cfg = cfg.clone()
 	if err := cfg.Check(); err != nil {
 		return err
 	}
-	if p.cfg != nil {
+	if curCfg != nil {
 		p.logErrorF("INF Configuration changed")
 		p.recordEvent("config change")
 	}
@@ -414,19 +420,15 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		pkis[pp.Name] = m
 	}
 
+	const minBurst = 1 << 17 // 128 KB
+	bwLimits := maps.Clone(p.bwLimits)
 	for _, bwl := range cfg.BWLimits {
-		const minBurst = 1 << 17 // 128 KB
 		name := strings.ToLower(bwl.Name)
-		if l, ok := p.bwLimits[name]; ok {
-			l.ingress.SetLimit(rate.Limit(bwl.Ingress))
-			l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
-			l.egress.SetLimit(rate.Limit(bwl.Egress))
-			l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
-			continue
-		}
-		p.bwLimits[name] = &bwLimit{
-			ingress: rate.NewLimiter(rate.Limit(bwl.Ingress), int(max(bwl.Ingress, minBurst))),
-			egress:  rate.NewLimiter(rate.Limit(bwl.Egress), int(max(bwl.Egress, minBurst))),
+		if _, ok := bwLimits[name]; !ok {
+			bwLimits[name] = &bwLimit{
+				ingress: rate.NewLimiter(rate.Limit(bwl.Ingress), int(max(bwl.Ingress, minBurst))),
+				egress:  rate.NewLimiter(rate.Limit(bwl.Egress), int(max(bwl.Egress, minBurst))),
+			}
 		}
 	}
 
@@ -434,7 +436,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 	for _, be := range cfg.Backends {
 		be.recordEvent = p.recordEvent
 		be.tm = p.tokenManager
-		be.quicTransport = p.quicTransport
+		be.quicTransport = quicTransport
 		be.ocspCache = p.ocspCache
 		be.defaultLogFilter = cfg.LogFilter
 
@@ -450,7 +452,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				backends[beKey{serverName: sn, proto: proto}] = be
 			}
 		}
-		if l, ok := p.bwLimits[be.BWLimit]; ok {
+		if l, ok := bwLimits[be.BWLimit]; ok {
 			be.bwLimit = l
 		}
 		if be.SSO != nil {
@@ -701,34 +703,12 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				ssoBypass: true,
 			})
 		}
-		switch be.Mode {
-		case ModeConsole:
-			be := be
+		if be.Mode == ModeConsole {
 			be.localHandlers = append(be.localHandlers,
 				localHandler{desc: "Metrics", path: "/", handler: logHandler(http.HandlerFunc(p.metricsHandler))},
 				localHandler{desc: "Icon", path: "/favicon.ico", handler: logHandler(http.HandlerFunc(p.faviconHandler))},
 			)
 			addPProfHandlers(&be.localHandlers)
-
-			be.httpConnChan = make(chan net.Conn)
-			be.httpServer = startInternalHTTPServer(be.localHandler(), be.httpConnChan)
-			if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
-				be.http3Server = http3Server(be.localHandler())
-			}
-
-		case ModeLocal:
-			be.httpConnChan = make(chan net.Conn)
-			be.httpServer = startInternalHTTPServer(be.localHandler(), be.httpConnChan)
-			if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
-				be.http3Server = http3Server(be.localHandler())
-			}
-
-		case ModeHTTPS, ModeHTTP:
-			be.httpConnChan = make(chan net.Conn)
-			be.httpServer = startInternalHTTPServer(be.reverseProxy(), be.httpConnChan)
-			if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
-				be.http3Server = http3Server(be.reverseProxy())
-			}
 		}
 	}
 
@@ -848,11 +828,38 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		})
 		be.outConns = p.outConns
 	}
+
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	for _, be := range cfg.Backends {
+		var handler func() http.Handler
+		switch be.Mode {
+		case ModeConsole, ModeLocal:
+			handler = be.localHandler
+		case ModeHTTPS, ModeHTTP:
+			handler = be.reverseProxy
+		default:
+			continue
+		}
+		be.httpConnChan = make(chan net.Conn)
+		be.httpServer = startInternalHTTPServer(handler(), be.httpConnChan)
+		if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
+			be.http3Server = http3Server(handler())
+		}
+	}
+	for _, bwl := range cfg.BWLimits {
+		l := bwLimits[strings.ToLower(bwl.Name)]
+		l.ingress.SetLimit(rate.Limit(bwl.Ingress))
+		l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
+		l.egress.SetLimit(rate.Limit(bwl.Egress))
+		l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
+	}
 	if p.cfg != nil {
 		for _, be := range p.cfg.Backends {
 			be.close(p.ctx)
 		}
 	}
+	p.bwLimits = bwLimits
 	p.defServerName = cfg.DefaultServerName
 	p.backends = backends
 	p.pkis = pkis
-- 
2.43.0


From 50d40d8137aff49ef5f49ce16b65995208b62c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 43/71] fix: close connections that arrive while the
 configuration changes, and end HTTP/3 connections gracefully

---
 proxy/backend.go | 19 +++++--------------
 proxy/config.go  |  2 +-
 proxy/http.go    | 29 ++++++++++++++++-------------
 proxy/proxy.go   | 13 +++++++------
 proxy/quic.go    |  3 +--
 5 files changed, 30 insertions(+), 36 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 7352fc3..e76cbc8 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -45,10 +45,6 @@ func (be *Backend) incInFlight(delta int) int {
 	be.state.mu.Lock()
 	defer be.state.mu.Unlock()
 	be.state.inFlight += delta
-	if be.state.inFlight == 0 && be.state.shutdown && be.httpServer != nil {
-		close(be.httpConnChan)
-		be.httpServer = nil
-	}
 	return be.state.inFlight
 }
 
@@ -59,25 +55,20 @@ func (be *Backend) close(ctx context.Context) {
 		return
 	}
 	if ctx == nil {
-		close(be.httpConnChan)
 		go be.httpServer.Close()
 		be.httpServer = nil
 		if h3 := be.http3Server; h3 != nil {
-			be.http3Server = nil
 			go h3.Close()
 		}
 		return
 	}
 	go be.httpServer.Shutdown(ctx)
-	be.state.shutdown = true
-	if be.state.inFlight == 0 {
-		close(be.httpConnChan)
-		be.httpServer = nil
-		if h3 := be.http3Server; h3 != nil {
-			be.http3Server = nil
-			go h3.Close()
-		}
+	if h3, ok := be.http3Server.(interface {
+		Shutdown(context.Context) error
+	}); ok {
+		go h3.Shutdown(ctx)
 	}
+	be.state.shutdown = true
 }
 
 func (be *Backend) dial(ctx context.Context, protos ...string) (net.Conn, error) {
diff --git a/proxy/config.go b/proxy/config.go
index d728f27..edefa38 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -434,7 +434,7 @@ type Backend struct {
 	denyIPs  *[]*net.IPNet
 
 	httpServer    *http.Server
-	httpConnChan  chan net.Conn
+	httpListener  *proxyListener
 	http3Server   io.Closer
 	localHandlers []localHandler
 	outConns      *connTracker
diff --git a/proxy/http.go b/proxy/http.go
index f511d55..9c3c557 100644
--- a/proxy/http.go
+++ b/proxy/http.go
@@ -36,9 +36,9 @@ type ctxKey int
 
 var connCtxKey ctxKey = 1
 
-func startInternalHTTPServer(handler http.Handler, conns <-chan net.Conn) *http.Server {
+func startInternalHTTPServer(handler http.Handler) (*http.Server, *proxyListener) {
 	l := &proxyListener{
-		ch:       conns,
+		ch:       make(chan net.Conn),
 		closedCh: make(chan struct{}),
 	}
 	s := &http.Server{
@@ -52,7 +52,7 @@ func startInternalHTTPServer(handler http.Handler, conns <-chan net.Conn) *http.
 		},
 	}
 	go serveHTTP(s, l)
-	return s
+	return s, l
 }
 
 func serveHTTP(s *http.Server, l net.Listener) {
@@ -62,7 +62,7 @@ func serveHTTP(s *http.Server, l net.Listener) {
 }
 
 type proxyListener struct {
-	ch   <-chan net.Conn
+	ch   chan net.Conn
 	addr net.Addr
 
 	mu       sync.Mutex
@@ -74,25 +74,28 @@ func (l *proxyListener) Accept() (net.Conn, error) {
 	select {
 	case <-l.closedCh:
 		return nil, net.ErrClosed
-	case c, ok := <-l.ch:
-		if !ok {
-			l.Close()
-			return nil, net.ErrClosed
-		}
+	case c := <-l.ch:
 		return c, nil
 	}
 }
 
+// deliver hands c over to the http server. It returns false if the listener is
+// closed.
+func (l *proxyListener) deliver(c net.Conn) bool {
+	select {
+	case <-l.closedCh:
+		return false
+	case l.ch <- c:
+		return true
+	}
+}
+
 func (l *proxyListener) Close() error {
 	l.mu.Lock()
 	defer l.mu.Unlock()
 	if !l.closed {
 		l.closed = true
 		close(l.closedCh)
-		go func() {
-			for range l.ch {
-			}
-		}()
 	}
 	return nil
 }
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 02237cb..6507ee8 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -841,8 +841,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		default:
 			continue
 		}
-		be.httpConnChan = make(chan net.Conn)
-		be.httpServer = startInternalHTTPServer(handler(), be.httpConnChan)
+		be.httpServer, be.httpListener = startInternalHTTPServer(handler())
 		if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
 			be.http3Server = http3Server(handler())
 		}
@@ -1339,15 +1338,17 @@ func (p *Proxy) handleHTTPConnection(conn *tls.Conn) {
 		conn.Close()
 		return
 	}
-	if be.httpConnChan == nil {
-		p.recordEvent("conn chan nil")
-		be.logErrorF("ERR [-] %s ➔  %q conn channel is nil", conn.RemoteAddr(), idnaToUnicode(serverName))
+	if be.httpListener == nil {
+		p.recordEvent("http listener nil")
+		be.logErrorF("ERR [-] %s ➔  %q http listener is nil", conn.RemoteAddr(), idnaToUnicode(serverName))
 		conn.Close()
 		return
 	}
 	annotatedConn(conn).SetAnnotation(reportEndKey, true)
 	be.logConnF("CON %s", formatConnDesc(conn.NetConn().(*netw.Conn)))
-	be.httpConnChan <- conn
+	if !be.httpListener.deliver(conn) {
+		conn.Close()
+	}
 }
 
 func (p *Proxy) handleTLSConnection(extConn *tls.Conn) {
diff --git a/proxy/quic.go b/proxy/quic.go
index 3e0c558..da831f1 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -391,8 +391,7 @@ func (p *Proxy) handleQUICTCPStream(ctx context.Context, be *Backend, conn *netw
 	switch be.Mode {
 	case ModeConsole, ModeLocal, ModeHTTP, ModeHTTPS:
 		be.logConnF("STR %s", formatConnDesc(conn))
-		closeConnNeeded = false
-		be.httpConnChan <- conn
+		closeConnNeeded = !be.httpListener.deliver(conn)
 
 	case ModeTCP, ModeTLS:
 		intConn, err := be.dial(ctx, connProto(conn))
-- 
2.43.0


From d29d6968ca08e3ab31b1875b1699d9059a8664c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:02 +0000
Subject: [PATCH 44/71] fix: apply the bandwidth limits whose names are not in
 lower case

---
 proxy/proxy.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 6507ee8..1392ab6 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -423,9 +423,8 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 	const minBurst = 1 << 17 // 128 KB
 	bwLimits := maps.Clone(p.bwLimits)
 	for _, bwl := range cfg.BWLimits {
-		name := strings.ToLower(bwl.Name)
-		if _, ok := bwLimits[name]; !ok {
-			bwLimits[name] = &bwLimit{
+		if _, ok := bwLimits[bwl.Name]; !ok {
+			bwLimits[bwl.Name] = &bwLimit{
 				ingress: rate.NewLimiter(rate.Limit(bwl.Ingress), int(max(bwl.Ingress, minBurst))),
 				egress:  rate.NewLimiter(rate.Limit(bwl.Egress), int(max(bwl.Egress, minBurst))),
 			}
@@ -847,7 +846,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		}
 	}
 	for _, bwl := range cfg.BWLimits {
-		l := bwLimits[strings.ToLower(bwl.Name)]
+		l := bwLimits[bwl.Name]
 		l.ingress.SetLimit(rate.Limit(bwl.Ingress))
 		l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
 		l.egress.SetLimit(rate.Limit(bwl.Egress))
-- 
2.43.0


From 4f3392fe3c95617920ed24fef4b2aa18a59c8edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 45/71] fix: read the current configuration with the lock held

The number of open connections, the log filter, etc, were checked against a
configuration that Reconfigure and Stop could be replacing, or changing.
---
 proxy/logging.go |  6 +++---
 proxy/proxy.go   | 17 +++++++++++++----
 proxy/quic.go    |  4 ++--
 proxy/revoke.go  |  7 +++----
 4 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/proxy/logging.go b/proxy/logging.go
index 2ab293b..bde71d4 100644
--- a/proxy/logging.go
+++ b/proxy/logging.go
@@ -36,21 +36,21 @@ const (
 )
 
 func (p *Proxy) logConnF(format string, args ...any) {
-	if p.cfg == nil || !shouldLog(logConnection, p.cfg.LogFilter) {
+	if f := p.logFilter.Load(); f == nil || !shouldLog(logConnection, *f) {
 		return
 	}
 	log.Printf(format, args...)
 }
 
 func (p *Proxy) logError(args ...any) {
-	if p.cfg != nil && !shouldLog(logError, p.cfg.LogFilter) {
+	if f := p.logFilter.Load(); f != nil && !shouldLog(logError, *f) {
 		return
 	}
 	log.Print(args...)
 }
 
 func (p *Proxy) logErrorF(format string, args ...any) {
-	if p.cfg != nil && !shouldLog(logError, p.cfg.LogFilter) {
+	if f := p.logFilter.Load(); f != nil && !shouldLog(logError, *f) {
 		return
 	}
 	log.Printf(format, args...)
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 1392ab6..d335a5f 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -50,6 +50,7 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/c2FmZQ/storage"
@@ -114,6 +115,7 @@ type Proxy struct {
 		GetCertificate(hello *tls.ClientHelloInfo) (*tls.Certificate, error)
 	}
 	cfg           *Config
+	logFilter     atomic.Pointer[LogFilter]
 	ctx           context.Context
 	cancel        func()
 	listener      net.Listener
@@ -862,6 +864,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 	p.backends = backends
 	p.pkis = pkis
 	p.cfg = cfg
+	p.logFilter.Store(&cfg.LogFilter)
 	go p.reAuthorize()
 	return nil
 }
@@ -1006,7 +1009,6 @@ func (p *Proxy) Stop() {
 		p.mk = nil
 	}
 	backends := p.cfg.Backends
-	p.cfg.Backends = nil
 	conns := p.inConns.slice()
 	p.mu.Unlock()
 
@@ -1072,7 +1074,7 @@ func (p *Proxy) baseTLSConfig() *tls.Config {
 			return cert, nil
 		}
 		// Get a cert from Let's Encrypt.
-		if !p.cfg.AcceptTOS {
+		if !p.config().AcceptTOS {
 			if _, ok := p.certManager.(*autocert.Manager); ok {
 				return nil, errors.New("AcceptTOS must be set to true")
 			}
@@ -1180,9 +1182,9 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		}
 		p.connClosed.Broadcast()
 	})
-	if numOpen >= p.cfg.MaxOpen {
+	if maxOpen := p.config().MaxOpen; numOpen >= maxOpen {
 		p.recordEvent("too many open connections")
-		p.logErrorF("ERR [-] %s: too many open connections: %d >= %d", conn.RemoteAddr(), numOpen, p.cfg.MaxOpen)
+		p.logErrorF("ERR [-] %s: too many open connections: %d >= %d", conn.RemoteAddr(), numOpen, maxOpen)
 		sendCloseNotify(conn)
 		return
 	}
@@ -1433,6 +1435,13 @@ func (p *Proxy) handleTLSPassthroughConnection(extConn net.Conn) {
 		annotatedConn(extConn).BytesReceived(), annotatedConn(extConn).BytesSent())
 }
 
+// config returns the current configuration. It must not be modified.
+func (p *Proxy) config() *Config {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+	return p.cfg
+}
+
 func (p *Proxy) defaultServerName() string {
 	p.mu.RLock()
 	defer p.mu.RUnlock()
diff --git a/proxy/quic.go b/proxy/quic.go
index da831f1..980284f 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -166,9 +166,9 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	qc.SetAnnotation(backendKey, be)
 	p.setCounters(qc, cs.ServerName)
 
-	if numOpen >= p.cfg.MaxOpen {
+	if maxOpen := p.config().MaxOpen; numOpen >= maxOpen {
 		p.recordEvent("too many open connections")
-		be.logErrorF("ERR [%s] %s:%s: too many open connections: %d >= %d", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), numOpen, p.cfg.MaxOpen)
+		be.logErrorF("ERR [%s] %s:%s: too many open connections: %d >= %d", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), numOpen, maxOpen)
 		return
 	}
 
diff --git a/proxy/revoke.go b/proxy/revoke.go
index ad7897c..739373f 100644
--- a/proxy/revoke.go
+++ b/proxy/revoke.go
@@ -103,16 +103,15 @@ func (p *Proxy) RevokeAllCertificates(ctx context.Context, reason string) error
 }
 
 func (p *Proxy) revokeUnusedCertificates(ctx context.Context) error {
-	actuallyRevoke := p.cfg.RevokeUnusedCertificates == nil || *p.cfg.RevokeUnusedCertificates
+	cfg := p.config()
+	actuallyRevoke := cfg.RevokeUnusedCertificates == nil || *cfg.RevokeUnusedCertificates
 
 	names := make(map[string]bool)
-	p.mu.Lock()
-	for _, be := range p.cfg.Backends {
+	for _, be := range cfg.Backends {
 		for _, n := range be.ServerNames {
 			names[n] = true
 		}
 	}
-	p.mu.Unlock()
 	certs, err := p.acmeAllCerts(ctx)
 	if err != nil {
 		return err
-- 
2.43.0


From ae2d898e5ddb18fe7e292ed512ea56d1e62156d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 46/71] fix: let HTTP/3 requests finish, and don't miss closed
 connections, in Shutdown

Shutdown closed the QUIC transport, which cut the HTTP/3 requests that were in
progress. The last connection could close between the moment Shutdown counted
the connections and the moment it started waiting for them to be closed, and
nothing woke it up. Connections that were accepted just before Stop could be
left open after it, and Reconfigure could start servers after it.
---
 proxy/proxy.go | 27 +++++++++++++++++++++++----
 proxy/quic.go  |  3 ++-
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index d335a5f..e715778 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -120,6 +120,7 @@ type Proxy struct {
 	cancel        func()
 	listener      net.Listener
 	quicTransport io.Closer
+	quicListener  io.Closer
 	tpm           *tpm.TPM
 	mk            crypto.MasterKey
 	store         *storage.Storage
@@ -832,6 +833,9 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 
 	p.mu.Lock()
 	defer p.mu.Unlock()
+	if p.ctx != nil && p.ctx.Err() != nil {
+		return errors.New("proxy is stopped")
+	}
 	for _, be := range cfg.Backends {
 		var handler func() http.Handler
 		switch be.Mode {
@@ -1028,8 +1032,10 @@ func (p *Proxy) Stop() {
 func (p *Proxy) Shutdown(ctx context.Context) {
 	p.mu.Lock()
 	p.listener.Close()
-	if p.quicTransport != nil {
-		p.quicTransport.Close()
+	if p.quicListener != nil {
+		// The QUIC connections that are already established need the
+		// transport.
+		p.quicListener.Close()
 	}
 	for _, be := range p.cfg.Backends {
 		be.close(ctx)
@@ -1040,7 +1046,7 @@ func (p *Proxy) Shutdown(ctx context.Context) {
 	go func() {
 		connLeft := func() bool {
 			for _, c := range p.inConns.slice() {
-				if mode := connMode(c); mode != ModeTCP && mode != ModeTLS && mode != ModeTLSPassthrough {
+				if mode := connMode(c); mode != ModeTCP && mode != ModeTLS && mode != ModeTLSPassthrough && mode != ModeQUIC {
 					return true
 				}
 			}
@@ -1060,6 +1066,15 @@ func (p *Proxy) Shutdown(ctx context.Context) {
 	p.Stop()
 }
 
+// notifyConnClosed wakes up Shutdown after a connection was closed.
+func (p *Proxy) notifyConnClosed() {
+	// Without the lock, Shutdown could miss the notification between the
+	// moment it counts the connections and the moment it starts waiting.
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+	p.connClosed.Broadcast()
+}
+
 func (p *Proxy) baseTLSConfig() *tls.Config {
 	tc := p.certManager.TLSConfig()
 	getCert := tc.GetCertificate
@@ -1180,8 +1195,12 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 					conn.BytesReceived(), conn.BytesSent())
 			}
 		}
-		p.connClosed.Broadcast()
+		p.notifyConnClosed()
 	})
+	if p.ctx.Err() != nil {
+		// Stop doesn't see the connections that are added after it started.
+		return
+	}
 	if maxOpen := p.config().MaxOpen; numOpen >= maxOpen {
 		p.recordEvent("too many open connections")
 		p.logErrorF("ERR [-] %s: too many open connections: %d >= %d", conn.RemoteAddr(), numOpen, maxOpen)
diff --git a/proxy/quic.go b/proxy/quic.go
index 980284f..1da39d6 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -91,6 +91,7 @@ func (p *Proxy) startQUIC(ctx context.Context) error {
 		return err
 	}
 	p.quicTransport = qt
+	p.quicListener = quicListener
 	for _, be := range p.cfg.Backends {
 		be.quicTransport = qt
 	}
@@ -136,7 +137,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 				formatConnDesc(qc), time.Since(startTime).Truncate(time.Millisecond),
 				qc.BytesReceived(), qc.BytesSent())
 		}
-		p.connClosed.Broadcast()
+		p.notifyConnClosed()
 	})
 	qc.SetAnnotation(startTimeKey, time.Now())
 
-- 
2.43.0


From f1c2eaf2544627f890182ef546d547019b80aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 47/71] fix: close the UDP socket when the QUIC transport is
 closed

---
 proxy/internal/netw/quic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/netw/quic.go b/proxy/internal/netw/quic.go
index 78fbbcf..0ccff31 100644
--- a/proxy/internal/netw/quic.go
+++ b/proxy/internal/netw/quic.go
@@ -77,7 +77,8 @@ func (t *QUICTransport) Addr() net.Addr {
 }
 
 func (t *QUICTransport) Close() error {
-	return t.qt.Close()
+	// t.qt doesn't close the net.PacketConn that it didn't create.
+	return errors.Join(t.qt.Close(), t.qt.Conn.Close())
 }
 
 func (t *QUICTransport) Listen(tc *tls.Config) (*QUICListener, error) {
-- 
2.43.0


From 5fa26f7d0bba3c3d16c19266e0e2388566d1aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 48/71] fix: close the idle HTTP/3 connections when their
 server shuts down

Clients that ignore GOAWAY frames would otherwise keep sending requests that
are never answered.
---
 proxy/proxy.go |   1 +
 proxy/quic.go  | 103 ++++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 90 insertions(+), 14 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index e715778..0e3466d 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -94,6 +94,7 @@ const (
 	httpUpgradeKey   = "hu"
 	alpnProtosKey    = "ap"
 	authorizedKey    = "au"
+	http3RequestsKey = "hr"
 
 	tlsBadCertificate      = tls.AlertError(0x2a)
 	tlsCertificateRevoked  = tls.AlertError(0x2c)
diff --git a/proxy/quic.go b/proxy/quic.go
index 1da39d6..fc0da35 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -220,8 +220,8 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		be.logErrorF("ERR [%s] %s:%s ➔ %s|%s:%s %s: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), be.Mode, cs.NegotiatedProtocol, tag, err)
 	}
 
-	if serv, ok := be.http3Server.(*http3.Server); ok && cs.NegotiatedProtocol == "h3" {
-		if err := serv.ServeQUICConn(qc); err != nil {
+	if serv, ok := be.http3Server.(*gracefulHTTP3Server); ok && cs.NegotiatedProtocol == "h3" {
+		if err := serv.serve(qc); err != nil {
 			reportErr(err, "ServeQUICConn")
 		}
 		return
@@ -674,18 +674,93 @@ func (be *Backend) http3Transport() http.RoundTripper {
 	}
 }
 
-func http3Server(handler http.Handler) *http3.Server {
-	return &http3.Server{
-		Handler: handler,
-		ConnContext: func(ctx context.Context, c quic.Connection) context.Context {
-			if _, ok := c.(*netw.QUICConn); !ok {
-				panic(fmt.Sprintf("http3.Server.ConnContext called with: %#v", c))
-			}
-			// httputil.ReverseProxy only aborts truncated responses
-			// when this key is set.
-			ctx = context.WithValue(ctx, http.ServerContextKey, &http.Server{})
-			return context.WithValue(ctx, connCtxKey, c)
+// http3IdleDelay is how long HTTP/3 connections have to be idle to be closed
+// when the server is shut down.
+const http3IdleDelay = 5 * time.Second
+
+func http3Server(handler http.Handler) *gracefulHTTP3Server {
+	s := &gracefulHTTP3Server{
+		Server: &http3.Server{
+			Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
+				if qc, ok := req.Context().Value(connCtxKey).(*netw.QUICConn); ok {
+					if r, ok := qc.Annotation(http3RequestsKey, nil).(*http3Requests); ok {
+						r.add(1)
+						defer r.add(-1)
+					}
+				}
+				handler.ServeHTTP(w, req)
+			}),
+			ConnContext: func(ctx context.Context, c quic.Connection) context.Context {
+				if _, ok := c.(*netw.QUICConn); !ok {
+					panic(fmt.Sprintf("http3.Server.ConnContext called with: %#v", c))
+				}
+				// httputil.ReverseProxy only aborts truncated responses
+				// when this key is set.
+				ctx = context.WithValue(ctx, http.ServerContextKey, &http.Server{})
+				return context.WithValue(ctx, connCtxKey, c)
+			},
+			EnableDatagrams: false,
 		},
-		EnableDatagrams: false,
 	}
+	s.shutdown, s.startShutdown = context.WithCancel(context.Background())
+	return s
+}
+
+// gracefulHTTP3Server is a http3.Server whose Shutdown method closes the idle
+// connections. Not all clients close theirs when they receive a GOAWAY frame.
+type gracefulHTTP3Server struct {
+	*http3.Server
+	shutdown      context.Context
+	startShutdown context.CancelFunc
+}
+
+func (s *gracefulHTTP3Server) Shutdown(ctx context.Context) error {
+	s.startShutdown()
+	return s.Server.Shutdown(ctx)
+}
+
+func (s *gracefulHTTP3Server) serve(qc *netw.QUICConn) error {
+	r := &http3Requests{lastTime: time.Now()}
+	qc.SetAnnotation(http3RequestsKey, r)
+	stop := context.AfterFunc(s.shutdown, func() {
+		for {
+			d := r.timeToIdle()
+			if d <= 0 {
+				qc.CloseWithError(quic.ApplicationErrorCode(http3.ErrCodeNoError), "")
+				return
+			}
+			select {
+			case <-qc.Context().Done():
+				return
+			case <-time.After(d):
+			}
+		}
+	})
+	defer stop()
+	return s.ServeQUICConn(qc)
+}
+
+// http3Requests keeps track of the requests on a HTTP/3 connection.
+type http3Requests struct {
+	mu       sync.Mutex
+	active   int
+	lastTime time.Time
+}
+
+func (r *http3Requests) add(n int) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.active += n
+	r.lastTime = time.Now()
+}
+
+// timeToIdle returns the minimum amount of time before the connection is
+// considered idle.
+func (r *http3Requests) timeToIdle() time.Duration {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.active > 0 {
+		return http3IdleDelay
+	}
+	return time.Until(r.lastTime.Add(http3IdleDelay))
 }
-- 
2.43.0


From eddbace5f4ed304d0bbeb2f708a70f12e1c064bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 49/71] fix: count the bytes that are received, not the ones
 that could be, in the bandwidth limits

Each Read consumed as much of the ingress limit as the size of its buffer, so
small messages were slowed down long before the limit was reached. Large writes
were aborted instead of being delayed, and QUIC streams that were closed for
writing couldn't be read anymore.
---
 proxy/internal/netw/netw.go | 65 +++++++++++++++++++++++++++++++------
 proxy/internal/netw/quic.go | 20 ++++++------
 2 files changed, 65 insertions(+), 20 deletions(-)

diff --git a/proxy/internal/netw/netw.go b/proxy/internal/netw/netw.go
index 4aeefb7..d1e7588 100644
--- a/proxy/internal/netw/netw.go
+++ b/proxy/internal/netw/netw.go
@@ -199,11 +199,10 @@ func (c *Conn) Peek(b []byte) (int, error) {
 }
 
 func (c *Conn) Read(b []byte) (int, error) {
-	if l := c.ingressLimiter; l != nil {
-		if err := l.WaitN(c.ctx, len(b)); err != nil {
-			return 0, err
-		}
-	}
+	return limitedRead(c.ctx, c.ingressLimiter, b, c.read)
+}
+
+func (c *Conn) read(b []byte) (int, error) {
 	var n int
 	var err error
 	if len(c.peekBuf) > 0 {
@@ -218,11 +217,10 @@ func (c *Conn) Read(b []byte) (int, error) {
 }
 
 func (c *Conn) Write(b []byte) (int, error) {
-	if l := c.egressLimiter; l != nil {
-		if err := l.WaitN(c.ctx, len(b)); err != nil {
-			return 0, err
-		}
-	}
+	return limitedWrite(c.ctx, c.egressLimiter, b, c.write)
+}
+
+func (c *Conn) write(b []byte) (int, error) {
 	n, err := c.Conn.Write(b)
 	c.bytesSent.Incr(int64(n))
 	c.upBytesSent.Incr(int64(n))
@@ -241,6 +239,53 @@ func (c *Conn) Close() error {
 	return c.Conn.Close()
 }
 
+// maxLimitedChunk is the maximum number of bytes that are read or written at
+// once when there is a rate limiter.
+const maxLimitedChunk = 1 << 16
+
+func limitedChunk(l *rate.Limiter, b []byte) []byte {
+	// A limiter never allows more than its burst size at once.
+	if n := max(1, min(maxLimitedChunk, l.Burst())); len(b) > n {
+		return b[:n]
+	}
+	return b
+}
+
+// limitedRead calls read and then waits until the limiter allows the number of
+// bytes that were actually read.
+func limitedRead(ctx context.Context, l *rate.Limiter, b []byte, read func([]byte) (int, error)) (int, error) {
+	if l == nil {
+		return read(b)
+	}
+	n, err := read(limitedChunk(l, b))
+	if n > 0 {
+		if err := l.WaitN(ctx, n); err != nil {
+			return 0, err
+		}
+	}
+	return n, err
+}
+
+// limitedWrite calls write as often as needed, each time after waiting until the
+// limiter allows the number of bytes to write.
+func limitedWrite(ctx context.Context, l *rate.Limiter, b []byte, write func([]byte) (int, error)) (int, error) {
+	if l == nil {
+		return write(b)
+	}
+	var total int
+	for {
+		chunk := limitedChunk(l, b[total:])
+		if err := l.WaitN(ctx, len(chunk)); err != nil {
+			return total, err
+		}
+		n, err := write(chunk)
+		total += n
+		if err != nil || total >= len(b) {
+			return total, err
+		}
+	}
+}
+
 func newCounter() *counter.Counter {
 	return counter.New(time.Minute, time.Second)
 }
diff --git a/proxy/internal/netw/quic.go b/proxy/internal/netw/quic.go
index 0ccff31..986c47d 100644
--- a/proxy/internal/netw/quic.go
+++ b/proxy/internal/netw/quic.go
@@ -565,11 +565,12 @@ func (s *QUICStream) markWriteDone() {
 }
 
 func (s *QUICStream) Read(b []byte) (int, error) {
-	if l := s.qc.ingressLimiter; l != nil {
-		if err := l.WaitN(s.Context(), len(b)); err != nil {
-			return 0, err
-		}
-	}
+	// The stream's context is for writing. It is done when the stream is
+	// closed for writing.
+	return limitedRead(s.qc.Context(), s.qc.ingressLimiter, b, s.read)
+}
+
+func (s *QUICStream) read(b []byte) (int, error) {
 	n, err := s.Stream.Read(b)
 	if err != nil {
 		s.markReadDone()
@@ -580,11 +581,10 @@ func (s *QUICStream) Read(b []byte) (int, error) {
 }
 
 func (s *QUICStream) Write(b []byte) (int, error) {
-	if l := s.qc.egressLimiter; l != nil {
-		if err := l.WaitN(s.Context(), len(b)); err != nil {
-			return 0, err
-		}
-	}
+	return limitedWrite(s.Context(), s.qc.egressLimiter, b, s.write)
+}
+
+func (s *QUICStream) write(b []byte) (int, error) {
 	n, err := s.Stream.Write(b)
 	if err != nil {
 		s.markWriteDone()
-- 
2.43.0


From 6ddf5512c2b77ff8d9c31c68c767d7ad88044cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 50/71] fix: refuse bandwidth limits that aren't positive
 numbers

All the transfers were aborted when the limit's burst size was used up.
---
 proxy/config.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proxy/config.go b/proxy/config.go
index edefa38..4e73fa7 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -1013,11 +1013,18 @@ func (cfg *Config) Check() error {
 		}
 	}
 
+	const maxBWLimit = 1 << 50 // bytes per second
 	bwLimits := make(map[string]bool)
 	for i, l := range cfg.BWLimits {
 		if bwLimits[l.Name] {
 			return fmt.Errorf("bwLimit[%d].Name: duplicate name %q", i, l.Name)
 		}
+		if !(l.Ingress > 0 && l.Ingress <= maxBWLimit) {
+			return fmt.Errorf("bwLimit[%d].Ingress: invalid value %v", i, l.Ingress)
+		}
+		if !(l.Egress > 0 && l.Egress <= maxBWLimit) {
+			return fmt.Errorf("bwLimit[%d].Egress: invalid value %v", i, l.Egress)
+		}
 		bwLimits[l.Name] = true
 	}
 
-- 
2.43.0


From 6f17bdf7549e2df349e5b5bd572795199440ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 51/71] fix: apply the forward rate limit to QUIC streams

Each one is forwarded like a connection, but only the QUIC connection was
counted.
---
 proxy/quic.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index fc0da35..b25fd90 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -37,6 +37,7 @@ import (
 	"net"
 	"net/http"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/quic-go/quic-go"
@@ -340,6 +341,21 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		return
 	}
 
+	// The first stream was already counted when the connection was
+	// established.
+	var firstStream atomic.Bool
+	firstStream.Store(true)
+	waitTurn := func() bool {
+		if firstStream.Swap(false) {
+			return true
+		}
+		if err := be.connLimit.Wait(ctx); err != nil {
+			reportErr(err, "Wait")
+			return false
+		}
+		return true
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(1)
 	go func() {
@@ -354,6 +370,10 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 			wg.Add(1)
 			go func() {
 				defer wg.Done()
+				if !waitTurn() {
+					cc.Close()
+					return
+				}
 				p.handleQUICTCPStream(ctx, be, cc)
 			}()
 		}
@@ -371,6 +391,10 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 			wg.Add(1)
 			go func() {
 				defer wg.Done()
+				if !waitTurn() {
+					cc.Close()
+					return
+				}
 				p.handleQUICTCPStream(ctx, be, cc)
 			}()
 		}
-- 
2.43.0


From bd613173dc84a94134441e37b6cb861ce01f8389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 52/71] fix: refuse SAML certificates that aren't PEM instead
 of crashing

---
 proxy/internal/saml/saml.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proxy/internal/saml/saml.go b/proxy/internal/saml/saml.go
index 77619c9..9112bf3 100644
--- a/proxy/internal/saml/saml.go
+++ b/proxy/internal/saml/saml.go
@@ -32,6 +32,7 @@ import (
 	"encoding/hex"
 	"encoding/pem"
 	"encoding/xml"
+	"errors"
 	"fmt"
 	"io"
 	"net"
@@ -279,6 +280,9 @@ func readCerts(s string) ([]*x509.Certificate, error) {
 	var certs []*x509.Certificate
 	for len(b) > 0 {
 		block, rest := pem.Decode(b)
+		if block == nil {
+			break
+		}
 		b = rest
 		if block.Type == "CERTIFICATE" {
 			cert, err := x509.ParseCertificate(block.Bytes)
@@ -288,6 +292,9 @@ func readCerts(s string) ([]*x509.Certificate, error) {
 			certs = append(certs, cert)
 		}
 	}
+	if len(certs) == 0 {
+		return nil, errors.New("no certificate found")
+	}
 	return certs, nil
 }
 
-- 
2.43.0


From 6e435229503af09b7aad7927d4397e2a3280091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:56 +0000
Subject: [PATCH 53/71] fix: apply the forward rate limit to HTTP requests over
 TLS connections

---
 proxy/backend-http.go | 8 ++++----
 proxy/proxy.go        | 1 +
 proxy/quic.go         | 2 ++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index f0e84ca..50e2feb 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -42,6 +42,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 
 	"golang.org/x/net/http2"
@@ -250,10 +251,9 @@ func (be *Backend) reverseProxy() http.Handler {
 
 		// Apply the forward rate limit. The first request was already
 		// counted when the connection was established.
-		if conn, ok := ctx.Value(connCtxKey).(annotatedConnection); ok {
-			if !conn.Annotation(requestFlagKey, false).(bool) {
-				conn.SetAnnotation(requestFlagKey, true)
-			} else if err := be.connLimit.Wait(ctx); err != nil {
+		flag, _ := annotatedConn(ctx.Value(connCtxKey).(anyConn)).Annotation(requestFlagKey, (*atomic.Bool)(nil)).(*atomic.Bool)
+		if flag == nil || flag.Swap(true) {
+			if err := be.connLimit.Wait(ctx); err != nil {
 				http.Error(w, "ctx", http.StatusInternalServerError)
 				return
 			}
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 0e3466d..8a9f91f 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1366,6 +1366,7 @@ func (p *Proxy) handleHTTPConnection(conn *tls.Conn) {
 		return
 	}
 	annotatedConn(conn).SetAnnotation(reportEndKey, true)
+	annotatedConn(conn).SetAnnotation(requestFlagKey, new(atomic.Bool))
 	be.logConnF("CON %s", formatConnDesc(conn.NetConn().(*netw.Conn)))
 	if !be.httpListener.deliver(conn) {
 		conn.Close()
diff --git a/proxy/quic.go b/proxy/quic.go
index b25fd90..efc7d70 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -222,6 +222,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	}
 
 	if serv, ok := be.http3Server.(*gracefulHTTP3Server); ok && cs.NegotiatedProtocol == "h3" {
+		qc.SetAnnotation(requestFlagKey, new(atomic.Bool))
 		if err := serv.serve(qc); err != nil {
 			reportErr(err, "ServeQUICConn")
 		}
@@ -415,6 +416,7 @@ func (p *Proxy) handleQUICTCPStream(ctx context.Context, be *Backend, conn *netw
 
 	switch be.Mode {
 	case ModeConsole, ModeLocal, ModeHTTP, ModeHTTPS:
+		conn.SetAnnotation(requestFlagKey, new(atomic.Bool))
 		be.logConnF("STR %s", formatConnDesc(conn))
 		closeConnNeeded = !be.httpListener.deliver(conn)
 
-- 
2.43.0


From 6f744b94998237cd8a0e6f5dc2084d051b9bfbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 54/71] fix: don't hold the lock while QUIC connections are
 being closed in Stop and Shutdown

---
 proxy/proxy.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 8a9f91f..3328286 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1006,17 +1006,20 @@ func (p *Proxy) Stop() {
 		p.cancel()
 	}
 	p.listener.Close()
-	if p.quicTransport != nil {
-		p.quicTransport.Close()
-	}
 	if p.mk != nil {
 		p.mk.Wipe()
 		p.mk = nil
 	}
 	backends := p.cfg.Backends
 	conns := p.inConns.slice()
+	quicTransport := p.quicTransport
 	p.mu.Unlock()
 
+	if quicTransport != nil {
+		// This waits for the QUIC connections to end. The handshakes
+		// that are in progress need the lock.
+		quicTransport.Close()
+	}
 	for _, be := range backends {
 		be.close(nil)
 	}
@@ -1033,16 +1036,18 @@ func (p *Proxy) Stop() {
 func (p *Proxy) Shutdown(ctx context.Context) {
 	p.mu.Lock()
 	p.listener.Close()
-	if p.quicListener != nil {
-		// The QUIC connections that are already established need the
-		// transport.
-		p.quicListener.Close()
-	}
+	quicListener := p.quicListener
 	for _, be := range p.cfg.Backends {
 		be.close(ctx)
 	}
 	p.mu.Unlock()
 
+	if quicListener != nil {
+		// The QUIC connections that are already established need the
+		// transport. The handshakes that are in progress need the lock.
+		quicListener.Close()
+	}
+
 	done := make(chan struct{})
 	go func() {
 		connLeft := func() bool {
-- 
2.43.0


From f71da39744959f5a4904d70b9fe46466f14667bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 55/71] fix: don't wait forever for the TLS handshakes of the
 backend servers

---
 proxy/backend.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index e76cbc8..1e36cec 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -156,6 +156,18 @@ func (be *Backend) dial(ctx context.Context, protos ...string) (net.Conn, error)
 					c.Close()
 				}
 			}
+			if err == nil && (mode == ModeTLS || mode == ModeHTTPS) {
+				// Without a time limit, a server that doesn't
+				// respond would keep the connection open even
+				// after the client is gone.
+				tlsConn := tls.Client(c, tc)
+				ctx, cancel := context.WithTimeout(ctx, timeout)
+				if err = tlsConn.HandshakeContext(ctx); err != nil {
+					c.Close()
+				}
+				cancel()
+				c = tlsConn
+			}
 		}
 		if err != nil {
 			max--
@@ -165,9 +177,6 @@ func (be *Backend) dial(ctx context.Context, protos ...string) (net.Conn, error)
 			}
 			return nil, err
 		}
-		if mode == ModeTLS || mode == ModeHTTPS {
-			c = tls.Client(c, tc)
-		}
 		wc := netw.NewConn(c)
 		wc.OnClose(func() {
 			be.outConns.remove(wc)
-- 
2.43.0


From 0fd742c4ea798fbb1f476847637c22ad17a2c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:49 +0000
Subject: [PATCH 56/71] fix: don't corrupt the files that are being saved when
 the master key is wiped

---
 proxy/masterkey.go | 141 +++++++++++++++++++++++++++++++++++++++++++++
 proxy/proxy.go     |  10 ++--
 2 files changed, 147 insertions(+), 4 deletions(-)
 create mode 100644 proxy/masterkey.go

diff --git a/proxy/masterkey.go b/proxy/masterkey.go
new file mode 100644
index 0000000..2f022bb
--- /dev/null
+++ b/proxy/masterkey.go
@@ -0,0 +1,141 @@
+// MIT License
+//
+// Copyright (c) 2025 TTBT Enterprises LLC
+// Copyright (c) 2025 Robin Thellend <rthellend@rthellend.com>
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in all
+// copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+package proxy
+
+import (
+	"errors"
+	"io"
+	"sync"
+
+	"github.com/c2FmZQ/storage/crypto"
+)
+
+var errKeyWiped = errors.New("the master key was wiped")
+
+// wipeableKey is a MasterKey that can be wiped while it is being used.
+// After that, it can't be used to encrypt or decrypt anything. Without it, the
+// files that are being saved when the proxy stops would be encrypted with a key
+// that is not the master key.
+type wipeableKey struct {
+	key crypto.MasterKey
+
+	mu    sync.RWMutex
+	wiped bool
+}
+
+var _ crypto.MasterKey = (*wipeableKey)(nil)
+
+func (k *wipeableKey) do(f func() error) error {
+	k.mu.RLock()
+	defer k.mu.RUnlock()
+	if k.wiped {
+		return errKeyWiped
+	}
+	return f()
+}
+
+func (k *wipeableKey) Save(passphrase []byte, file string) error {
+	return k.do(func() error {
+		return k.key.Save(passphrase, file)
+	})
+}
+
+func (k *wipeableKey) Logger() crypto.Logger {
+	return k.key.Logger()
+}
+
+func (k *wipeableKey) Encrypt(data []byte) (out []byte, err error) {
+	err = k.do(func() (err error) {
+		out, err = k.key.Encrypt(data)
+		return err
+	})
+	return
+}
+
+func (k *wipeableKey) Decrypt(data []byte) (out []byte, err error) {
+	err = k.do(func() (err error) {
+		out, err = k.key.Decrypt(data)
+		return err
+	})
+	return
+}
+
+func (k *wipeableKey) Hash(b []byte) []byte {
+	k.mu.RLock()
+	defer k.mu.RUnlock()
+	return k.key.Hash(b)
+}
+
+func (k *wipeableKey) StartReader(ctx []byte, r io.Reader) (out crypto.StreamReader, err error) {
+	err = k.do(func() (err error) {
+		out, err = k.key.StartReader(ctx, r)
+		return err
+	})
+	return
+}
+
+func (k *wipeableKey) StartWriter(ctx []byte, w io.Writer) (out crypto.StreamWriter, err error) {
+	err = k.do(func() (err error) {
+		out, err = k.key.StartWriter(ctx, w)
+		return err
+	})
+	return
+}
+
+func (k *wipeableKey) NewKey() (out crypto.EncryptionKey, err error) {
+	err = k.do(func() (err error) {
+		out, err = k.key.NewKey()
+		return err
+	})
+	return
+}
+
+func (k *wipeableKey) DecryptKey(encryptedKey []byte) (out crypto.EncryptionKey, err error) {
+	err = k.do(func() (err error) {
+		out, err = k.key.DecryptKey(encryptedKey)
+		return err
+	})
+	return
+}
+
+func (k *wipeableKey) ReadEncryptedKey(r io.Reader) (out crypto.EncryptionKey, err error) {
+	err = k.do(func() (err error) {
+		out, err = k.key.ReadEncryptedKey(r)
+		return err
+	})
+	return
+}
+
+func (k *wipeableKey) WriteEncryptedKey(w io.Writer) error {
+	return k.do(func() error {
+		return k.key.WriteEncryptedKey(w)
+	})
+}
+
+func (k *wipeableKey) Wipe() {
+	k.mu.Lock()
+	defer k.mu.Unlock()
+	k.wiped = true
+	k.key.Wipe()
+}
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 3328286..cc1be64 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -203,7 +203,8 @@ func New(cfg *Config, passphrase []byte) (*Proxy, error) {
 	if err != nil {
 		return nil, fmt.Errorf("%s: %w", mkFile, err)
 	}
-	store := storage.New(cfg.CacheDir, mk)
+	key := &wipeableKey{key: mk}
+	store := storage.New(cfg.CacheDir, key)
 	tm, err := tokenmanager.New(store, pTPM, p.extLogger())
 	if err != nil {
 		return nil, err
@@ -221,7 +222,7 @@ func New(cfg *Config, passphrase []byte) (*Proxy, error) {
 		p.certManager.(*autocert.Manager).Prompt = autocert.AcceptTOS
 	}
 	p.tpm = pTPM
-	p.mk = mk
+	p.mk = key
 	p.store = store
 	p.tokenManager = tm
 	p.pkis = make(map[string]*pki.PKIManager)
@@ -262,14 +263,15 @@ func NewTestProxy(cfg *Config) (*Proxy, error) {
 	if err != nil {
 		return nil, fmt.Errorf("masterkey: %w", err)
 	}
-	store := storage.New(filepath.Join(cfg.CacheDir, "test"), mk)
+	key := &wipeableKey{key: mk}
+	store := storage.New(filepath.Join(cfg.CacheDir, "test"), key)
 	tm, err := tokenmanager.New(store, nil, p.extLogger())
 	if err != nil {
 		return nil, err
 	}
 
 	p.certManager = cm
-	p.mk = mk
+	p.mk = key
 	p.store = store
 	p.tokenManager = tm
 	p.pkis = make(map[string]*pki.PKIManager)
-- 
2.43.0


From 18cbcd34fef681a723c13f4b88bb96551259dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:20 +0000
Subject: [PATCH 57/71] fix: don't compare configurations while Stop changes
 the backends

---
 proxy/proxy.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index cc1be64..fe54c82 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -297,8 +297,9 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 	p.mu.RLock()
 	curCfg := p.cfg
 	quicTransport := p.quicTransport
+	same := cfg.equal(curCfg)
 	p.mu.RUnlock()
-	if cfg.equal(curCfg) {
+	if same {
 		return nil
 	}
 	cfg = cfg.clone()
@@ -1012,7 +1013,9 @@ func (p *Proxy) Stop() {
 		p.mk.Wipe()
 		p.mk = nil
 	}
-	backends := p.cfg.Backends
+	for _, be := range p.cfg.Backends {
+		be.close(nil)
+	}
 	conns := p.inConns.slice()
 	quicTransport := p.quicTransport
 	p.mu.Unlock()
@@ -1022,9 +1025,6 @@ func (p *Proxy) Stop() {
 		// that are in progress need the lock.
 		quicTransport.Close()
 	}
-	for _, be := range backends {
-		be.close(nil)
-	}
 	for _, conn := range conns {
 		conn.Close()
 	}
-- 
2.43.0


From b9bdfc832a9b1aaf00a0a8078ae925de0d77769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 58/71] fix: don't hold the PKI lock while writing to clients

---
 proxy/internal/pki/http.go | 45 +++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/proxy/internal/pki/http.go b/proxy/internal/pki/http.go
index 602db39..67e807a 100644
--- a/proxy/internal/pki/http.go
+++ b/proxy/internal/pki/http.go
@@ -26,6 +26,7 @@
 package pki
 
 import (
+	"bytes"
 	"compress/bzip2"
 	"crypto/sha256"
 	"crypto/x509"
@@ -75,25 +76,32 @@ func init() {
 
 // ServeCACert sends the CA's certificate.
 func (m *PKIManager) ServeCACert(w http.ResponseWriter, req *http.Request) {
-	m.mu.Lock()
-	defer m.mu.Unlock()
-	if m.db == nil || m.db.CACert == nil {
+	// The lock must not be held while writing. The client could be slow.
+	caCert, delegates := func() (*certificate, []*certificate) {
+		m.mu.Lock()
+		defer m.mu.Unlock()
+		if m.db == nil {
+			return nil, nil
+		}
+		return m.db.CACert, slices.Clone(m.db.DelegateCerts)
+	}()
+	if caCert == nil {
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
 	}
 	w.Header().Set("cache-control", "public, max-age=86400")
 	if strings.HasSuffix(req.URL.Path, ".pem") {
 		w.Header().Set("content-type", "application/x-pem-file")
-		out := m.db.CACert.pem()
-		for _, c := range m.db.DelegateCerts {
+		out := caCert.pem()
+		for _, c := range delegates {
 			out = append(out, c.pem()...)
 		}
 		etag(w, req, out)
 		return
 	}
 	w.Header().Set("content-type", "application/x-x509-ca-cert")
-	out := m.db.CACert.Raw
-	for _, c := range m.db.DelegateCerts {
+	out := slices.Clone(caCert.Raw)
+	for _, c := range delegates {
 		out = append(out, c.Raw...)
 	}
 	etag(w, req, out)
@@ -222,6 +230,20 @@ func (m *PKIManager) ServeCertificateManagement(w http.ResponseWriter, req *http
 	statusFilter := strings.ToLower(req.Form.Get("status"))
 	ownerFilter := strings.ToLower(req.Form.Get("owner"))
 
+	var page bytes.Buffer
+	if err := m.renderCerts(&page, req, email, isAdmin, statusFilter, ownerFilter); err != nil {
+		m.opts.Logger.Errorf("ERR renderCerts: %v", err)
+		http.Error(w, "internal error", http.StatusInternalServerError)
+		return
+	}
+	w.Header().Set("content-type", "text/html; charset=utf-8")
+	w.Header().Set("X-Frame-Options", "DENY")
+	w.Write(page.Bytes())
+}
+
+// renderCerts renders the list of certificates. The page is not sent to the
+// client directly because the lock is held.
+func (m *PKIManager) renderCerts(w io.Writer, req *http.Request, email string, isAdmin bool, statusFilter, ownerFilter string) error {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 
@@ -231,13 +253,11 @@ func (m *PKIManager) ServeCertificateManagement(w http.ResponseWriter, req *http
 	}
 
 	if m.db == nil || m.db.CACert == nil {
-		http.Error(w, "internal error", http.StatusInternalServerError)
-		return
+		return errNotFound
 	}
 	caCert, err := m.db.CACert.parse()
 	if err != nil {
-		http.Error(w, "internal error", http.StatusInternalServerError)
-		return
+		return err
 	}
 
 	type cert struct {
@@ -339,8 +359,7 @@ func (m *PKIManager) ServeCertificateManagement(w http.ResponseWriter, req *http
 		CASubjectKeyId: bytesToHex(caCert.SubjectKeyId),
 		Certs:          certs,
 	}
-	w.Header().Set("X-Frame-Options", "DENY")
-	certsTemplate.Execute(w, data)
+	return certsTemplate.Execute(w, data)
 }
 
 func (m *PKIManager) handleRequestCert(w http.ResponseWriter, req *http.Request) {
-- 
2.43.0


From f942323a3fbf08adfb6b6a4118278358753b04da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 59/71] fix: limit the size of the certificate requests

---
 proxy/internal/pki/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/pki/http.go b/proxy/internal/pki/http.go
index 67e807a..2d7bb7e 100644
--- a/proxy/internal/pki/http.go
+++ b/proxy/internal/pki/http.go
@@ -390,7 +390,7 @@ func (m *PKIManager) handleRequestCert(w http.ResponseWriter, req *http.Request)
 		return
 	}
 	defer req.Body.Close()
-	body, err := io.ReadAll(req.Body)
+	body, err := io.ReadAll(&io.LimitedReader{R: req.Body, N: 102400})
 	if err != nil {
 		m.opts.Logger.Errorf("ERR body: %v", err)
 		http.Error(w, "internal error", http.StatusInternalServerError)
-- 
2.43.0


From 5225ffbc16d1fc51a0402da5c0386e54ef1ccf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 60/71] fix: don't wait forever for the OIDC discovery document

---
 proxy/internal/oidc/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index 73a0a55..cb4c419 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -115,7 +115,8 @@ func New(cfg Config, er EventRecorder, cm CookieManager) (*ProviderClient, error
 		states: make(map[string]*oauthState),
 	}
 	if p.cfg.DiscoveryURL != "" {
-		resp, err := http.Get(p.cfg.DiscoveryURL)
+		client := &http.Client{Timeout: 30 * time.Second}
+		resp, err := client.Get(p.cfg.DiscoveryURL)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f28c191668399bfca95b2f04133c3514512b0e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 61/71] fix: close the QUIC connection when no stream can be
 opened

---
 proxy/quic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index efc7d70..cfb3257 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -591,6 +591,7 @@ func (be *Backend) dialQUICStream(ctx context.Context, addr string, tc *tls.Conf
 	}
 	s, err := conn.OpenStreamSync(ctx)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return conn.WrapConn(s), nil
-- 
2.43.0


From c61705c47cd171ecc5de9253e5a08b3f1994f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 62/71] fix: don't wait for the identity provider after the
 client left

---
 proxy/internal/oidc/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index cb4c419..bfdd960 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -236,7 +236,8 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 	form.Add("grant_type", "authorization_code")
 	form.Add("code_verifier", state.CodeVerifier)
 
-	req, err := http.NewRequest(http.MethodPost, p.cfg.TokenEndpoint, strings.NewReader(form.Encode()))
+	ctx := req.Context()
+	req, err := http.NewRequestWithContext(ctx, http.MethodPost, p.cfg.TokenEndpoint, strings.NewReader(form.Encode()))
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusInternalServerError)
 		return
@@ -285,7 +286,7 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 			return
 		}
 	} else if p.cfg.UserinfoEndpoint != "" && (data.TokenType == "" || strings.ToLower(data.TokenType) == "bearer") {
-		req, err := http.NewRequest(http.MethodGet, p.cfg.UserinfoEndpoint, nil)
+		req, err := http.NewRequestWithContext(ctx, http.MethodGet, p.cfg.UserinfoEndpoint, nil)
 		if err != nil {
 			http.Error(w, err.Error(), http.StatusInternalServerError)
 			return
-- 
2.43.0


From 393af5436ee246f4c5dc70a528ad8752bd6a6dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:44 +0000
Subject: [PATCH 63/71] fix: don't panic when a backend sends an invalid status
 code

---
 proxy/backend-http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 50e2feb..61c5175 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -557,6 +557,10 @@ func (be *Backend) reverseProxyTransport() http.RoundTripper {
 
 func (be *Backend) reverseProxyModifyResponse(resp *http.Response) error {
 	req := resp.Request
+	if resp.StatusCode < 100 || resp.StatusCode > 999 {
+		// [http.ResponseWriter] panics with these values.
+		return fmt.Errorf("invalid status code %d", resp.StatusCode)
+	}
 	if resp.StatusCode == http.StatusSwitchingProtocols {
 		if c, ok := req.Context().Value(connCtxKey).(anyConn); ok {
 			annotatedConn(c).SetAnnotation(httpUpgradeKey, resp.Header.Get("upgrade"))
-- 
2.43.0


From f9b739106e4d36eb2815601291f4f88ea69c3af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 64/71] fix: refuse configurations with null entries

---
 proxy/config.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/proxy/config.go b/proxy/config.go
index 4e73fa7..e81a2fd 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -778,6 +778,9 @@ func (cfg *Config) clone() *Config {
 // Check checks that the Config is valid, sets some default values, and
 // initializes internal data structures.
 func (cfg *Config) Check() error {
+	if err := cfg.checkNulls(); err != nil {
+		return err
+	}
 	cfg.Definitions = nil
 	if cfg.CacheDir == "" {
 		d, err := os.UserCacheDir()
@@ -1180,6 +1183,48 @@ func (cfg *Config) Check() error {
 	return os.MkdirAll(cfg.CacheDir, 0o700)
 }
 
+// checkNulls checks that there are no null entries in any of the lists.
+func (cfg *Config) checkNulls() error {
+	lists := []error{
+		noNulls("oidc", cfg.OIDCProviders),
+		noNulls("saml", cfg.SAMLProviders),
+		noNulls("passkey", cfg.PasskeyProviders),
+		noNulls("pki", cfg.PKI),
+		noNulls("sshCertificateAuthorities", cfg.SSHCertificateAuthorities),
+		noNulls("tlsCertificates", cfg.TLSCertificates),
+		noNulls("bwLimit", cfg.BWLimits),
+		noNulls("webSockets", cfg.WebSockets),
+		noNulls("backend", cfg.Backends),
+	}
+	if err := errors.Join(lists...); err != nil {
+		return err
+	}
+	for i, be := range cfg.Backends {
+		if err := noNulls(fmt.Sprintf("backend[%d].PathOverrides", i), be.PathOverrides); err != nil {
+			return err
+		}
+		if be.SSO == nil || be.SSO.LocalOIDCServer == nil {
+			continue
+		}
+		if err := noNulls(fmt.Sprintf("backend[%d].SSO.LocalOIDCServer.Clients", i), be.SSO.LocalOIDCServer.Clients); err != nil {
+			return err
+		}
+		if err := noNulls(fmt.Sprintf("backend[%d].SSO.LocalOIDCServer.RewriteRules", i), be.SSO.LocalOIDCServer.RewriteRules); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func noNulls[T any](name string, list []*T) error {
+	for i, v := range list {
+		if v == nil {
+			return fmt.Errorf("%s[%d]: cannot be null", name, i)
+		}
+	}
+	return nil
+}
+
 func validateProxyProtoVersion(s string) (byte, error) {
 	if s == "" {
 		return 0, nil
-- 
2.43.0


From 882be49bc95136c60ba7a753ff1c54d8f05cd986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 65/71] fix: refuse PROXY protocol versions that do not exist

---
 proxy/config.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/proxy/config.go b/proxy/config.go
index e81a2fd..309dd29 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -38,7 +38,6 @@ import (
 	"path/filepath"
 	"regexp"
 	"slices"
-	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -1226,17 +1225,16 @@ func noNulls[T any](name string, list []*T) error {
 }
 
 func validateProxyProtoVersion(s string) (byte, error) {
-	if s == "" {
+	switch s {
+	case "":
 		return 0, nil
-	}
-	if len(s) < 2 || s[0] != 'v' {
+	case "v1":
+		return 1, nil
+	case "v2":
+		return 2, nil
+	default:
 		return 0, fmt.Errorf("invalid value %q, expected v1 or v2", s)
 	}
-	v, err := strconv.ParseInt(s[1:], 10, 8)
-	if err != nil {
-		return 0, err
-	}
-	return byte(v), nil
 }
 
 // ReadConfig reads and validates a YAML config file.
-- 
2.43.0


From cae67d0ae8e544af243b95cac89c987e5d1f2daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 66/71] fix: compare whole labels when checking the domain of
 the identity providers

---
 proxy/config.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/proxy/config.go b/proxy/config.go
index 309dd29..3ae0bb5 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -859,7 +859,7 @@ func (cfg *Config) Check() error {
 			if err != nil {
 				return fmt.Errorf("oidc[%d].RedirectURL %q: %v", i, oi.RedirectURL, err)
 			}
-			if !strings.HasSuffix(host, oi.Domain) {
+			if !isSubdomain(host, oi.Domain) {
 				return fmt.Errorf("oidc[%d].Domain %q must be part of RedirectURL (%s)", i, oi.Domain, host)
 			}
 		}
@@ -887,7 +887,7 @@ func (cfg *Config) Check() error {
 			if err != nil {
 				return fmt.Errorf("saml[%d].ACSURL %q: %v", i, s.ACSURL, err)
 			}
-			if !strings.HasSuffix(host, s.Domain) {
+			if !isSubdomain(host, s.Domain) {
 				return fmt.Errorf("saml[%d].Domain %q must be part of ACSURL (%s)", i, s.Domain, host)
 			}
 		}
@@ -912,7 +912,7 @@ func (cfg *Config) Check() error {
 			if err != nil {
 				return fmt.Errorf("passkey[%d].Endpoint %q: %v", i, pp.Endpoint, err)
 			}
-			if !strings.HasSuffix(host, pp.Domain) {
+			if !isSubdomain(host, pp.Domain) {
 				return fmt.Errorf("passkey[%d].Domain %q must be part of Endpoint (%s)", i, pp.Domain, host)
 			}
 		}
@@ -1182,6 +1182,12 @@ func (cfg *Config) Check() error {
 	return os.MkdirAll(cfg.CacheDir, 0o700)
 }
 
+// isSubdomain returns whether host is domain, or is part of it.
+func isSubdomain(host, domain string) bool {
+	domain = strings.TrimPrefix(domain, ".")
+	return host == domain || strings.HasSuffix(host, "."+domain)
+}
+
 // checkNulls checks that there are no null entries in any of the lists.
 func (cfg *Config) checkNulls() error {
 	lists := []error{
-- 
2.43.0


From 63ace4508db42f3dac6c1a5399bea583a86cc615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 67/71] fix: refuse passkey providers that depend on themselves

---
 proxy/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/config.go b/proxy/config.go
index 3ae0bb5..b2c48aa 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -896,7 +896,6 @@ func (cfg *Config) Check() error {
 		if identityProviders[pp.Name] {
 			return fmt.Errorf("passkey[%d].Name: duplicate provider name %q", i, pp.Name)
 		}
-		identityProviders[pp.Name] = true
 		if pp.Endpoint == "" {
 			return fmt.Errorf("passkey[%d].Endpoint must be set", i)
 		}
@@ -906,6 +905,7 @@ func (cfg *Config) Check() error {
 		if _, ok := identityProviders[pp.IdentityProvider]; !ok {
 			return fmt.Errorf("passkey[%d].IdentityProvider has unexpected value %q", i, pp.IdentityProvider)
 		}
+		identityProviders[pp.Name] = true
 		if pp.Domain != "" {
 			pp.Domain = idnaToASCII(pp.Domain)
 			host, _, _, err := hostAndPath(pp.Endpoint)
-- 
2.43.0


From 85c75761e81e964536b019770e490f06a9b081d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 68/71] fix: refuse negative limits

---
 proxy/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proxy/config.go b/proxy/config.go
index b2c48aa..164304f 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -798,6 +798,9 @@ func (cfg *Config) Check() error {
 		}
 		cfg.MaxOpen = n/2 - 100
 	}
+	if cfg.MaxOpen < 0 {
+		return fmt.Errorf("MaxOpen: invalid value %d", cfg.MaxOpen)
+	}
 	if cfg.EnableQUIC == nil {
 		v := quicIsEnabled
 		cfg.EnableQUIC = &v
@@ -1133,6 +1136,9 @@ func (cfg *Config) Check() error {
 		if be.ForwardRateLimit == 0 {
 			be.ForwardRateLimit = 5
 		}
+		if be.ForwardRateLimit < 0 {
+			return fmt.Errorf("backend[%d].ForwardRateLimit: invalid value %d", i, be.ForwardRateLimit)
+		}
 		be.connLimit = rate.NewLimiter(rate.Limit(be.ForwardRateLimit), be.ForwardRateLimit)
 		ver, err := validateProxyProtoVersion(be.ProxyProtocolVersion)
 		if err != nil {
-- 
2.43.0


From 20d28a9323bcb688b64ec099e966692bff59cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 69/71] fix: compare configurations after setting the default
 values

---
 proxy/proxy.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index fe54c82..da0ff70 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -294,6 +294,10 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 	// changed until it is complete.
 	p.reconfigMu.Lock()
 	defer p.reconfigMu.Unlock()
+	cfg = cfg.clone()
+	if err := cfg.Check(); err != nil {
+		return err
+	}
 	p.mu.RLock()
 	curCfg := p.cfg
 	quicTransport := p.quicTransport
@@ -302,10 +306,6 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 	if same {
 		return nil
 	}
-	cfg = cfg.clone()
-	if err := cfg.Check(); err != nil {
-		return err
-	}
 	if curCfg != nil {
 		p.logErrorF("INF Configuration changed")
 		p.recordEvent("config change")
-- 
2.43.0


From 312d1f608a8158edd1ed86aefb8b7f0a5d5a779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 70/71] fix: don't share the default protocols with the caller

---
 proxy/config.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proxy/config.go b/proxy/config.go
index 164304f..625d3fb 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -936,9 +936,11 @@ func (cfg *Config) Check() error {
 		}
 		if be.ALPNProtos == nil {
 			if *cfg.EnableQUIC && (be.Mode == ModeHTTP || be.Mode == ModeHTTPS || be.Mode == ModeQUIC || be.Mode == ModeLocal || be.Mode == ModeConsole) {
-				be.ALPNProtos = defaultALPNProtosPlusH3
+				protos := slices.Clone(*defaultALPNProtosPlusH3)
+				be.ALPNProtos = &protos
 			} else {
-				be.ALPNProtos = defaultALPNProtos
+				protos := slices.Clone(*defaultALPNProtos)
+				be.ALPNProtos = &protos
 			}
 		}
 		if be.BackendProto != nil && be.Mode != ModeHTTP && be.Mode != ModeHTTPS {
-- 
2.43.0


From a3263a3daf5825d48765eb6f0043a088d9fab443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:58 +0000
Subject: [PATCH 71/71] fix: don't shut down the HTTP/3 server while it starts
 serving a connection

http3.Server changes fields when it starts serving a connection, and
Shutdown and Close read them without holding the lock.
---
 proxy/quic.go | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/proxy/quic.go b/proxy/quic.go
index cfb3257..fe56345 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -718,13 +718,14 @@ func http3Server(handler http.Handler) *gracefulHTTP3Server {
 				handler.ServeHTTP(w, req)
 			}),
 			ConnContext: func(ctx context.Context, c quic.Connection) context.Context {
-				if _, ok := c.(*netw.QUICConn); !ok {
+				hc, ok := c.(*http3Conn)
+				if !ok {
 					panic(fmt.Sprintf("http3.Server.ConnContext called with: %#v", c))
 				}
 				// httputil.ReverseProxy only aborts truncated responses
 				// when this key is set.
 				ctx = context.WithValue(ctx, http.ServerContextKey, &http.Server{})
-				return context.WithValue(ctx, connCtxKey, c)
+				return context.WithValue(ctx, connCtxKey, hc.QUICConn)
 			},
 			EnableDatagrams: false,
 		},
@@ -739,14 +740,47 @@ type gracefulHTTP3Server struct {
 	*http3.Server
 	shutdown      context.Context
 	startShutdown context.CancelFunc
+
+	mu sync.Mutex
+}
+
+// http3Conn is a QUIC connection that is served by gracefulHTTP3Server.
+type http3Conn struct {
+	*netw.QUICConn
+	started func()
+}
+
+// OpenUniStream is the first method that http3.Server calls.
+func (c *http3Conn) OpenUniStream() (quic.SendStream, error) {
+	c.started()
+	return c.QUICConn.OpenUniStream()
 }
 
 func (s *gracefulHTTP3Server) Shutdown(ctx context.Context) error {
-	s.startShutdown()
+	s.refuseConnections()
 	return s.Server.Shutdown(ctx)
 }
 
+func (s *gracefulHTTP3Server) Close() error {
+	s.refuseConnections()
+	return s.Server.Close()
+}
+
+func (s *gracefulHTTP3Server) refuseConnections() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.startShutdown()
+}
+
 func (s *gracefulHTTP3Server) serve(qc *netw.QUICConn) error {
+	// When http3.Server starts serving a connection, it changes fields that
+	// are used without holding any lock once it is shutting down.
+	s.mu.Lock()
+	started := sync.OnceFunc(s.mu.Unlock)
+	defer started()
+	if s.shutdown.Err() != nil {
+		return qc.CloseWithError(quic.ApplicationErrorCode(http3.ErrCodeNoError), "")
+	}
 	r := &http3Requests{lastTime: time.Now()}
 	qc.SetAnnotation(http3RequestsKey, r)
 	stop := context.AfterFunc(s.shutdown, func() {
@@ -764,7 +798,7 @@ func (s *gracefulHTTP3Server) serve(qc *netw.QUICConn) error {
 		}
 	})
 	defer stop()
-	return s.ServeQUICConn(qc)
+	return s.ServeQUICConn(&http3Conn{QUICConn: qc, started: started})
 }
 
 // http3Requests keeps track of the requests on a HTTP/3 connection.
-- 
2.43.0


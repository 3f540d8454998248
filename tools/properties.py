#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Each connection reaches only the backend configured for its name and ALPN",
  "For any configuration, a TLS or QUIC connection is served by, and only by, the backend configured for the (server name, ALPN) its ClientHello asks for, or, over TLS on TCP, by the default server name when it sends none; the choice never depends on what other clients do at the same time. A connection whose server name is not configured is refused with an unrecognized_name alert and no backend sees a connection or a byte of it. On HTTP and HTTPS backends a request whose Host is not one of that backend's server names is answered 421 and never forwarded.",
  ["configurations","inputs","schedules"],
  "all configurations of backends sharing names with disjoint ALPN lists, all SNI/ALPN/Host combinations, concurrently",
  "tests sample one static configuration and a dozen fixed SNI values, one after another",
  ["proxy/proxy.go","proxy/backend-http.go","proxy/quic.go","proxy/config.go"],
  [("backend lookup by (name, proto), default server name","proxy/proxy.go: Proxy.backend, handleConnection"),
   ("mismatched server name check","proxy/proxy.go: authorizeTLSConnection"),
   ("421 for misdirected requests","proxy/backend-http.go: localHandler/reverseProxy")],
  observe=["bytes and connections seen by each backend server","TLS alerts and responses seen by the client"])

p("P02", "Bridged connections deliver exactly the bytes sent, in order, both ways",
  "On TCP, TLS and TLS-passthrough backends the byte sequence the backend reads is exactly the sequence the client wrote and vice versa: nothing lost, duplicated, reordered, invented, or mixed with another connection, whatever the segmentation, sizes and timing. A peer that half-closes its sending side causes the other peer to read a clean end of stream after all the data, while the opposite direction keeps flowing as configured by the half-close options. When both sides are done, both connections are closed.",
  ["inputs","schedules","fault_sequences"],
  "all write/read/half-close/close/reset schedules of many simultaneous connections",
  "tests exchange one short message per connection and never half-close under load",
  ["proxy/backend.go","proxy/internal/netw/netw.go","proxy/proxy.go","proxy/util.go"],
  [("bidirectional copy with half-close propagation","proxy/backend.go: bridgeConns/forward"),
   ("peeked bytes are replayed before new reads","proxy/internal/netw/netw.go: Conn.Peek/Read")],
  observe=["per-connection byte logs at the client and at the backend"])

p("P03", "ClientHello inspection agrees with TLS and survives any byte sequence",
  "For every byte sequence a client may send, in every segmentation, the server name and ALPN list used for routing are those a conforming TLS implementation reads from the same bytes, and the inspected bytes are all replayed to the TLS layer or to the passthrough backend unchanged. Malformed, truncated, oversized or non-TLS openings are refused without any backend being contacted, and never crash, hang or disturb the proxy. (A ClientHello split over several TLS records may be refused.)",
  ["inputs"],
  "all byte strings and segmentations on a new TCP connection",
  "no test sends anything other than the crypto/tls client's own ClientHello in one segment",
  ["proxy/hello.go","proxy/proxy.go","proxy/internal/netw/netw.go"],
  [("bounded peek of the TLS records and ClientHello parsing","proxy/hello.go: peekClientHello, parseClientHello")],
  observe=["bytes captured at a passthrough backend","alert sent to the client","crypto/tls ClientHelloInfo as reference"])

p("P04", "HTTP requests and responses are forwarded intact to the right upstream",
  "Every request that an HTTP or HTTPS backend accepts is forwarded exactly once to the upstream selected by its path (the first path override with a matching prefix, else the backend itself), with the same method, path (normalized unless path sanitizing is off), query, body and end-to-end headers apart from the documented additions, and the client receives that upstream's status, headers (plus HSTS and Alt-Svc) and body unmodified, over HTTP/1.1, HTTP/2 and HTTP/3; only the body of a request with no declared length and a method other than POST, PUT or PATCH is not forwarded. A response is never delivered to a request other than the one that caused it. A request whose Via headers show that it already passed through this proxy is refused with 508 instead of being forwarded again.",
  ["inputs","configurations","schedules"],
  "all requests (methods, escaped paths, queries, bodies, headers), protocol combinations, path-override tables, concurrently",
  "tests send a handful of GET/POST requests with tiny bodies, sequentially, with one path override",
  ["proxy/backend-http.go","proxy/proxy.go"],
  [("reverse proxy director and path override selection","proxy/backend-http.go: reverseProxy, reverseProxyDirector"),
   ("loop detection","proxy/backend-http.go: Via handling")],
  observe=["requests recorded by upstream servers with unique ids","responses recorded by clients"])

p("P05", "Backends never see forged identity headers nor the proxy's own credentials",
  "The identity and provenance headers a backend receives (user id, client certificate, client address) always describe the authenticated user, certificate and peer of the connection the request came on, never values supplied by the client. The proxy's authentication and session cookies are never forwarded to a backend of an SSO-protected host, while all other cookies are forwarded unchanged. Configured extra headers carry exactly the expanded values, and an unauthenticated request carries no user identity.",
  ["inputs","configurations"],
  "all client-supplied header sets (names in any case, repeated, hop-by-hop listed), cookie sets and paths in and out of the SSO path list",
  "tests check one well-behaved request per header",
  ["proxy/backend-http.go","proxy/backend-sso.go","proxy/xfcc.go","proxy/internal/cookiemanager/cookiemanager.go"],
  [("director deletes and sets headers","proxy/backend-http.go: reverseProxyDirector/setForwardedHeaders"),
   ("auth cookie filtering","proxy/internal/cookiemanager/cookiemanager.go: FilterOutAuthTokenCookie"),
   ("user id header","proxy/backend-sso.go: enforceSSOPolicy")],
  observe=["raw requests recorded by upstream servers"])

p("P06", "Backend addresses are used in rotation and a dead one does not cost a request",
  "With several backend addresses, successive upstream connections (which HTTP requests may share) are spread over all of them in round-robin order, so that with all healthy the counts differ by at most one, also under concurrency and separately per path override. A connection attempt that fails at one address moves on to the next one, so a client is served as long as at least one address accepts connections, and is refused only after each address failed.",
  ["schedules","fault_sequences","configurations"],
  "all numbers of addresses, subsets of failing addresses and concurrent request orders",
  "tests use at most two healthy addresses and check alternation of two sequential requests",
  ["proxy/backend.go","proxy/backend-http.go"],
  [("next-address counters and retry loop","proxy/backend.go: dial")],
  observe=["connections and requests counted per upstream"])

p("P07", "Client certificates are enforced on every connection and protocol",
  "A backend that requires client authentication is reached only by connections that proved possession of the key of an unexpired certificate chaining to its configured CAs, not revoked by the proxy's own PKI at the time of the handshake, and whose subject or SANs are in the access list when there is one. This holds over TCP and QUIC, for full and resumed handshakes, and for every ALPN; every other client is refused before any byte reaches the backend. A connection that satisfies all of these is accepted.",
  ["inputs","configurations","histories"],
  "all certificates (issuer, validity, SAN kinds, revocation) x access lists x protocols, with session resumption across revocation",
  "tests use three certificates and no resumption or revocation after a session was established",
  ["proxy/proxy.go","proxy/backend.go","proxy/quic.go","proxy/internal/pki/pki.go"],
  [("RequireAndVerifyClientCert + VerifyConnection","proxy/proxy.go: Reconfigure"),
   ("access list match","proxy/backend.go: authorize"),
   ("revocation lookup","proxy/internal/pki/pki.go: IsRevoked")],
  observe=["connections at the backend","handshake alerts at the client"])

p("P08", "IP allow and deny rules are enforced exactly",
  "A connection is served by a backend iff its client address is not in any deny range and, when an allow list is configured, is in one of the allow ranges; this is true for IPv4, IPv6 and IPv4-mapped addresses, TCP and QUIC, every backend mode, and for the original client address announced by a trusted load balancer. A refused client gets no byte from the backend and the backend sees no connection.",
  ["inputs","configurations"],
  "all address/CIDR-set combinations, modes and transports",
  "tests evaluate ten address/rule pairs on a helper function",
  ["proxy/backend.go","proxy/proxy.go","proxy/quic.go","proxy/config.go"],
  [("allow/deny evaluation","proxy/backend.go: checkIP"),("checked before the handshake","proxy/proxy.go: handleConnection; proxy/quic.go")],
  observe=["backend connections and client outcomes for clients bound to many loopback addresses"])

p("P09", "PROXY protocol: only trusted peers set the address, backends get the true one",
  "A PROXY protocol header changes the client address the proxy uses (for access rules, headers, and upstream PROXY headers) only when the TCP peer is in the configured trusted ranges; from anyone else it is never honoured. A backend with the PROXY protocol enabled receives exactly one header, of the configured version, naming that connection's or request's own client, even when many clients share the proxy concurrently and upstream connections are pooled; backends without it receive none.",
  ["inputs","schedules","configurations"],
  "all header versions/addresses, trusted and untrusted peers, interleavings of requests of several clients",
  "tests check one header and two clients sequentially",
  ["proxy/proxy.go","proxy/backend.go","proxy/backend-http.go","proxy/internal/netw/netw.go"],
  [("trusted-peer test before wrapping","proxy/proxy.go: acceptProxyHeader"),
   ("outgoing header","proxy/backend.go: dial"),
   ("per-client transport pool key","proxy/backend-http.go: reverseProxyTransport")],
  observe=["raw bytes received by upstream servers"])

p("P10", "Nothing behind SSO is reachable without a valid, allowed identity",
  "A request to a path covered by a backend's SSO policy reaches the upstream, or a non-bypass local endpoint, only if it carries an unexpired credential issued by the proxy for that provider (or an ID token for that very host), whose email is in the access list when there is one and whose age satisfies the re-authentication policy; otherwise it gets a login redirect, 401 or 403. This cannot be evaded by the method, path encoding, dot segments, duplicate slashes, header case, HTTP version, or by concurrent requests. A request that satisfies the policy and one for a path outside the policy are forwarded.",
  ["inputs","configurations"],
  "all requests (method, target spelling, cookies, authorization headers) x SSO configurations (paths, exceptions, ACLs, force re-auth)",
  "tests exercise a few GET requests with one path prefix",
  ["proxy/backend-sso.go","proxy/backend-http.go","proxy/internal/cookiemanager/cookiemanager.go"],
  [("policy decision","proxy/backend-sso.go: enforceSSOPolicy, authenticateUser"),
   ("path normalization","proxy/backend-http.go: pathClean"),
   ("token validation","proxy/internal/cookiemanager/cookiemanager.go")],
  observe=["upstream request log","client responses"])

p("P11", "Credentials are accepted only as issued: no forgery and no cross-purpose use",
  "A token or cookie is accepted as an authentication credential only if this proxy signed it for that purpose, and only for the provider, audience and lifetime it was issued for: tokens signed with another key or algorithm, expired, truncated or modified, or issued by the proxy for another purpose (URL tokens, ID tokens, OIDC access tokens) or another provider or domain are always rejected. An untouched unexpired credential is always accepted for its purpose.",
  ["inputs"],
  "all tokens obtainable by mutating, re-signing or re-purposing tokens the proxy issues",
  "tests validate one good token and one for a wrong user",
  ["proxy/internal/tokenmanager/tokenmanager.go","proxy/internal/cookiemanager/cookiemanager.go","proxy/internal/tokenmanager/urltoken.go"],
  [("signature, algorithm and key id checks","proxy/internal/tokenmanager/tokenmanager.go: ValidateToken"),
   ("issuer, audience, purpose, provider checks","proxy/internal/cookiemanager/cookiemanager.go: ValidateAuthTokenCookie, ValidateAuthorizationHeader")],
  observe=["accept/reject decision and returned claims"])

p("P12", "Key rotation never invalidates a live token; published keys verify them all",
  "At every moment and across restarts, every unexpired token with an expiration time the proxy has issued verifies, with the proxy itself and with a standards-conforming verifier that only knows the published key set; and new tokens are only signed with keys that have been published for some time, except right after first start-up. Signing keys are replaced regularly and old ones are eventually withdrawn, but never while a token they signed can still be valid.",
  ["histories","schedules"],
  "all histories of hours to weeks of issuing, rotating, restarting and verifying",
  "the test rotates a few times by calling the rotation function directly; no simulated time, no independent JWKS verifier",
  ["proxy/internal/tokenmanager/tokenmanager.go"],
  [("rotation schedule, key choice, JWKS","proxy/internal/tokenmanager/tokenmanager.go: rotateKeys, CreateToken, ServeJWKS")],
  state=[("key set","signing keys with creation times","file token-keys in the cache directory")],
  observe=["tokens, JWKS document"])

p("P13", "Login redirects go only where the proxy decided, for the browser that asked",
  "The URL to which a user is sent after login or logout, and the claims attached to it, are exactly those recorded when the proxy started that login; a redirect token that was modified, issued to another browser session or otherwise not produced by this proxy is refused. No login, logout or callback endpoint redirects to a location taken from request input that was not authenticated this way.",
  ["inputs","histories"],
  "all original URLs, tampered tokens and session/token pairings",
  "tests validate one token for one session",
  ["proxy/internal/tokenmanager/urltoken.go","proxy/backend-sso.go","proxy/internal/passkeys/manager.go"],
  [("session-bound URL token","proxy/internal/tokenmanager/urltoken.go"),("login/logout handlers","proxy/backend-sso.go: serveLogin, serveLogout")],
  observe=["Location headers, validated URLs"])

p("P14", "An OIDC login only completes for a response to a request this proxy made",
  "The OIDC client issues an authentication cookie only for a callback whose state was handed out by this proxy, not used before and not older than a few minutes, whose code was exchanged at the configured token endpoint with the matching PKCE verifier, and whose ID token answers that same request, names this client as audience, carries an email that is not marked unverified and satisfies the hosted-domain restriction. Each state completes at most one login even under concurrent callbacks, and the user is sent to the URL recorded with it. Every other callback is refused without issuing a cookie.",
  ["histories","schedules","inputs"],
  "all interleavings of logins and (replayed, swapped, forged, concurrent, late) callbacks and identity-provider answers",
  "tests complete one honest login",
  ["proxy/internal/oidc/client.go"],
  [("state table, nonce, code verifier","proxy/internal/oidc/client.go: RequestLogin, HandleCallback")],
  observe=["Set-Cookie and Location on callback responses","requests received by a fake identity provider"])

p("P15", "The local OIDC server gives each code to its own client, once, unexpired",
  "An authorization code is redeemable at most once, only by the client it was issued to with that client's secret and for the redirect URI it was sent to, and only within its short lifetime, even under concurrent redemption attempts; codes are only ever sent to a redirect URI registered for that client. The resulting ID token names that client as audience and carries the identity, nonce and (rewritten) claims of the user who authorized it; userinfo returns that user's claims to the holder of the access token only.",
  ["histories","schedules","inputs"],
  "all interleavings of authorization, token and userinfo requests of several clients and users, including malformed ones",
  "the existing test only covers the claim rewrite helper and one end-to-end login",
  ["proxy/internal/oidc/server.go"],
  [("code and access-token tables","proxy/internal/oidc/server.go: ServeAuthorization, ServeToken, ServeUserInfo")],
  observe=["HTTP responses, decoded ID tokens verified with the published keys"])

p("P16", "A SAML response logs a user in only if signed, current and solicited, once",
  "The SAML service provider issues an authentication cookie only for a response carrying an assertion signed by the configured identity provider, addressed to this service (recipient and audience), within its validity window, and answering a request this proxy issued recently and that was not answered before; the identity used is the one in the signed assertion. Every other response, including modified, re-wrapped, replayed, concurrent duplicate or unsolicited ones, is refused without a cookie.",
  ["inputs","histories","schedules"],
  "all responses derivable by mutating, wrapping, replaying or re-addressing valid ones",
  "the repository has no SAML test",
  ["proxy/internal/saml/saml.go"],
  [("signature and condition checks, request table","proxy/internal/saml/saml.go: HandleCallback")],
  observe=["Set-Cookie and Location on the assertion consumer response"])

p("P17", "Passkey logins require a registered key's signature over a fresh challenge",
  "A passkey login succeeds only with an assertion signed by a key registered for that user and not deleted, over a challenge this proxy issued within the last minutes and not used before, for the right relying party, with user presence and verification; the resulting identity is the one registered with that key. Keys are only registered for the identity that authenticated with the underlying provider, permitted by the access list, and extra keys are only added, and keys only deleted, by the same user after a recent passkey login.",
  ["inputs","histories","schedules"],
  "all histories of registrations, logins, deletions by several users with replayed, swapped or corrupted assertions",
  "tests perform one honest registration and login with a fake authenticator",
  ["proxy/internal/passkeys/manager.go","proxy/internal/passkeys/webauthn.go"],
  [("challenge table, assertion and attestation verification","proxy/internal/passkeys/manager.go: processAssertion, processAttestation; webauthn.go: verifySignature")],
  observe=["JSON responses and Set-Cookie of the endpoints","stored key database after restart"])

p("P18", "Revocation status is the same everywhere, immediately and forever",
  "From the moment a revocation is acknowledged, the handshake check, every OCSP response and every CRL fetched from the PKI report that certificate revoked, permanently and across restarts, and never report a certificate revoked that was not; issued, unrevoked certificates are reported good (serial numbers that were never issued are reported revoked, reason certificateHold). Serial numbers are unique, CRL numbers strictly increase with content, and every CRL and OCSP response is correctly signed, not expired when served, and verifiable against the published CA certificate, also long after start-up as delegate certificates rotate.",
  ["histories","schedules"],
  "all histories of issue/revoke/query/restart operations over simulated days to years, sequential and concurrent",
  "the test issues and revokes one certificate at one instant",
  ["proxy/internal/pki/pki.go","proxy/internal/pki/http.go"],
  [("certificate database and CRL/OCSP generation","proxy/internal/pki/pki.go: RevokeCertificate, RevocationList, OCSPResponse, maybeRotateDelegateCert")],
  state=[("PKI database","issued certs, revocations, CRL number, delegate certs","file pki-* in the cache directory")],
  observe=["DER of CRL/OCSP/CA responses parsed with x509/ocsp"])

p("P19", "The PKI issues and revokes only on behalf of the authenticated user",
  "Through the certificate management endpoint, a user obtains certificates that only assert that user's own email identity and never CA rights, and can only revoke certificates issued to that user, unless the user is a configured administrator; every state-changing request needs the anti-CSRF header and an authenticated identity. Issued certificates chain to the CA, and contain the public key of the request whose signature was verified.",
  ["inputs","histories"],
  "all certificate requests (subjects, SANs, extensions, key types, corrupt signatures) by several users and admins",
  "tests issue two certificates through the Go API",
  ["proxy/internal/pki/http.go","proxy/internal/pki/pki.go"],
  [("owner/admin checks and CSR template","proxy/internal/pki/http.go: handleRequestCert, handleRevokeCert; pki.go: IssueCertificate")],
  observe=["HTTP responses, issued certificates, revocation state"])

p("P20", "SSH certificates are issued only to the logged-in user, for that user, briefly",
  "The SSH CA returns a certificate only to an authenticated request, for the submitted public key, with the caller's email as its only principal and key id, of user type, with a validity that starts around now and does not exceed the advertised maximum, and correctly signed by the published CA key, which is stable across restarts. Any other request (no identity, CSRF header missing, malformed key, certificate instead of key) yields no certificate.",
  ["inputs","histories"],
  "all submitted keys and TTLs by many users, restarts in between",
  "tests sign one key",
  ["proxy/internal/sshca/sshca.go"],
  [("certificate template and signing","proxy/internal/sshca/sshca.go: ServeCertificate")],
  observe=["returned certificates parsed and checked with x/crypto/ssh"])

p("P21", "Static serving never leaves the document root or reveals hidden files",
  "Whatever the request path, a static backend returns only bytes of regular files reached through its document root (or path-override document root; symbolic links placed there are followed) by a path with no hidden component, with that file's exact content, honouring conditional and range requests, and answers 404 otherwise (403 for a directory without index file); directories are served only through their index file with a redirect that stays on the same host.",
  ["inputs","configurations"],
  "all request paths (encodings, dot segments, NULs, backslashes, long names) over a tree with symlinks, hidden files and directories",
  "tests request about twenty fixed paths",
  ["proxy/backend-http.go"],
  [("path cleaning and file lookup","proxy/backend-http.go: pathClean, serveStaticFiles")],
  observe=["response bodies matched against unique file contents"])

p("P22", "Reconfiguration is atomic, applies to live connections and disturbs no one else",
  "A configuration change either takes effect completely or, when it is invalid, changes nothing, and never crashes the proxy; at every moment each new connection is handled entirely by the old or the new configuration and is eventually answered or closed. After it, established connections that the new configuration would no longer admit (name removed, mode changed, address denied, certificate no longer in the access list) are closed promptly, and all other established streams continue without losing a byte.",
  ["schedules","configurations","histories"],
  "all sequences of configuration changes interleaved with connections in every phase (accepting, handshaking, bridging, HTTP in flight)",
  "no test reconfigures while connections are open",
  ["proxy/proxy.go","proxy/backend.go","proxy/http.go","proxy/conntracker.go"],
  [("build new state, then swap under lock","proxy/proxy.go: Reconfigure"),("re-authorization of live connections","proxy/proxy.go: reAuthorize"),("listener hand-off and drain","proxy/http.go: proxyListener")],
  observe=["client connection outcomes during churn","process liveness"])

p("P23", "Open connections are counted exactly, capped, and released at shutdown",
  "The number of simultaneously open client connections never exceeds the configured maximum, connections beyond it are refused, and every closed connection, however it ended, gives its slot back. Graceful shutdown stops accepting, lets in-flight HTTP requests finish within the grace period, then closes everything; afterwards no listener, connection or goroutine of the proxy remains.",
  ["schedules","fault_sequences"],
  "all orders of connects, handshake failures, aborts, idle, normal and abortive closes, TCP and QUIC",
  "no test reaches the limit or inspects what remains after Stop",
  ["proxy/proxy.go","proxy/conntracker.go","proxy/http.go","proxy/quic.go","proxy/internal/netw/netw.go"],
  [("connection tracker add/remove via OnClose","proxy/conntracker.go; proxy/internal/netw/netw.go: OnClose"),("shutdown sequence","proxy/proxy.go: Shutdown, Stop")],
  observe=["accepted/refused connections at the limit","goroutine dump and socket table after Stop"])

p("P24", "Rate and bandwidth limits are upper bounds on what is actually let through",
  "Over any interval, the number of new connections forwarded to a backend does not exceed the burst plus the configured rate times the interval, and the bytes relayed in each direction by all the connections sharing a bandwidth limit do not exceed the burst plus the limit times the interval. Limits with different names are independent, a backend referring to a defined limit is always subject to it, and limits never corrupt or abort a transfer.",
  ["schedules","configurations"],
  "all mixes of connections, transfer sizes and limit sharing",
  "one timing test measures one transfer (and is not in the stable set)",
  ["proxy/proxy.go","proxy/internal/netw/netw.go","proxy/internal/netw/quic.go","proxy/backend.go"],
  [("token buckets","proxy/internal/netw/netw.go: SetLimiters, Read, Write; proxy/proxy.go: connLimit.Wait")],
  observe=["timestamps of bytes and connections at both ends"])

p("P25", "No data race under concurrent traffic, reconfiguration and administration",
  "Under any concurrent mix of client traffic on every protocol and backend mode, SSO logins, PKI, SSH and token operations, metrics requests, reconfigurations and shutdown, no two goroutines access the same memory without synchronization where one of them writes.",
  ["schedules"],
  "all schedules of concurrent operations the process serves",
  "the suite is not run with the race detector and overlaps few operations",
  ["proxy/proxy.go","proxy/backend.go","proxy/backend-http.go","proxy/websocket.go","proxy/internal/pki/pki.go","proxy/internal/tokenmanager/tokenmanager.go","proxy/internal/passkeys/manager.go","proxy/internal/netw/quic.go"],
  [("mutexes around shared state","throughout")],
  observe=["Go race detector reports"])

p("P26", "Acknowledged state survives a crash at any instant and is never left unreadable",
  "If the process is killed at any point, on restart every certificate issuance and revocation, CRL number, passkey registration and deletion, SSH CA and token signing key that had been acknowledged is still there, CRL numbers and serials are not reused, unacknowledged operations took effect entirely or not at all, and every store opens again without manual repair.",
  ["crash_points","histories"],
  "all kill points during sequences of state-changing operations",
  "no test kills the process",
  ["proxy/internal/pki/pki.go","proxy/internal/passkeys/manager.go","proxy/internal/tokenmanager/tokenmanager.go","proxy/internal/sshca/sshca.go"],
  [("open-for-update / commit with atomic replace","storage module used by proxy/internal/*")],
  observe=["acknowledgement log written by a child process, state read back after SIGKILL"])

p("P27", "A failed state write is reported and leaves the previous state in force",
  "When saving state fails (disk full, unwritable directory), the operation is reported as failed to its caller and has no effect: no certificate is handed out that revocation or listing would not know, no revocation, key registration or deletion is reported done that is not durable, and nothing half-done becomes visible later or after restart. When the storage works again the service continues normally, without a restart.",
  ["fault_sequences","histories"],
  "all placements of write failures in histories of state-changing operations",
  "no test injects storage failures",
  ["proxy/internal/pki/pki.go","proxy/internal/passkeys/manager.go","proxy/internal/tokenmanager/tokenmanager.go"],
  [("commit/rollback of the in-memory database","proxy/internal/pki/pki.go; proxy/internal/passkeys/manager.go")],
  observe=["API results vs. state observable before and after restart"])

p("P28", "A revoked or unconfirmed external certificate is never accepted through OCSP",
  "When a certificate names an OCSP responder, it is accepted only on a correctly signed, unexpired response about that very certificate saying it is good; revoked, unknown, expired, mis-signed or missing answers, or answers about another certificate, lead to rejection; one that every responder confirms is accepted. A cached answer is never used past its expiry, and a cached revocation is not overridden by a stapled answer.",
  ["inputs","histories","fault_sequences"],
  "all responder behaviours (answers, errors, replays, delays) and cache histories over simulated time",
  "the repository has no OCSP cache test",
  ["proxy/internal/ocspcache/ocsp.go"],
  [("response parsing, freshness and cache","proxy/internal/ocspcache/ocsp.go: VerifyChains, Response, fetchOneOCSP")],
  observe=["verification result against a scripted responder"])

p("P29", "WebSocket endpoints relay exactly the bytes and end when either side ends",
  "On a WebSocket endpoint the concatenation of the binary messages a client sends is exactly what the TCP server reads, and the bytes the server sends are exactly the concatenation of the messages the client receives, for any message sizes and interleaving and without mixing clients. When either side closes, the other is closed within bounded time and no connection or goroutine is left behind; unauthorized requests never reach the server.",
  ["inputs","schedules","fault_sequences"],
  "all message sizes, interleavings and closing orders",
  "no test covers the WebSocket handler",
  ["proxy/websocket.go"],
  [("two copy loops with ping/pong liveness","proxy/websocket.go: webSocketHandler")],
  observe=["byte logs at the WebSocket client and TCP server"])

p("P30", "Configurations are accepted or refused as a whole and never crash the proxy",
  "Reading any configuration text either returns an error or a configuration that the proxy can load without crashing; contradictory configurations (duplicate names or name/ALPN pairs, undefined references, malformed ranges, missing fields) are always refused. Loading the same configuration twice is a no-op, and what was loaded does not change when the caller later modifies its copy.",
  ["inputs","configurations"],
  "all configuration texts and structures",
  "one test reads one example file",
  ["proxy/config.go","proxy/proxy.go"],
  [("strict decoding and validation","proxy/config.go: ReadConfig, Check, clone, equal")],
  observe=["errors and observable behaviour after load"])

p("P31", "Clients are served a certificate for the name they asked for",
  "A completed handshake presents a certificate valid for the requested (or default) server name: the first configured certificate whose patterns match the name, else one from the certificate manager, and never one configured for other names; concurrent handshakes for different names, TCP or QUIC, never get each other's certificates. A certificate or key file replaced on disk is used by later handshakes.",
  ["inputs","configurations","schedules"],
  "all names, pattern lists and concurrent handshakes, with files replaced in between",
  "tests check a few fixed names sequentially",
  ["proxy/proxy.go","certmanager/certmanager.go"],
  [("certificate selection","proxy/proxy.go: getCertFromConfig, baseTLSConfig")],
  observe=["peer certificates seen by clients"])

p("P32", "The forwarded client certificate header decodes to exactly that certificate",
  "For every client certificate (any subject, URI and DNS SANs, including quotes, commas, semicolons, backslashes, equal signs and non-ASCII text) the x-forwarded-client-cert header contains only the configured fields and parses, per its documented syntax, back to that certificate's hash, PEM, chain, subject, and SANs; distinct values never produce the same header and one value can never be read as several fields or elements.",
  ["inputs"],
  "all certificates and field selections",
  "tests encode two certificates",
  ["proxy/xfcc.go"],
  [("field encoding and quoting","proxy/xfcc.go: encodeXFCC")],
  observe=["header received by the upstream, parsed by an independent parser"])

p("P33", "Traffic accounting matches the bytes actually transferred",
  "The connection and byte totals the proxy reports per server name equal the number of connections made and the bytes carried by those connections in each direction, with no loss under concurrency; reported rates over a window equal the average of what was counted in it and return to zero when traffic stops. Totals never decrease while the proxy runs.",
  ["schedules","histories"],
  "all interleavings of concurrent increments and reads over simulated time",
  "tests increment one counter from one goroutine",
  ["proxy/internal/counter/counter.go","proxy/metrics.go","proxy/internal/netw/netw.go"],
  [("ring-buffer rate counter","proxy/internal/counter/counter.go"),("per-name counters","proxy/metrics.go: setCounters")],
  observe=["metrics page vs. client/backend byte logs"])

p("P34", "No network input can crash or wedge the proxy",
  "Whatever bytes, requests, tokens or certificates clients, backends or identity providers send, in any order and at any moment, the process keeps running, no request handler panics, and other clients keep being served.",
  ["inputs","fault_sequences","schedules"],
  "all inputs at every network-facing parser and endpoint, and all abortive endings",
  "tests send well-formed traffic",
  ["proxy/hello.go","proxy/proxy.go","proxy/backend-http.go","proxy/quic.go","proxy/internal/passkeys/webauthn.go","proxy/internal/pki/http.go","proxy/internal/saml/saml.go","proxy/internal/oidc/client.go"],
  [("bounded parsing and recover","throughout")],
  observe=["process liveness, panic counters/logs, probe requests"])

p("P35", "QUIC streams and datagrams are relayed one-to-one without mixing",
  "On QUIC backends every stream a client or backend opens (bidirectional or unidirectional) is relayed to exactly one stream of the same kind on the other side carrying exactly its bytes and its end; streams and connections never exchange data, and resetting or finishing one stream does not disturb others. Datagrams are delivered unmodified, at most once, to the peer of the same connection. When one connection closes, its counterpart is closed.",
  ["schedules","inputs","fault_sequences"],
  "all numbers, kinds and interleavings of streams, resets and closes on many connections",
  "one test opens a scripted tree of short streams",
  ["proxy/quic.go","proxy/internal/netw/quic.go"],
  [("stream and datagram bridges","proxy/quic.go: handleQUICQUICConnection; proxy/internal/netw/quic.go")],
  observe=["per-stream byte logs at both QUIC endpoints"])

p("P36", "Upstream servers are authenticated as the configuration says",
  "On backends and path overrides of mode TLS, HTTPS and QUIC, application data is sent only on connections to a server that proved, during that connection's handshake, that it holds a currently valid server certificate for forwardServerName issued under one of that backend's (or that path override's own) forwardRootCAs and not revoked by the proxy's PKI or OCSP, unless insecureSkipVerify is set for that same backend or override; a server that doesn't is refused and the next address is tried, and one that does is used. When the server asks for a certificate, the proxy presents its own for the name that the client asked for.",
  ["inputs","configurations","histories"],
  "all server certificates, rules, address lists and revocation histories, over TCP and QUIC",
  "tests use one CA and one good certificate",
  ["proxy/backend.go","proxy/quic.go","proxy/proxy.go","proxy/internal/ocspcache/ocsp.go"],
  [("TCP and TLS dialing","proxy/backend.go: dial"),("QUIC dialing","proxy/quic.go: dialQUICBackend"),("trusted CAs and client certificate","proxy/proxy.go: forwardRootCAs, pkiMap, getClientCert")],
  observe=["tokens received by each upstream server, with the identity and time of the connection they came on"])

p("P37", "Credentials are not disclosed where they do not belong",
  "The credentials that the proxy issues or holds (authentication cookies, ID and access tokens, client secrets, tokens from identity providers, private keys) appear only where they are meant to: the proxy's cookies are always set with Secure, HttpOnly, SameSite Lax or Strict and either no domain or, for the cookies of the login itself, the provider's configured domain, and expire; an ID token cookie is for the server that sets it; authentication cookies are never sent to upstream servers, ID tokens only to the backend they are for. No credential is written to the log, shown in a page or error, put in a redirect, or stored on disk unencrypted or readable by other users.",
  ["inputs","histories","configurations"],
  "all sessions, requests and failures",
  "tests look at the cookies of a few requests and never at logs, pages or files",
  ["proxy/internal/cookiemanager/cookiemanager.go","proxy/internal/tokenmanager/urltoken.go","proxy/backend-sso.go","proxy/backend-http.go","proxy/http.go","proxy/internal/oidc/server.go"],
  [("cookies","proxy/internal/cookiemanager/cookiemanager.go"),("what is forwarded","proxy/backend-http.go: reverseProxy"),("what is logged","proxy/http.go: logHandler, proxy/logging.go")],
  observe=["responses, log entries, upstream requests and files of the cache directory, with the proxy's own keys as the judge of what is a credential"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        if len(r["title"]) > 80: print("LONG", r["id"], len(r["title"]))
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))

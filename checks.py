"""Which harness steps decide which property, and how."""
def step(pkg, test, race=False, experiment="", **kw):
    return dict(pkg=pkg, test=test, race=race, experiment=experiment, **kw)

def check(tech, note, *steps, level="exploration", assumptions=()):
    return dict(tech=tech, note=note, steps=list(steps), level=level, assumptions=list(assumptions))

LOOP = "clients, proxy and upstream servers share one machine and talk over loopback"

# Workloads that also run under the race detector.
RACED = [("reconf", "TestP22", "", 1), ("opens", "TestP23Shutdown", "", 1), ("bridge", "TestP35", "", 1),
         ("pki", "TestP18", "synctest", 4), ("tokens", "TestP15", "synctest", 2), ("ocspc", "TestP28E2E", "synctest", 1), ("ocspc", "TestP28", "synctest", 8)]

CHECKS = {
    "P01": check("runtime monitoring: routing oracle over token logs of real upstreams",
                 "Every client attempt of generated configurations is compared with an independent routing specification, and an offline pass over everything the upstream servers saw checks that no client's token or connection reached another backend. Sampled configurations and attempts; concurrency is whatever 8 parallel clients produce.",
                 step("route", "TestP01"), assumptions=[LOOP]),
    "P02": check("runtime monitoring: byte-exact stream monitors at both ends", "", step("bridge", "TestP02"), assumptions=[LOOP]),
    "P03": check("runtime monitoring: crypto/tls as the reference reader of the same opening bytes, byte capture at the backends", "", step("hello", "TestP03"), assumptions=[LOOP]),
    "P04": check("runtime monitoring: request/response comparison at both ends of the proxy", "", step("httpx", "TestP04"), assumptions=[LOOP]),
    "P05": check("runtime monitoring: identity headers and cookies observed at the upstream against the connection they belong to", "", step("httpx", "TestP05"), assumptions=[LOOP]),
    "P06": check("runtime monitoring: per-upstream connection counters", "", step("route", "TestP06"), assumptions=[LOOP]),
    "P07": check("runtime monitoring: independent decision about every presented certificate compared with the outcome of each handshake, and audit of what reached the upstream servers", "", step("clientauth", "TestP07"), assumptions=[LOOP]),
    "P08": check("runtime monitoring: admission oracle over connection outcomes", "", step("route", "TestP08"), assumptions=[LOOP]),
    "P09": check("runtime monitoring: PROXY headers parsed at the upstreams against the connection they belong to", "", step("httpx", "TestP09"), assumptions=[LOOP]),
    "P10": check("runtime monitoring: SSO policy oracle over what reached the upstreams", "", step("sso", "TestP10"), assumptions=[LOOP]),
    "P11": check("runtime monitoring: credential-acceptance oracle over forged, mutated and cross-purpose tokens", "", step("sso", "TestP11"), assumptions=[LOOP]),
    "P12": check("runtime monitoring: auditor of all live tokens and an independent JWKS verifier on a virtual clock", "", step("tokens", "TestP12", experiment="synctest"), assumptions=["time is the virtual clock of testing/synctest"]),
    "P13": check("runtime monitoring: redirect-destination oracle over login and logout flows", "", step("sso", "TestP13"), assumptions=[LOOP]),
    "P14": check("runtime monitoring: login-acceptance oracle over scripted identity-provider answers, and a virtual clock for expiry", "", step("sso", "TestP14"), step("sso", "TestP14Time", experiment="synctest"), assumptions=[LOOP]),
    "P15": check("runtime monitoring: model of the issued codes checked against concurrent histories on a virtual clock", "", step("tokens", "TestP15", experiment="synctest"), assumptions=["time is the virtual clock of testing/synctest"]),
    "P16": check("runtime monitoring: login-acceptance oracle over honest, forged, wrapped, mutated, replayed and concurrent SAML responses on a virtual clock", "", step("idps", "TestP16", experiment="synctest"), assumptions=["time is the virtual clock of testing/synctest"]),
    "P17": check("runtime monitoring: model of the registered keys checked against altered, replayed and concurrent authenticator messages, on a virtual clock and across restarts", "", step("idps", "TestP17", experiment="synctest"), assumptions=["time is the virtual clock of testing/synctest", "the authenticators and the other identity provider are the harness's own"]),
    "P18": check("runtime monitoring: model of acknowledged revocations checked against every CRL, OCSP answer and handshake verdict, on a virtual clock, across restarts and under concurrency", "", step("pki", "TestP18", experiment="synctest"), assumptions=["time is the virtual clock of testing/synctest"]),
    "P19": check("runtime monitoring: model of who owns which certificate, content oracle for every issued certificate, at the handlers and through a running proxy with real logins", "", step("pki", "TestP19"), step("pki", "TestP19E2E"), assumptions=[LOOP]),
    "P20": check("runtime monitoring: content oracle for every issued SSH certificate, at the handler and through a running proxy with real logins, across restarts", "", step("pki", "TestP20"), step("pki", "TestP20E2E"), assumptions=[LOOP]),
    "P21": check("runtime monitoring: static-file oracle with its own model of the document roots", "", step("httpx", "TestP21"), assumptions=[LOOP]),
    "P32": check("runtime monitoring: independent decoding of the certificate header at the upstream against the presented certificate", "", step("httpx", "TestP32"), assumptions=[LOOP]),
    "P25": check("runtime monitoring: Go race detector over a proxy with every feature in use at the same time, reconfigured and stopped meanwhile, and over the workloads of other properties",
                 "", step("opens", "TestP25", race=True),
                 *[step(p, t, race=True, races_only=True, experiment=x, args_env={"VERIF_PART": str(n)}) for p, t, x, n in RACED], assumptions=[LOOP]),
    "P26": check("runtime monitoring: a child process killed at chosen system calls and random moments while it reports what was acknowledged; the state found afterwards is audited against that", "", step("idps", "TestP26", experiment="synctest"), step("opens", "TestP26Stop"), assumptions=["a crash is the death of the process, or a stop while it is busy; the file system keeps what was written"]),
    "P27": check("runtime monitoring: model of acknowledged and failed operations audited against every way the state can be observed, with write faults injected into the real storage", "", step("idps", "TestP27", experiment="synctest"), step("idps", "TestP27Tokens", experiment="synctest"), assumptions=["write faults are file-size limits and a directory that is none"]),
    "P28": check("runtime monitoring: model of the valid answers given by scripted responders and staples, on a virtual clock", "", step("ocspc", "TestP28", experiment="synctest"), step("ocspc", "TestP28E2E", experiment="synctest"), assumptions=["time is the virtual clock of testing/synctest"]),
    "P29": check("runtime monitoring: byte-exact stream monitors at the WebSocket clients and the TCP server, with every way of ending", "", step("bridge", "TestP29"), assumptions=[LOOP]),
    "P31": check("runtime monitoring: certificate-selection oracle over handshakes", "", step("route", "TestP31"), assumptions=[LOOP]),
    "P33": check("runtime monitoring: independent accounting compared with the counters on a virtual clock, and with the metrics page of a running proxy", "", step("counters", "TestP33Counter", experiment="synctest"), step("counters", "TestP33E2E", experiment="synctest"), assumptions=[LOOP]),
    "P22": check("runtime monitoring: byte-exact long-lived streams and requests of every mode during configuration changes, with a model of what each configuration admits", "", step("reconf", "TestP22"), step("reconf", "TestP22Live"), assumptions=[LOOP]),
    "P23": check("runtime monitoring: connections held at the limit after connections that ended in every way, and client, socket and goroutine monitors around every kind of shutdown", "", step("opens", "TestP23Open"), step("opens", "TestP23Shutdown"), assumptions=[LOOP]),
    "P24": check("runtime monitoring: arrival monitors at the receiving ends compared at every arrival with the bound of the limit; exact on a virtual clock for the limiters", "", step("limits", "TestP24Bandwidth"), step("limits", "TestP24Conn", experiment="synctest"), step("limits", "TestP24Rate"), assumptions=[LOOP]),
    "P30": check("runtime monitoring: acceptance oracle over contradictory and mutated configurations given to the real reader and to a running proxy, with connections in use as witnesses", "", step("opens", "TestP30"), step("opens", "TestP30Same"), step("opens", "TestP30Text"), assumptions=[LOOP]),
    "P34": check("runtime monitoring: hostile clients, servers and identity providers against a proxy with every feature in use; panic, liveness and memory monitors", "", step("opens", "TestP34"), step("opens", "TestP34Memory"), assumptions=[LOOP]),
    "P35": check("runtime monitoring: byte-exact monitors at both ends of every QUIC stream and datagram, with every way of ending", "", step("bridge", "TestP35"), assumptions=[LOOP]),
    "P36": check("runtime monitoring: independent judgement of each upstream server's identity compared with which servers received anything, on which connection and when it was made", "", step("upstream", "TestP36"), assumptions=[LOOP]),
    "P37": check("runtime monitoring: every response, log entry, upstream request and stored file of user sessions searched for credentials that verify, and every cookie's attributes", "", step("sso", "TestP37"), assumptions=[LOOP]),
}

# What each check covers, and where it ends.
NOTES = {
    "P02": "Random sessions on TCP, TLS and passthrough backends with position-dependent byte streams, half-closes in either order, late data, PROXY headers and slow readers; both ends compare every byte. A loss that needs more than a few MB or a special kernel state can be missed.",
    "P03": "Real, built, padded, mangled and random opening bytes in random segmentations; the backend chosen and the bytes it gets are compared with what crypto/tls reads. Where TLS itself rejects the bytes, only replay and survival are judged.",
    "P04": "HTTP/1, 2 and 3 clients against HTTP/1, 2 and 3 upstreams; requests and responses are compared at both ends, including trailers, upgrades, 1xx, aborted responses and loops.",
    "P05": "Forged identity headers, Connection tricks, cookies of every shape and real sessions; the upstream's view is compared with the identity of the connection.",
    "P06": "Batches of concurrent clients over healthy and dead addresses; per-upstream counts are compared with exact round-robin bounds.",
    "P07": "Certificates of many CAs, states and names over TCP and QUIC, with resumption, revocation and reconfiguration; each outcome is compared with an independent decision.",
    "P08": "Random rule sets against IPv4, IPv6 and mapped addresses, direct or announced by a trusted load balancer.",
    "P09": "Trusted and untrusted peers with valid, absent and broken PROXY headers; headers parsed at the upstream.",
    "P10": "Policies x request targets (plain and obfuscated) x credentials x HTTP versions; the upstream log decides whether something was reached.",
    "P11": "Genuine tokens of every purpose used for every other, mutated, re-signed and unsigned ones.",
    "P12": "Months of virtual time with rotations, downtime and restarts; every live token is verified by the proxy and by an independent verifier with cached key sets.",
    "P13": "Login and logout flows with modified, swapped and minted redirect tokens; every Location header is judged.",
    "P14": "One deviation per login in every checked element, concurrent callbacks, and callbacks at chosen virtual times.",
    "P15": "Random concurrent histories of the local OIDC server against a model of its codes.",
    "P16": "Signed SAML responses with every deviation, wrapping, mutation, replay and concurrency. Timing is virtual.",
    "P17": "Software authenticators, honest and altered in one respect. The known finding (origin not checked) is reported as such.",
    "P18": "Every CRL, OCSP answer and handshake verdict is compared with the acknowledged revocations, across restarts and virtual time.",
    "P19": "CSRs asking for everything, by users with ordinary and odd identities; the content of each certificate is audited.",
    "P20": "Public keys of every type and malformed ones; the content of each certificate is audited with golang.org/x/crypto/ssh.",
    "P21": "Hostile request targets against a model of the document roots that is never read from disk.",
    "P22": "Long-lived traffic of every mode while random configurations, also invalid and slow ones, are loaded. Logins in progress are not part of the property.",
    "P23": "Every way a connection can end, then the limit must be reachable exactly; every state of a client at Stop and Shutdown, then goroutines and sockets are audited.",
    "P24": "Upper bounds checked at every arrival at the receiver; the limiters themselves on a virtual clock. Lower bounds are not part of the property, except that transfers complete.",
    "P25": "The race detector sees only the interleavings that happen; workloads are chosen to make everything overlap.",
    "P26": "Kills at chosen system calls (strace starts the child and injects SIGKILL at the nth call; without strace only the second kind) and at random moments; the loss of data in the page cache is out of scope.",
    "P27": "Write faults by file-size limits and by directories that are no directories, at each state-changing operation.",
    "P28": "Scripted responders and staples with every kind of answer, at chosen virtual times.",
    "P29": "Binary sessions with random message boundaries and every way of ending; connections that are idle are kept.",
    "P30": "About 50 kinds of contradictions in random valid configurations, through ReadConfig, Check and Reconfigure; texts mutated as trees and as bytes; what is accepted is loaded and used. Whether an accepted configuration is useful is not judged.",
    "P31": "Handshakes for names that match none, one or several certificates, also while files are replaced.",
    "P32": "Certificates with every special character; the header is parsed with an independent parser.",
    "P33": "Counter histories on a virtual clock, and the metrics page of a running proxy compared with the harness's own accounting.",
    "P34": "About 2,000 hostile inputs per run from all three sides, with slow and stuck peers still connected while everything is probed; request bodies of 400 MB. CPU exhaustion is judged only by the probes' generous time limits.",
    "P35": "Streams of every kind with resets, STOP_SENDING, slow readers and datagrams; both ends compare every byte.",
    "P36": "TLS, HTTPS (HTTP/1, 2, 3) and QUIC upstreams with 30 kinds of identity against random rules of backends and path overrides, one to two addresses each, before and after revocations. A server that is already connected when its certificate is revoked isn't judged.",
    "P37": "Sessions with logins, logouts, odd and broken credentials, the local OIDC server, the console, PKI and SSH endpoints and errors. Authorization codes and login-page tokens in logged URLs aren't judged: they can't be used again or by another browser.",
}
for _k, _v in NOTES.items():
    CHECKS[_k]["note"] = CHECKS[_k]["note"] or _v

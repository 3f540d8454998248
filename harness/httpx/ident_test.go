package httpx

import (
	"bytes"
	"crypto/sha256"
	"crypto/tls"
	"encoding/hex"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

type ident struct {
	email  string
	auth   string // TLSPROXYAUTH
	idtok  map[string]string
	source string
}

// TestP05: what upstreams learn about clients.
func TestP05(t *testing.T) {
	run := vh.New(t, "A case is one request with some mix of real credentials, forged identity headers and cookies, compared with what the upstream received; distinct non-trivial = distinct (backend, path class, user, forgeries, protocol, client certificate).")
	e := vp.NewEnv(t)
	clientCA := vp.NewCA("client-ca")
	idp := vp.NewIDP(t)
	rec := newRecorder()
	up := func(name string) string { return startUpstream(t, e, rec, name, "HTTP", "") }
	alpn := &[]string{"h2", "http/1.1", "h3"}
	hdrs := map[string]string{"X-Email": "${JWT:email}", "X-Sub": "<${JWT:sub}>", "X-Net": "${NETWORK}", "X-Remote-Ip": "${REMOTE_IP}", "X-Remote": "${REMOTE_ADDR}", "X-Local-Ip": "${LOCAL_IP}", "X-Name": "${SERVER_NAME}", "X-Const": "const", "X-None": "${JWT:nope}"}
	ovh := map[string]string{"X-Email": "o:${JWT:email}", "X-Const": "ovr"}
	bes := []*proxy.Backend{
		{ServerNames: []string{"s0.v.test"}, Mode: "HTTP", Addresses: []string{up("s0")}, SSO: &proxy.BackendSSO{Provider: "idp1", SetUserIDHeader: true}, ForwardHTTPHeaders: hdrs, ALPNProtos: alpn},
		{ServerNames: []string{"s1.v.test"}, Mode: "HTTP", Addresses: []string{up("s1")}, SSO: &proxy.BackendSSO{Provider: "idp1", SetUserIDHeader: true, Paths: []string{"/private"}}, ForwardHTTPHeaders: hdrs, ALPNProtos: alpn,
			PathOverrides: []*proxy.PathOverride{{Paths: []string{"/pub/o/"}, Addresses: []string{up("s1o")}, ForwardHTTPHeaders: &ovh}}},
		{ServerNames: []string{"s2.v.test"}, Mode: "HTTP", Addresses: []string{up("s2")}, ALPNProtos: alpn, ClientAuth: &proxy.ClientAuth{RootCAs: []string{clientCA.PEM}, AddClientCertHeader: []string{"hash", "subject", "dns"}}},
		{ServerNames: []string{"s3.v.test"}, Mode: "HTTP", Addresses: []string{up("s3")}, SSO: &proxy.BackendSSO{Provider: "idp1", GenerateIDTokens: true, Paths: []string{"/private", "/x/"}}, ForwardHTTPHeaders: map[string]string{"X-Tlsproxy-User-Id": "${JWT:email}"}, ALPNProtos: alpn},
		{ServerNames: []string{"s4.v.test"}, Mode: "HTTP", Addresses: []string{up("s4")}, SSO: &proxy.BackendSSO{Provider: "idp2", SetUserIDHeader: true, Paths: []string{"/private"}}, ALPNProtos: alpn,
			ClientAuth: &proxy.ClientAuth{RootCAs: []string{clientCA.PEM}, AddClientCertHeader: []string{"hash"}}},
		{ServerNames: []string{"s5.v.test"}, Mode: "HTTP", Addresses: []string{up("s5")}, ALPNProtos: alpn},
		{ServerNames: []string{"s6.v.test"}, Mode: "HTTP", Addresses: []string{up("s6")}, ALPNProtos: alpn, ClientAuth: &proxy.ClientAuth{RootCAs: []string{clientCA.PEM}}},
		{ServerNames: []string{"login.v.test"}, Mode: "LOCAL", ALPNProtos: alpn},
	}
	cfg := e.Config(true, bes...)
	cfg.OIDCProviders = []*proxy.ConfigOIDC{idp.Config("idp1", "login.v.test", "v.test"), idp.Config("idp2", "login.v.test", "v.test")}
	p := e.Start(cfg)
	defer p.End()

	// Real logins for two users at two providers.
	login := func(start, email string) *ident {
		b := p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
		if strings.Contains(start, "s4.") {
			b = p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}, Certs: []tls.Certificate{clientCA.Issue(vp.CN("x"))}})
		}
		r, err := b.Login(idp, start, email)
		if err != nil || r.StatusCode != 302 {
			t.Fatalf("login %s: %v %+v", email, err, r)
		}
		id := &ident{email: email, auth: b.Cookie(start, "TLSPROXYAUTH"), idtok: map[string]string{}}
		if id.auth == "" {
			t.Fatalf("no cookie after login")
		}
		if strings.Contains(start, "s0.") {
			if _, err := b.Get("https://s3.v.test/private/x"); err != nil {
				t.Fatal(err)
			}
			id.idtok["s3.v.test"] = b.Cookie("https://s3.v.test/", "TLSPROXYIDTOKEN")
			if id.idtok["s3.v.test"] == "" {
				t.Fatalf("no ID token")
			}
		}
		return id
	}
	users1 := []*ident{login("https://s0.v.test/", "alice@corp.example"), login("https://s0.v.test/", "bob+x@corp.example"), login("https://s0.v.test/", "zoé@corp.example")}
	users2 := []*ident{login("https://s4.v.test/private", "carol@corp.example")}

	certs := []tls.Certificate{clientCA.Issue(vp.CN("one"), vp.DNS("one.example")), clientCA.Issue(vp.CN("two"), vp.DNS("two.example", "x.example"))}
	ips := []string{"127.0.0.1", "127.77.0.2", "127.77.0.3"}
	type ck struct{ proto, cert, ip int }
	clients := map[ck]*http.Client{}
	for pr := 0; pr < 3; pr++ {
		for c := -1; c < len(certs); c++ {
			for ip := range ips {
				o := vp.ClientOpt{LocalIP: ips[ip]}
				if c >= 0 {
					o.Certs = []tls.Certificate{certs[c]}
				}
				switch pr {
				case 0:
					o.Protos = []string{"http/1.1"}
					clients[ck{pr, c, ip}] = p.HTTPClient(o)
				case 1:
					o.Protos = []string{"h2"}
					clients[ck{pr, c, ip}] = p.HTTPClient(o)
				default:
					cl, closer := p.H3Client(o)
					defer closer()
					clients[ck{pr, c, ip}] = cl
				}
			}
		}
	}
	hosts := []string{"s0.v.test", "s1.v.test", "s2.v.test", "s3.v.test", "s4.v.test", "s5.v.test", "s6.v.test"}
	pubs := []string{"/pub/a", "/", "/pub/o/z", "/privat", "/x"}
	otherCookies := []string{`a=b`, `j={"k":"v,w"}`, `sp=a b`, `q="quoted"`, `u=é`, `empty=`, `TLSPROXYAUTHX=1`, `XTLSPROXYSID=2`, `tlsproxyauth=low`, `bs=a\b`, `noeq`, `eq=a=b=c`, `sess=0123`}
	tampered := func(s string) string {
		b := []byte(s)
		b[len(b)/2] ^= 1
		return string(b)
	}
	vh.Parallel(8, vh.N(20000, 300000), func(i int) {
		r := vh.Rand("P05", i)
		host := hosts[r.Intn(len(hosts))]
		k := ck{r.Intn(3), -1, r.Intn(len(ips))}
		if host == "s2.v.test" || host == "s4.v.test" || host == "s6.v.test" {
			k.cert = r.Intn(2)
		}
		tok := fmt.Sprintf("i%d", i)
		protected := host == "s0.v.test"
		path := pubs[r.Intn(len(pubs))]
		hasSSO := host == "s0.v.test" || host == "s1.v.test" || host == "s3.v.test" || host == "s4.v.test"
		if r.Intn(2) == 0 {
			path = "/private/" + fmt.Sprint(r.Intn(5))
			protected = hasSSO
		}
		var body io.Reader
		method := "GET"
		if r.Intn(5) == 0 {
			method, body = "POST", bytes.NewReader([]byte("x=1"))
		}
		req, err := http.NewRequest(method, "https://"+host+path, body)
		if err != nil {
			t.Error(err)
			return
		}
		req.Header.Set(tokHeader, tok)
		// identity
		users, other := users1, users2
		if host == "s4.v.test" {
			users, other = users2, users1
		}
		who := ""
		var cookies []string
		cred := r.Intn(7)
		u := users[r.Intn(len(users))]
		switch cred {
		case 0, 1, 2:
			cookies = append(cookies, "TLSPROXYAUTH="+u.auth)
			who = u.email
		case 3:
			cookies = append(cookies, "TLSPROXYAUTH="+other[r.Intn(len(other))].auth)
		case 4:
			cookies = append(cookies, "TLSPROXYAUTH="+tampered(u.auth))
		case 5:
			if x := u.idtok[host]; x != "" {
				req.Header.Set("Authorization", "Bearer "+x)
				who = u.email
			}
		}
		idc := false
		if cred <= 2 && host == "s3.v.test" {
			cookies = append(cookies, "TLSPROXYIDTOKEN="+u.idtok[host])
			idc = true
		}
		if !hasSSO {
			who = ""
		}
		if r.Intn(2) == 0 {
			cookies = append(cookies, "TLSPROXYSID=0123456789abcdef0123456789abcdef")
		}
		var plain []string
		for n := r.Intn(4); n > 0; n-- {
			c := otherCookies[r.Intn(len(otherCookies))]
			if c == "noeq" && k.proto != 0 {
				continue
			}
			cookies = append(cookies, c)
		}
		r.Shuffle(len(cookies), func(a, b int) { cookies[a], cookies[b] = cookies[b], cookies[a] })
		for _, c := range cookies {
			n, _, _ := strings.Cut(c, "=")
			if !hasSSO || (n != "TLSPROXYAUTH" && n != "TLSPROXYSID") {
				plain = append(plain, c)
			}
		}
		if len(cookies) > 0 {
			req.Header["Cookie"] = []string{strings.Join(cookies, "; ")}
		}
		// forgeries
		var forged []string
		forge := func(name, val string) {
			if r.Intn(3) != 0 {
				return
			}
			n := name
			switch r.Intn(3) {
			case 0:
				n = strings.ToLower(name)
			case 1:
				if k.proto == 0 {
					n = strings.ToUpper(name)
				}
			}
			if k.proto != 0 {
				n = http.CanonicalHeaderKey(name)
			}
			req.Header[n] = append(req.Header[n], val)
			if r.Intn(3) == 0 {
				req.Header[n] = append(req.Header[n], "second")
			}
			forged = append(forged, n)
		}
		for _, h := range []string{"X-Tlsproxy-User-Id", "X-Forwarded-For", "X-Forwarded-Client-Cert", "X-Email", "X-Sub", "X-Remote-Ip", "X-Const", "X-None", "X-Name"} {
			forge(h, "evil@evil.example")
		}
		if k.proto == 0 && r.Intn(4) == 0 {
			x := []string{"X-Tlsproxy-User-Id", "x-forwarded-for", "X-Forwarded-Client-Cert, X-Email", "close, X-Const", "Via"}[r.Intn(5)]
			req.Header["Connection"] = []string{x}
			forged = append(forged, "Connection:"+x)
		}
		rep := map[string]any{"host": host, "path": path, "method": method, "user": who, "cookies": cookies, "headers": req.Header, "proto": k.proto, "clientIP": ips[k.ip], "forged": forged}
		resp, err := clients[k].Do(req)
		if err != nil {
			if pl := plan("x", tok, method); pl.Abort >= 0 || len(rec.get(tok)) > 0 {
				// the upstream's own response plan may kill the response
				err = nil
			} else {
				run.Violate("failed", rep, "request failed: %v", err)
				return
			}
		} else {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
		sort.Strings(forged)
		run.Eval(true, host, path, who, cred, forged, k.proto, k.cert)
		got := rec.get(tok)
		if protected && who == "" {
			run.Count("unauthenticated-protected", 1)
			if len(got) > 0 {
				run.Violate("unauthenticated-forwarded", rep, "a request without a valid identity for a protected path was forwarded")
			}
			return
		}
		if len(got) == 0 {
			if resp != nil {
				if resp.StatusCode/100 == 3 && strings.Contains(resp.Header.Get("Location"), path) && host == "s3.v.test" && who != "" && !(idc && req.Header.Get("Connection") == "") {
					run.Count("id-token-redirect", 1)
					return
				}
				run.Violate("not-forwarded", rep, "the request was not forwarded (status %d)", resp.StatusCode)
			}
			return
		}
		s := got[0]
		run.Count("forwarded", 1)
		if who != "" {
			run.Count("authenticated", 1)
		}
		one := func(name, want, key string) {
			g := s.Header[http.CanonicalHeaderKey(name)]
			if want == "" && len(g) == 0 {
				return
			}
			if len(g) != 1 || g[0] != want {
				run.Violate(key, rep, "the upstream received %s: %q, expected %q", name, g, want)
			}
		}
		uid := who
		if host == "s2.v.test" || host == "s5.v.test" || host == "s6.v.test" {
			uid = ""
		}
		one("X-Tlsproxy-User-Id", uid, "user-id")
		one("X-Forwarded-For", ips[k.ip], "x-forwarded-for")
		hs := map[string]string(nil)
		if host == "s0.v.test" || host == "s1.v.test" {
			hs = hdrs
			if strings.HasPrefix(path, "/pub/o/") && host == "s1.v.test" {
				hs = ovh
			}
		}
		net := map[bool]string{true: "udp", false: "tcp"}[k.proto == 2]
		for n, v := range hs {
			switch {
			case n == "X-Remote":
				if g := s.Header.Get(n); !strings.HasPrefix(g, ips[k.ip]+":") {
					run.Violate("configured-header", rep, "X-Remote is %q", g)
				}
				continue
			case n == "X-Sub":
				v = "<>"
				if who != "" {
					v = "<sub-" + who + ">"
				}
			default:
				v = strings.NewReplacer("${JWT:email}", who, "${NETWORK}", net, "${REMOTE_IP}", ips[k.ip], "${LOCAL_IP}", strings.TrimSuffix(p.Addr, ":10443"), "${SERVER_NAME}", host, "${JWT:nope}", "").Replace(v)
			}
			one(n, v, "configured-header")
		}
		// certificates
		xf := s.Header.Values("X-Forwarded-Client-Cert")
		if k.cert >= 0 && host != "s6.v.test" {
			h := sha256.Sum256(certs[k.cert].Certificate[0])
			if len(xf) != 1 || !strings.HasPrefix(xf[0], "Hash="+hex.EncodeToString(h[:])) {
				run.Violate("xfcc", rep, "x-forwarded-client-cert is %q, not the connection's certificate", xf)
			}
			run.Count("with-cert", 1)
		} else if len(xf) != 0 {
			run.Violate("xfcc", rep, "x-forwarded-client-cert %q on a connection without a certificate to report", xf)
		}
		// cookies
		gc := strings.Join(s.Header["Cookie"], "; ")
		for _, c := range strings.Split(gc, ";") {
			n, v, _ := strings.Cut(strings.TrimSpace(c), "=")
			if hasSSO && (n == "TLSPROXYAUTH" || n == "TLSPROXYSID") && v != "" {
				run.Violate("credential-forwarded:"+n, rep, "the proxy's cookie %s was forwarded to the upstream of %s", n, host)
			}
		}
		if want := strings.Join(plain, "; "); gc != want && !strings.Contains(gc, "TLSPROXYAUTH=") && !strings.Contains(gc, "TLSPROXYSID=") {
			run.Violate("cookies-changed", rep, "cookies %q reached the upstream as %q", want, gc)
		}
		if i%500 == 3 {
			run.Sample(map[string]any{"request": rep, "upstream_saw": s.Header})
		}
	})
	for _, s := range vp.Log.TakePanics() {
		run.Violate("panic", s, "a request handler panicked: %s", vh.Trunc(s, 400))
	}
	run.NeedAtLeast("forwarded", 1000)
	run.NeedAtLeast("authenticated", 300)
	run.NeedAtLeast("with-cert", 200)
	run.NeedAtLeast("unauthenticated-protected", 200)
	_ = time.Second
}

package sso

import (
	"bytes"
	"fmt"
	"html"
	"math/rand"
	"net/http"
	"net/url"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

var redirRE = regexp.MustCompile(`[?&](redirect|u)=([A-Za-z0-9_.\-]+)`)

// TestP13: login and logout redirects.
func TestP13(t *testing.T) {
	run := vh.New(t, "A case is one login or logout flow for a recorded URL (possibly with the redirect token modified, moved to another browser, or replaced), or one probe of an endpoint with hostile redirect inputs; observations are every Location header and the claims passed on. Distinct non-trivial = distinct (flow, host, URL, deviation).")
	e := vp.NewEnv(t)
	w := newWorld(t, e)
	other := otherTM(t)
	n := vh.N(4000, 60000)
	vh.Parallel(16, n, func(i int) {
		p13flow(run, w, i, func(u string) string {
			tok, _ := other.CreateToken(map2claims(map[string]any{"url": u, "sid": "x"}), "")
			return tok
		})
	})
	vh.Parallel(16, vh.N(12000, 200000), func(i int) { p13probe(run, w, i) })
	for _, pn := range vp.Log.TakePanics() {
		run.Violate("panic", pn, "a handler panicked: %s", vh.Trunc(pn, 300))
	}
	run.NeedAtLeast("flows-completed", n/8)
	run.NeedAtLeast("tokens-refused", n/8)
	run.NeedAtLeast("redirects-checked", 1000)
}

func p13flow(run *vh.Run, w *world, i int, foreign func(string) string) {
	r := vh.Rand("P13", i)
	hn := pick(r, "a0.v.test", "a1.v.test", "a2.v.test", "a5.v.test", "a6.v.test", "a7.v.test")
	h := w.hosts[hn]
	b := w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
	defer b.CloseIdleConnections()
	path := pick(r, "/private/x", "/private", "/private/%2Fq", "/private/é", "/private/a%20b;c", "/private//dup", "/private/../private/z") + pick(r, "", "?q=1&r=%26", fmt.Sprintf("?n=%d", i), "?redirect=https://evil.example/", "?u=https%3A%2F%2Fevil.example", "?a=b?c#d")
	u := "https://" + hn + path
	exp, err := url.Parse(u)
	if err != nil {
		return
	}
	exp.Fragment = ""
	wantURL := exp.String()
	hint := ""
	hdr := http.Header{}
	logout := false
	user := "mallory@corp.example"
	switch r.Intn(3) {
	case 0: // an old or disallowed login
		if h.ReAuth > 0 {
			hint = user
			b.Hdr.Set("Cookie", "TLSPROXYAUTH="+w.mint(authClaims(h.Provider, user, hn, time.Now().Add(-3*time.Hour)), ""))
		} else if h.ACL != nil {
			logout = true
			b.Hdr.Set("Cookie", "TLSPROXYAUTH="+w.mint(authClaims(h.Provider, user, hn, time.Now()), ""))
		}
	case 1:
		hdr.Set("X-Skip-Login-Confirmation", "1")
	}
	hdr.Set("X-V-Token", fmt.Sprintf("p13-%d", i))
	res, err := b.Do("GET", u, nil, hdr)
	if err != nil {
		run.Inconclusive("start: %v", err)
		return
	}
	var tok string
	if res.StatusCode == 302 {
		tok = res.Loc().Query().Get("redirect")
		if !strings.HasPrefix(res.Header.Get("Location"), "/.sso/login?redirect=") {
			run.Violate("start-location", res.Header.Get("Location"), "an unauthenticated request was redirected to %q", res.Header.Get("Location"))
		}
	} else if m := redirRE.FindAllStringSubmatch(html.UnescapeString(res.Text), -1); res.StatusCode == 403 && len(m) > 0 {
		tok = m[0][2]
		logout = m[0][1] == "u"
		for _, x := range m {
			if len(x[2]) > 100 {
				tok, logout = x[2], x[1] == "u"
			}
		}
	}
	if len(tok) < 50 {
		run.Violate("no-login-token", map[string]any{"status": res.StatusCode, "body": vh.Trunc(res.Text, 2000)}, "a denied request (status %d) offered no way to log in", res.StatusCode)
		return
	}
	b.Hdr.Del("Cookie")
	dev := pick(r, "none", "none", "none", "none", "post", "extraparams", "mutated", "otherbrowser", "nosession", "emptysession", "partsession", "foreign", "auth-token", "id-token", "rawurl", "empty", "twice", "mint-nosid", "mint-nourl", "mint-badurl")
	send := tok
	want := true
	bb := b
	sid := b.Cookie(u, "TLSPROXYSID")
	switch dev {
	case "mutated":
		send, want = mutate(r, tok, []string{"x"}), false
		if sameDecoded(send, tok) {
			return
		}
	case "otherbrowser", "nosession":
		bb = w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
		defer bb.CloseIdleConnections()
		if dev == "otherbrowser" {
			if _, err := bb.Do("GET", u, nil, hdr); err != nil {
				return
			}
		}
		want = false
	case "emptysession", "partsession":
		// The session cookie is there, but it isn't the right one.
		bb = w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
		defer bb.CloseIdleConnections()
		v := ""
		if dev == "partsession" && sid != "" {
			v = pick(r, sid[:len(sid)-1], sid[1:], sid[:1], sid+"0", strings.ToUpper(sid)+"x")
		}
		bb.Hdr.Set("Cookie", "TLSPROXYSID="+v)
		want = false
	case "foreign":
		send, want = foreign("https://evil.example/"), false
	case "auth-token":
		send, want = w.mint(with(authClaims(h.Provider, user, hn, time.Now()), "sid", sid), ""), false
	case "id-token":
		send, want = w.mint(with(idClaims(h.Provider, user, hn, time.Now()), "sid", sid), "ES256"), false
	case "rawurl":
		send, want = pick(r, "https://evil.example/", u, "/private", "//evil.example", "javascript:alert(1)"), false
	case "empty":
		send, want = "", false
	case "mint-nosid":
		send, want = w.mint(map2claims(map[string]any{"url": "https://evil.example/"}), ""), false
	case "mint-nourl":
		send, want = w.mint(map2claims(map[string]any{"sid": sid, "u": u}), ""), false
	case "mint-badurl":
		send, want = w.mint(map2claims(map[string]any{"sid": sid, "url": 5}), ""), false
	}
	name, ep := "redirect", "https://"+hn+"/.sso/login"
	if logout {
		name, ep = "u", "https://"+hn+"/.sso/logout"
		if dev == "empty" {
			return
		}
	}
	form := url.Values{name: {send}}
	if dev == "extraparams" {
		for _, k := range []string{"url", "redirect_uri", "next", "return_to", "email", "login_hint", "state", "sid"} {
			form.Set(k, "https://evil.example/")
		}
	}
	if dev == "post" {
		res, err = bb.Do("POST", ep, strings.NewReader(form.Encode()), http.Header{"Content-Type": {"application/x-www-form-urlencoded"}})
	} else {
		res, err = bb.Get(ep + "?" + form.Encode())
	}
	if err != nil {
		run.Inconclusive("login: %v", err)
		return
	}
	rep := map[string]any{"url": u, "deviation": dev, "token": send, "sid": sid, "status": res.StatusCode, "location": res.Header.Get("Location"), "logout": logout}
	run.Eval(true, hn, path, dev, logout)
	run.Count("dev-"+dev, 1)
	accepted := res.StatusCode/100 == 3
	if logout && accepted {
		// logging out clears the credentials
		if sc := strings.Join(res.Header.Values("Set-Cookie"), "\n"); !strings.Contains(sc, "TLSPROXYAUTH=;") || !strings.Contains(sc, "Max-Age=0") {
			run.Violate("logout-cookies", rep, "the logout did not clear the authentication cookie: %q", sc)
		}
	}
	if !want {
		run.Count("tokens-refused", 1)
		if accepted {
			run.Violate("accepted:"+dev, rep, "a redirect token with deviation %q was accepted; the client was sent to %q", dev, res.Header.Get("Location"))
		}
		return
	}
	if !accepted {
		run.Violate("refused:"+dev, rep, "a genuine redirect token was refused with status %d", res.StatusCode)
		return
	}
	q := res.Loc().Query()
	if "http://"+res.Loc().Host != w.idp.URL {
		run.Violate("idp", rep, "the login went to %q, not to the identity provider", res.Header.Get("Location"))
		return
	}
	if got := q.Get("login_hint"); got != hint {
		run.Violate("claims", rep, "the login carried the hint %q, want %q", got, hint)
	}
	if got := q.Get("prompt"); (got == "select_account") != logout {
		run.Violate("prompt", rep, "the login has prompt %q (logout: %v)", got, logout)
	}
	code := w.idp.Add(&vp.Code{Challenge: q.Get("code_challenge"), RedirectURI: q.Get("redirect_uri"), ClientID: q.Get("client_id"), Claims: vp.Claims(q, "alice@corp.example")})
	cb := url.Values{"state": {q.Get("state")}, "code": {code}}
	if r.Intn(3) == 0 {
		for _, k := range []string{"url", "redirect", "redirect_uri", "u", "next"} {
			cb.Set(k, "https://evil.example/")
		}
	}
	res, err = b.Get(q.Get("redirect_uri") + "?" + cb.Encode())
	if err != nil {
		run.Inconclusive("callback: %v", err)
		return
	}
	if loc := res.Header.Get("Location"); res.StatusCode != 302 || loc != wantURL {
		rep["callback"] = res.Status
		run.Violate("destination", rep, "after the login the user was sent to %q (%d), want %q", loc, res.StatusCode, wantURL)
		return
	}
	run.Count("flows-completed", 1)
}

// p13probe: no redirect to a place taken from unauthenticated input.
func p13probe(run *vh.Run, w *world, i int) {
	r := vh.Rand("P13p", i)
	hn := pick(r, append([]string{"login.v.test", "o.v.test", "a3.v.test", "a3.v.test"}, w.names...)...)
	evil := pick(r, "//evil.example", "/\\evil.example", "/%5cevil.example", "\\\\evil.example", "/%09/evil.example", "///evil.example", "/.//evil.example", "/..//evil.example", "//evil.example%2f..", "/;@evil.example", "@evil.example", "//evil.example:443", "https://evil.example", "//%65vil.example")
	q := "?" + url.Values{pick(r, "redirect", "u", "url", "next", "redirect_uri", "return_to", "RelayState", "state", "get", "continue"): {pick(r, "https://evil.example/", "//evil.example/", evil)}}.Encode()
	tail := pick(r, "", "/", "/x", "/../", "/..", "/private/..", "/index.html", "/.sso", "/%2e%2e", "/%2e%2e/", "/.")
	var target string
	switch r.Intn(4) {
	case 0:
		target = evil + tail
	case 1:
		target = evil + tail + q
	case 2:
		target = pick(r, "/.sso/login", "/.sso/logout", "/.sso/", "/.sso", "/oidc/idp1", "/authorization", "/token", "/.sso//login", "/./.sso/logout", "/private", "/") + q
	case 3:
		target = "/private" + strings.TrimPrefix(evil, "https:/") + tail
	}
	if !strings.HasPrefix(target, "/") && !strings.HasPrefix(target, "https://") {
		target = "/" + target
	}
	if strings.Contains(target, "/authorization") {
		target = "/authorization?" + url.Values{"response_type": {"code"}, "client_id": {"https://a0.v.test/"}, "scope": {"openid"}, "redirect_uri": {pick(r, "https://evil.example/", "https://rp.example/cb/../x", "https://rp.example/cb?x=//evil.example", "https://rp.example.evil.example/cb", "//rp.example/cb", "https://rp.example/cb/", "HTTPS://rp.example/cb", "https://rp.example@evil.example/cb")}}.Encode()
		hn = "o.v.test"
	}
	var b bytes.Buffer
	method := pick(r, "GET", "GET", "GET", "HEAD", "POST")
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\nX-V-Token: p13p-%d\r\n", method, target, hn, i)
	if r.Intn(2) == 0 {
		prov := "idp1"
		if h := w.hosts[hn]; h != nil {
			prov = h.Provider
		}
		fmt.Fprintf(&b, "Cookie: TLSPROXYAUTH=%s\r\n", w.mint(authClaims(prov, "alice@corp.example", hn, time.Now()), ""))
	}
	if r.Intn(3) == 0 {
		b.WriteString("X-Skip-Login-Confirmation: 1\r\n")
	}
	if r.Intn(5) == 0 {
		b.WriteString("X-Forwarded-Host: evil.example\r\nX-Forwarded-Proto: http\r\nReferer: https://evil.example/\r\nOrigin: https://evil.example\r\n")
	}
	b.WriteString("\r\n")
	a, err := w.raw(hn, b.String(), method)
	if err != nil {
		run.Count("probes-no-answer", 1)
		return
	}
	run.Eval(true, hn, target, method)
	run.Count("probes", 1)
	if a.Loc == "" {
		return
	}
	run.Count("redirects-checked", 1)
	to := browserHost(a.Loc, hn)
	if to != hn && "http://"+to != w.idp.URL {
		run.Violate("open-redirect", map[string]any{"host": hn, "request": b.String(), "status": a.Status, "location": a.Loc}, "%s %s on %s is redirected to %q, i.e. to host %q", method, target, hn, a.Loc, to)
	}
	if "http://"+to == w.idp.URL && strings.Contains(a.Loc, "evil.example") {
		run.Violate("idp-redirect", map[string]any{"request": b.String(), "location": a.Loc}, "the redirect to the identity provider carries request input: %q", a.Loc)
	}
}

// browserHost is the host that a browser at host goes to for a Location header.
func browserHost(loc, host string) string {
	l := strings.Map(func(r rune) rune {
		if r == '\t' || r == '\n' || r == '\r' {
			return -1
		}
		return r
	}, strings.TrimSpace(loc))
	slash := func(c byte) bool { return c == '/' || c == '\\' }
	if i := strings.Index(l, ":"); i > 0 && !strings.ContainsAny(l[:i], "/\\?#") {
		l = l[i+1:]
		if len(l) < 2 || !slash(l[0]) || !slash(l[1]) {
			return "opaque:" + loc
		}
	}
	if len(l) >= 2 && slash(l[0]) && slash(l[1]) {
		l = strings.TrimLeft(l, "/\\")
		if i := strings.IndexAny(l, "/\\?#"); i >= 0 {
			l = l[:i]
		}
		if i := strings.LastIndex(l, "@"); i >= 0 {
			l = l[i+1:]
		}
		return l
	}
	return host
}

var _ = rand.Int

package sso

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

type loginWorld struct {
	e   *vp.Env
	p   *vp.P
	idp *vp.IDP
	hd  map[string]string
}

func newLoginWorld(t *testing.T, e *vp.Env) *loginWorld {
	w := &loginWorld{e: e, idp: vp.NewIDP(t), hd: map[string]string{"plain": "", "hd": "corp.example", "hdany": "*", "ui": ""}}
	var bes []*proxy.Backend
	cfg := e.Config(false)
	for i, name := range []string{"plain", "hd", "hdany", "ui"} {
		c := w.idp.Config(name, "login.v.test", "v.test")
		c.HostedDomain = w.hd[name]
		if name == "ui" {
			c.UserinfoEndpoint = w.idp.URL + "/userinfo"
		}
		cfg.OIDCProviders = append(cfg.OIDCProviders, c)
		for j := 0; j < 2; j++ {
			bes = append(bes, &proxy.Backend{ServerNames: []string{fmt.Sprintf("b%d-%d.v.test", i, j)}, Mode: "LOCAL", ALPNProtos: &[]string{"h2", "http/1.1"}, SSO: &proxy.BackendSSO{Provider: name}, DocumentRoot: e.Dir + "/nothing"})
		}
	}
	bes = append(bes, &proxy.Backend{ServerNames: []string{"login.v.test"}, Mode: "LOCAL", ALPNProtos: &[]string{"h2", "http/1.1"}})
	cfg.Backends = bes
	w.p = e.Start(cfg)
	t.Cleanup(w.p.End)
	return w
}

var provNames = []string{"plain", "hd", "hdany", "ui"}

func cookieClaims(tok string) jwt.MapClaims {
	c := jwt.MapClaims{}
	jwt.NewParser().ParseUnverified(tok, c)
	return c
}

// TestP14: OIDC callbacks.
func TestP14(t *testing.T) {
	run := vh.New(t, "A case is one login with one deviation (or none) in state, browser, code, PKCE, nonce, audience, email, hosted domain or token response; the oracle says whether the callback may issue a cookie, for whom and where it sends the user. Distinct non-trivial = distinct (provider, deviation, parameters).")
	e := vp.NewEnv(t)
	w := newLoginWorld(t, e)
	n := vh.N(16000, 200000)
	vh.Parallel(16, n, func(i int) { p14login(t, run, w, i) })
	p14concurrent(t, run, w)
	for _, pn := range vp.Log.TakePanics() {
		run.Violate("panic", pn, "a handler panicked: %s", vh.Trunc(pn, 300))
	}
	run.NeedAtLeast("logins-completed", n/20)
	run.NeedAtLeast("callbacks-refused", n/4)
}

func (w *loginWorld) start(b *vp.Browser, r *rand.Rand) (prov, u string, q url.Values, err error) {
	pi := r.Intn(4)
	prov = provNames[pi]
	u = fmt.Sprintf("https://b%d-%d.v.test/p%d/%%2Fé?x=%d&y=a%%26b", pi, r.Intn(2), r.Intn(1000), r.Intn(1000))
	q, err = b.StartLogin(u)
	return
}

func p14login(t *testing.T, run *vh.Run, w *loginWorld, i int) {
	r := vh.Rand("P14", i)
	b := w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
	defer b.CloseIdleConnections()
	prov, u, q, err := w.start(b, r)
	if err != nil {
		run.Inconclusive("login start: %v", err)
		return
	}
	// the authorization request itself
	if q.Get("response_type") != "code" || q.Get("client_id") != "client-"+prov || q.Get("redirect_uri") != "https://login.v.test/oidc/"+prov || q.Get("code_challenge_method") != "S256" || len(q.Get("code_challenge")) != 43 || len(q.Get("state")) < 16 || q.Get("nonce") == "" || w.hd[prov] != q.Get("hd") {
		run.Violate("authorization-request", q, "unexpected authorization request %v", q)
	}
	email := pick(r, "alice@corp.example", "bob@other.example", "zoé@corp.example", "x+y@corp.example")
	claims := vp.Claims(q, email)
	switch w.hd[prov] {
	case "corp.example":
		claims["hd"] = "corp.example"
	case "*":
		claims["hd"] = "any.example"
	}
	if r.Intn(2) == 0 {
		claims["name"] = "N M"
		claims["picture"] = "https://pic.example/1"
	}
	code := &vp.Code{Challenge: q.Get("code_challenge"), RedirectURI: q.Get("redirect_uri"), ClientID: q.Get("client_id"), Claims: claims}
	if prov == "ui" {
		code.Userinfo = map[string]any{"sub": claims["sub"], "email": email}
	}
	want := true
	cb := q
	var extra url.Values
	dev := pick(r, "none", "none", "none", "none-noverified", "none-nononce", "none-post", "none-audlist", "state-unknown", "state-empty", "state-replay", "otherbrowser", "nocookie", "wrongcookie", "code-unknown", "code-empty", "pkce", "nonce-random", "nonce-other-own", "nonce-other-user", "aud-other", "aud-missing", "aud-list-other", "unverified", "noemail", "emptyemail", "nosub", "hd-missing", "hd-other", "hd-suffix", "token-500", "token-empty", "token-notjson", "token-badjwt", "token-noid", "error", "otherprovider-callback", "state-swapped")
	isUI := prov == "ui"
	set := func(k string, v any) {
		if isUI {
			if v == nil {
				delete(code.Userinfo, k)
			} else {
				code.Userinfo[k] = v
			}
			return
		}
		if v == nil {
			delete(claims, k)
		} else {
			claims[k] = v
		}
	}
	cbBrowser := b
	cbHost := ""
	doReplay := false
	switch dev {
	case "none", "none-post":
	case "none-noverified":
		set("email_verified", nil)
	case "none-nononce":
		// Providers without ID tokens have no nonce.
		if !isUI {
			return
		}
	case "none-audlist":
		set("aud", []string{q.Get("client_id")})
	case "state-unknown":
		cb = url.Values{"redirect_uri": q["redirect_uri"], "state": {fmt.Sprintf("%024x", r.Uint64())}}
		want = false
	case "state-empty":
		cb = url.Values{"redirect_uri": q["redirect_uri"], "state": {""}}
		want = false
	case "state-replay":
		doReplay = true
	case "otherbrowser":
		cbBrowser = w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
		if r.Intn(2) == 0 { // that one has a login of its own under way
			if _, _, _, err := w.start(cbBrowser, r); err != nil {
				return
			}
		}
		want = false
	case "nocookie":
		cbBrowser = w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
		want = false
	case "wrongcookie":
		cbBrowser = w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
		cbBrowser.Hdr.Set("Cookie", "TLSPROXYNONCE="+pick(r, "x", "", q.Get("state")[1:], strings.ToUpper(q.Get("state"))+"0"))
		want = false
	case "code-unknown", "code-empty":
		want = false
	case "pkce":
		code.Challenge = "somethingelse"
		want = false
	case "nonce-random":
		if isUI {
			return
		}
		set("nonce", pick(r, "x", fmt.Sprintf("%024x", r.Uint64()), q.Get("state")+"0"))
		want = false
	case "nonce-other-own":
		if isUI {
			return
		}
		// The same browser has another login under way; it is the latest one.
		q0 := q
		u1 := "https://" + strings.SplitN(strings.TrimPrefix(u, "https://"), "/", 2)[0] + "/second"
		q1, err := b.StartLogin(u1)
		if err != nil {
			run.Inconclusive("second login: %v", err)
			return
		}
		q, cb = q1, q1
		code.Challenge = q1.Get("code_challenge")
		claims["nonce"] = q0.Get("nonce")
		want = false
	case "nonce-other-user":
		if isUI {
			return
		}
		b2 := w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
		q2, err := b2.StartLogin(u)
		if err != nil {
			run.Inconclusive("second login: %v", err)
			return
		}
		claims["nonce"] = q2.Get("nonce")
		want = false
	case "aud-other", "aud-missing", "aud-list-other":
		if isUI {
			return
		}
		set("aud", map[string]any{"aud-other": pick(r, "client-other", "client-"+prov+"x", ""), "aud-missing": nil, "aud-list-other": []string{"a", "client-"}}[dev])
		want = false
	case "unverified":
		set("email_verified", false)
		want = false
	case "noemail":
		set("email", nil)
		want = false
	case "emptyemail":
		set("email", "")
		want = false
	case "nosub":
		set("sub", pick[any](r, nil, ""))
		want = false
	case "hd-missing":
		if w.hd[prov] == "" {
			return
		}
		set("hd", pick[any](r, nil, ""))
		want = false
	case "hd-other", "hd-suffix":
		if w.hd[prov] != "corp.example" {
			return
		}
		set("hd", pick(r, "evil.example", "xcorp.example", "corp.example.evil", "CORP.EXAMPLE2", "*", "corp.exampl"))
		want = false
	case "token-500":
		code.Status, code.Raw = 500, map[string]any{"error": "server_error"}
		want = false
	case "token-empty":
		code.Raw = map[string]any{}
		want = isUI && false
	case "token-notjson":
		code.Raw = map[string]any{"id_token": 7}
		want = false
	case "token-badjwt":
		code.Raw = map[string]any{"id_token": pick(r, "x", "a.b.c", "..", vp.JWT(claims)[:50])}
		want = false
	case "token-noid":
		code.Raw = map[string]any{"access_token": "nope", "token_type": pick(r, "Bearer", "mac", "")}
		want = false
	case "error":
		want = false
		extra = url.Values{"error": {"access_denied"}}
	case "otherprovider-callback":
		cbHost = "https://login.v.test/oidc/" + provNames[(indexOf(provNames, prov)+1)%4]
		want = false
	case "state-swapped":
		// two browsers, states swapped
		b2 := w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
		q2, err := b2.StartLogin(u)
		if err != nil {
			return
		}
		cb = url.Values{"redirect_uri": q["redirect_uri"], "state": q2["state"]}
		want = false
	}
	cs := w.idp.Add(code)
	switch dev {
	case "code-unknown":
		cs = "nosuchcode"
	case "code-empty", "error":
		cs = ""
	}
	uri := cb.Get("redirect_uri")
	if cbHost != "" {
		uri = cbHost
	}
	form := url.Values{"state": {cb.Get("state")}, "code": {cs}}
	for k, v := range extra {
		form[k] = v
	}
	t0 := time.Now()
	var res *vp.Result
	if dev == "none-post" {
		res, err = cbBrowser.Do("POST", uri, strings.NewReader(form.Encode()), http.Header{"Content-Type": {"application/x-www-form-urlencoded"}})
	} else {
		res, err = cbBrowser.Get(uri + "?" + form.Encode())
	}
	if err != nil {
		run.Inconclusive("callback: %v", err)
		return
	}
	rep := map[string]any{"provider": prov, "deviation": dev, "email": email, "url": u, "claims": claims, "userinfo": code.Userinfo, "status": res.StatusCode, "location": res.Header.Get("Location"), "cookies": res.Header["Set-Cookie"], "body": vh.Trunc(res.Text, 200), "token_calls": w.idp.CallsFor(cs)}
	run.Eval(true, prov, dev, email, fmt.Sprint(claims), fmt.Sprint(code.Userinfo), fmt.Sprint(code.Raw))
	run.Count("callbacks", 1)
	p14judge(run, w, rep, prov, dev, u, email, q, res, want, t0, code)
	if doReplay && res.StatusCode == 302 {
		// The same state again, with a fresh code and the nonce cookie put back.
		code2 := *code
		cs2 := w.idp.Add(&code2)
		res2, err := b.Do("GET", q.Get("redirect_uri")+"?"+url.Values{"state": {q.Get("state")}, "code": {cs2}}.Encode(), nil, http.Header{"Cookie": {"TLSPROXYNONCE=" + q.Get("state")}})
		if err != nil {
			run.Inconclusive("replay: %v", err)
			return
		}
		rep["replay"] = res2.Status
		run.Eval(true, prov, "replayed", i)
		p14judge(run, w, rep, prov, "replayed", u, email, q, res2, false, t0, code)
	}
	if usedUp(dev) && !want && r.Intn(3) == 0 {
		// A refused callback has used up its state.
		c2 := &vp.Code{Challenge: q.Get("code_challenge"), RedirectURI: q.Get("redirect_uri"), ClientID: q.Get("client_id"), Claims: vp.Claims(q, email)}
		if isUI {
			c2.Userinfo = map[string]any{"sub": claims["sub"], "email": email}
		}
		run.Count("used-states-retried", 1)
		if w.hd[prov] != "" {
			c2.Claims["hd"] = strings.Replace(w.hd[prov], "*", "any.example", 1)
		}
		res3, err := b.Do("GET", q.Get("redirect_uri")+"?"+url.Values{"state": {q.Get("state")}, "code": {w.idp.Add(c2)}}.Encode(), nil, http.Header{"Cookie": {"TLSPROXYNONCE=" + q.Get("state")}})
		if err == nil && res3.SetCookies("TLSPROXYAUTH") != "" {
			run.Violate("state-reused-after-refusal", rep, "a state that had already been used by a refused callback completed a login")
		}
	}
}

// usedUp tells whether a callback with this deviation was for the right state,
// from the right browser, and had a code that was presented to the provider.
func usedUp(dev string) bool {
	for _, p := range []string{"nonce-", "aud-", "unverified", "noemail", "emptyemail", "hd-", "token-", "code-unknown", "pkce"} {
		if strings.HasPrefix(dev, p) {
			return true
		}
	}
	return false
}

func indexOf(xs []string, x string) int {
	for i := range xs {
		if xs[i] == x {
			return i
		}
	}
	return -1
}

func p14judge(run *vh.Run, w *loginWorld, rep any, prov, dev, u, email string, q url.Values, res *vp.Result, want bool, t0 time.Time, code *vp.Code) {
	tok := res.SetCookies("TLSPROXYAUTH")
	if tok == "" {
		if want {
			run.Violate("refused:"+dev, rep, "a correct login (%s) was answered %d without a cookie: %s", dev, res.StatusCode, vh.Trunc(res.Text, 100))
			return
		}
		run.Count("callbacks-refused", 1)
		if res.StatusCode < 400 {
			run.Violate("refused-status:"+dev, rep, "a refused callback (%s) was answered %d", dev, res.StatusCode)
		}
		return
	}
	if !want {
		run.Violate("accepted:"+dev, rep, "a callback with deviation %q was accepted and a cookie was issued (status %d)", dev, res.StatusCode)
		return
	}
	run.Count("logins-completed", 1)
	exp, _ := url.Parse(u)
	if res.StatusCode != 302 || res.Header.Get("Location") != exp.String() {
		run.Violate("destination", rep, "after the login the user was sent to %d %q, not to %q", res.StatusCode, res.Header.Get("Location"), exp)
	}
	c := cookieClaims(tok)
	src := "https://idp.example"
	if prov == "ui" {
		src = w.idp.URL + "/userinfo"
	}
	wantC := authClaims(prov, email, exp.Host, t0)
	for _, k := range []string{"iss", "aud", "sub", "email", "proxyauth", "provider", "hhash"} {
		if fmt.Sprint(c[k]) != fmt.Sprint(wantC[k]) {
			run.Violate("claims:"+k, rep, "the cookie's claim %s is %v, want %v", k, c[k], wantC[k])
		}
	}
	if c["source"] != src {
		run.Violate("claims:source", rep, "the cookie's claim source is %v, want %v", c["source"], src)
	}
	iat, _ := c.GetIssuedAt()
	expd, _ := c.GetExpirationTime()
	if iat == nil || expd == nil || iat.Time.After(time.Now()) || iat.Time.Before(t0.Add(-2*time.Second)) || expd.Time.Sub(iat.Time) != 20*time.Hour {
		run.Violate("claims:times", rep, "the cookie is valid from %v to %v", iat, expd)
	}
	for _, sc := range res.Cookies() {
		if sc.Name == "TLSPROXYAUTH" && (strings.TrimPrefix(sc.Domain, ".") != "v.test" || !sc.Secure || !sc.HttpOnly || sc.Path != "/") {
			run.Violate("cookie-attributes", rep, "the authentication cookie has attributes %v", sc)
		}
	}
}

// p14concurrent: the same callback delivered many times at once, while the
// token endpoint is slow.
func p14concurrent(t *testing.T, run *vh.Run, w *loginWorld) {
	vh.Parallel(8, vh.N(300, 3000), func(i int) {
		r := vh.Rand("P14c", i)
		b := w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
		defer b.CloseIdleConnections()
		prov, u, q, err := w.start(b, r)
		if err != nil {
			run.Inconclusive("login start: %v", err)
			return
		}
		gate := make(chan struct{})
		time.AfterFunc(time.Duration(5+r.Intn(40))*time.Millisecond, func() { close(gate) })
		var wg sync.WaitGroup
		var mu sync.Mutex
		ok := 0
		k := 2 + r.Intn(5)
		for j := 0; j < k; j++ {
			email := fmt.Sprintf("u%d@corp.example", j)
			c := vp.Claims(q, email)
			if w.hd[prov] != "" {
				c["hd"] = "corp.example"
			}
			code := &vp.Code{Challenge: q.Get("code_challenge"), RedirectURI: q.Get("redirect_uri"), ClientID: q.Get("client_id"), Claims: c, Gate: gate}
			if prov == "ui" {
				code.Userinfo = c
			}
			cs := w.idp.Add(code)
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
				defer x.CloseIdleConnections()
				res, err := x.Do("GET", q.Get("redirect_uri")+"?"+url.Values{"state": {q.Get("state")}, "code": {cs}}.Encode(), nil, http.Header{"Cookie": {"TLSPROXYNONCE=" + q.Get("state")}})
				if err != nil {
					return
				}
				if res.SetCookies("TLSPROXYAUTH") != "" {
					mu.Lock()
					ok++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		run.Eval(true, "concurrent", prov, k)
		run.Count("concurrent-callbacks", k)
		if ok != 1 {
			run.Violate("concurrent-state", map[string]any{"url": u, "callbacks": k, "logins": ok}, "one state completed %d logins out of %d concurrent callbacks", ok, k)
		}
	})
}

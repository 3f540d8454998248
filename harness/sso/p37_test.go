package sso

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

var jwtLike = regexp.MustCompile(`eyJ[A-Za-z0-9_-]{5,}\.[A-Za-z0-9_-]{5,}\.[A-Za-z0-9_-]{2,}`)

type secrets struct {
	run *vh.Run
	w   *world

	mu     sync.Mutex
	logged map[string]string // token-like text in the log -> line
	lines  int
	certs  [][]byte
	emails map[string]bool
}

// credential says what kind of credential of the proxy s is, or "".
func (m *secrets) credential(s string) (kind string, claims jwt.MapClaims) {
	tok, err := m.w.tm.ValidateToken(s)
	if err != nil {
		if c := cookieClaims(s); c["iss"] == "https://idp.example" {
			return "identity provider's token", c
		}
		return "", nil
	}
	c, _ := tok.Claims.(jwt.MapClaims)
	switch {
	case c["proxyauth"] != nil:
		return "authentication cookie", c
	case c["url"] != nil:
		return "", c // of the login page
	case c["email"] != nil || c["sub"] != nil || c["scope"] != nil:
		return "ID or access token", c
	}
	return "", c
}

// watch looks at one log entry.
func (m *secrets) watch(line string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.lines++
	for _, s := range jwtLike.FindAllString(line, -1) {
		m.logged[s] = line
	}
	for _, s := range []string{"s3cret", "client-secret", "secret-idp", "TLSPROXYAUTH=", "PRIVATE KEY"} {
		if strings.Contains(line, s) {
			m.logged[s] = line
		}
	}
}

// monitored looks at every response on its way to the client.
type monitored struct {
	m     *secrets
	next  http.RoundTripper
	email string
}

func (t *monitored) RoundTrip(req *http.Request) (*http.Response, error) {
	resp, err := t.next.RoundTrip(req)
	if err != nil || req.URL.Scheme != "https" {
		return resp, err
	}
	b, _ := io.ReadAll(io.LimitReader(resp.Body, 4<<20))
	resp.Body.Close()
	resp.Body = io.NopCloser(bytes.NewReader(b))
	t.m.response(req, resp, string(b))
	return resp, nil
}

func (t *monitored) CloseIdleConnections() { (&http.Client{Transport: t.next}).CloseIdleConnections() }

var own = []string{"TLSPROXYAUTH", "TLSPROXYIDTOKEN", "TLSPROXYNONCE", "TLSPROXYSID"}

func (m *secrets) response(req *http.Request, resp *http.Response, body string) {
	m.run.Count("responses", 1)
	desc := fmt.Sprintf("%s %s -> %d", req.Method, vh.Trunc(req.URL.String(), 200), resp.StatusCode)
	for _, c := range resp.Cookies() {
		if !slices.Contains(own, c.Name) {
			if kind, _ := m.credential(c.Value); kind != "" {
				m.run.Violate("other-cookie", c.Raw, "an %s is in the cookie %q: %s", kind, c.Name, desc)
			}
			continue
		}
		domain, path := strings.TrimPrefix(c.Domain, "."), c.Path
		clear := c.MaxAge < 0 || c.Value == ""
		bad := func(what string) {
			m.run.Violate("cookie-"+c.Name+"-"+what, c.Raw, "cookie %s set with %s: %s", c.Name, what, desc)
		}
		if !c.Secure {
			bad("no Secure attribute")
		}
		if !c.HttpOnly {
			bad("no HttpOnly attribute")
		}
		if path != "/" && path != "" {
			bad("path " + path)
		}
		if clear {
			m.run.Count("cleared_"+c.Name, 1)
			continue
		}
		m.run.Count("set_"+c.Name, 1)
		if c.SameSite != http.SameSiteLaxMode && c.SameSite != http.SameSiteStrictMode {
			bad("no SameSite attribute")
		}
		switch c.Name {
		case "TLSPROXYAUTH", "TLSPROXYNONCE":
			if domain != "v.test" && domain != "" {
				bad("domain " + domain)
			}
		default:
			if domain != "" {
				bad("domain " + domain)
			}
		}
		if max := time.Now().Add(31 * 24 * time.Hour); c.Expires.After(max) || c.MaxAge > 31*86400 {
			bad("expiration date " + c.Expires.String())
		}
		if c.Name == "TLSPROXYIDTOKEN" {
			_, cl := m.credential(c.Value)
			if aud, _ := cl.GetAudience(); cl == nil || cl["proxyauth"] != nil || !slices.Contains(aud, "https://"+req.URL.Hostname()+"/") {
				m.run.Violate("idtoken", cl, "the ID token isn't for this server: %v: %s", cl, desc)
			}
		}
	}
	h := resp.Header.Clone()
	h.Del("Set-Cookie")
	var all strings.Builder
	h.Write(&all)
	text, _ := url.QueryUnescape(strings.ReplaceAll(strings.ReplaceAll(all.String(), "%", "%25"), "%25", "%"))
	for _, s := range jwtLike.FindAllString(all.String()+"\n"+text+"\n"+body, -1) {
		kind, cl := m.credential(s)
		if kind == "" {
			continue
		}
		if kind == "ID or access token" && req.URL.Hostname() == "o.v.test" && req.URL.Path == "/token" {
			m.run.Count("token_responses", 1)
			continue
		}
		m.run.Violate("response", map[string]any{"claims": cl, "body": vh.Trunc(body, 2000), "header": h}, "an %s of the user is in the response: %s", kind, desc)
	}
	for _, s := range []string{"s3cret", "PRIVATE KEY"} {
		if strings.Contains(body, s) || strings.Contains(all.String(), s) {
			m.run.Violate("response-secret", vh.Trunc(body, 2000), "%q is in the response: %s", s, desc)
		}
	}
}

func p37user(run *vh.Run, m *secrets, i int) {
	w, rnd := m.w, vh.Rand("P37", i)
	o := vp.ClientOpt{Protos: []string{pick(rnd, "http/1.1", "h2")}}
	b := w.p.Browser(o)
	defer b.CloseIdleConnections()
	email := fmt.Sprintf("%s%d@%s", pick(rnd, "alice", "bob"), i, pick(rnd, "corp.example", "dom2.example"))
	if rnd.Intn(3) == 0 {
		email = "alice@corp.example"
	}
	b.Client.Transport = &monitored{m, b.Client.Transport, email}
	m.mu.Lock()
	m.emails[email] = true
	m.mu.Unlock()
	start := pick(rnd, "a0", "a1", "a2", "a3", "a5", "a7", "a9")
	var did []string
	note := func(f string, a ...any) { did = append(did, fmt.Sprintf(f, a...)) }
	if rnd.Intn(8) > 0 {
		u := fmt.Sprintf("https://%s.v.test/private/x?n=%d", start, i)
		res, err := b.Login(w.idp, u, email)
		if err == nil && res.SetCookies("TLSPROXYAUTH") != "" {
			run.Count("logins", 1)
			b.Get(u)
		}
		note("login at %s", start)
	}
	for range 7 {
		hn := pick(rnd, w.names...)
		switch k := rnd.Intn(12); k {
		case 0, 1:
			b.Get("https://" + hn + genPath(rnd))
			note("get")
		case 2:
			b.Get("https://" + hn + pick(rnd, "/.sso/", "/.sso/login", "/.sso/login?redirect=x", "/.sso/style.css"))
			note("sso page")
		case 3:
			b.Get("https://" + hn + "/.sso/logout")
			note("logout")
		case 4:
			b.Get("https://a6.v.test/" + pick(rnd, "", "config", "goroutines", "x"))
			note("console")
		case 5:
			// Tokens for another application.
			r, err := b.Get("https://o.v.test/authorization?" + url.Values{"response_type": {"code"}, "client_id": {"https://a0.v.test/"}, "redirect_uri": {"https://rp.example/cb"}, "scope": {"openid email profile"}, "nonce": {"n"}}.Encode())
			if err != nil || r.Loc().Query().Get("code") == "" {
				break
			}
			sec := pick(rnd, "s3cret", "s3cret", "wrong")
			r, err = b.Do("POST", "https://o.v.test/token", strings.NewReader(url.Values{"grant_type": {"authorization_code"}, "code": {r.Loc().Query().Get("code")}, "client_id": {"https://a0.v.test/"}, "client_secret": {sec}, "redirect_uri": {"https://rp.example/cb"}}.Encode()),
				http.Header{"Content-Type": {"application/x-www-form-urlencoded"}})
			if err != nil {
				break
			}
			var out struct {
				Access string `json:"access_token"`
				ID     string `json:"id_token"`
			}
			json.Unmarshal([]byte(r.Text), &out)
			for _, tok := range []string{out.Access, out.ID, out.ID[:len(out.ID)/2], "x" + out.ID} {
				if tok == "" {
					continue
				}
				b.Do("GET", "https://"+pick(rnd, "o.v.test/userinfo", "a0.v.test/private/x", hn+"/"), nil, http.Header{"Authorization": {"Bearer " + tok}})
			}
			note("tokens")
		case 6:
			// Someone else's or broken cookies.
			tok := w.mint(with(authClaims(pick(rnd, "idp1", "idp2", "x"), email, hn, time.Now()), pick(rnd, "email", "hhash", "zz", "exp", "iat", "sub"), pick[any](rnd, nil, "x", 1, 99999999999)), "")
			if rnd.Intn(3) == 0 {
				tok = mutate(rnd, tok, []string{"x"})
			}
			b2 := w.p.Browser(o)
			b2.Client.Transport = &monitored{m, b2.Client.Transport, email}
			b2.Do(pick(rnd, "GET", "POST", "OPTIONS"), "https://"+hn+genPath(rnd), nil, http.Header{"Cookie": {"TLSPROXYAUTH=" + tok + "; other=1"}})
			b2.CloseIdleConnections()
			note("odd cookie")
		case 7:
			key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
			der, _ := x509.CreateCertificateRequest(crand.Reader, &x509.CertificateRequest{Subject: pkix.Name{CommonName: "x"}}, key)
			res, err := b.Do("POST", "https://a5.v.test/private/pki?get=requestCert", bytes.NewReader(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: der})), http.Header{"X-Csrf-Check": {"1"}, "Content-Type": {"application/x-pem-file"}})
			if err == nil && res.StatusCode == 200 {
				var out struct{ Cert string }
				json.Unmarshal([]byte(res.Text), &out)
				if p, _ := pem.Decode([]byte(out.Cert)); p != nil {
					m.mu.Lock()
					m.certs = append(m.certs, p.Bytes)
					m.mu.Unlock()
					run.Count("certificates", 1)
				}
			}
			note("certificate")
		case 8:
			b.Get("https://" + pick(rnd, "a9.v.test/sshkey", "a9.v.test/sshcert", "a5.v.test/private/pki", "o.v.test/.well-known/openid-configuration", "a9.v.test/ws"))
			note("endpoint")
		case 9:
			// What fails, and what isn't complete.
			b.Do(pick(rnd, "POST", "TRACE", "PUT"), "https://"+hn+"/private/x", strings.NewReader("a=b"), http.Header{"Expect": {"x"}, "X-Forwarded-For": {"1.1.1.1"}})
			b.Get("https://login.v.test/oidc/idp1?state=zz&code=zz")
			b.Get("https://login.v.test/oidc/idp1?error=access_denied")
			note("errors")
		case 10:
			// The user logs in again in the middle of it.
			if q, err := b.StartLogin("https://a2.v.test/private/x"); err == nil {
				cl := vp.Claims(q, email)
				if rnd.Intn(2) == 0 {
					cl[pick(rnd, "nonce", "aud", "email_verified", "email")] = pick[any](rnd, "other", false, "")
				}
				b.Callback(q, w.idp.Add(&vp.Code{Challenge: q.Get("code_challenge"), RedirectURI: q.Get("redirect_uri"), ClientID: q.Get("client_id"), Claims: cl}))
			}
			note("login again")
		case 11:
			cookie := b.Cookie("https://a0.v.test/", "TLSPROXYAUTH")
			if cookie == "" {
				break
			}
			// As other clients could send it.
			b2 := w.p.Browser(o)
			b2.Client.Transport = &monitored{m, b2.Client.Transport, email}
			b2.Do("GET", "https://"+hn+genPath(rnd), nil, http.Header{"Cookie": {pick(rnd, "a=1; TLSPROXYAUTH="+cookie+"; b=2", "TLSPROXYAUTH="+cookie+"; TLSPROXYAUTH="+cookie, `TLSPROXYAUTH="`+cookie+`"`, "a=1;TLSPROXYAUTH="+cookie)}})
			b2.CloseIdleConnections()
			note("cookie header")
		}
	}
	run.Eval(true, start, strings.Join(did, " "))
}

func genPath(rnd *rand.Rand) string {
	return pick(rnd, "/", "/private/x", "/private/", "/pub/a", "/ov/private", "/o/f", "/nothing", "/private/static/", "/x/y?z=1", "/%41")
}

// TestP37 looks for credentials where they don't belong.
func TestP37(t *testing.T) {
	run := vh.New(t, "A case is a user's session of a login and seven other things; everything that is sent, logged and stored is searched for credentials.")
	e := vp.NewEnv(t)
	w := newWorld(t, e)
	w.ups.headers = true
	m := &secrets{run: run, w: w, logged: map[string]string{}, emails: map[string]bool{}}
	vp.Log.SetWatch(m.watch)
	defer vp.Log.SetWatch(nil)
	n := vh.N(1500, 20000)
	vh.Parallel(8, n, func(i int) { p37user(run, m, i) })

	m.mu.Lock()
	defer m.mu.Unlock()
	run.Count("log_entries", m.lines)
	for s, line := range m.logged {
		if kind, cl := m.credential(s); kind != "" {
			run.Violate("log", cl, "an %s is in the log: %s", kind, vh.Trunc(line, 600))
		} else if !strings.HasPrefix(s, "eyJ") {
			run.Violate("log-secret", line, "%q is in the log: %s", s, vh.Trunc(line, 600))
		}
	}
	for _, r := range w.ups.all {
		name := strings.TrimSuffix(r.Up, "o")
		if name == "a7" {
			name = "a7.v.test"
		}
		h := w.hosts[name]
		run.Count("upstream_requests", 1)
		for k, vv := range r.Hdr {
			for _, v := range vv {
				for _, s := range jwtLike.FindAllString(v, -1) {
					kind, cl := m.credential(s)
					aud, _ := cl.GetAudience()
					switch {
					case kind == "":
					case kind == "authentication cookie":
						run.Violate("upstream-auth", r, "the user's authentication cookie was sent to %s in %s", r.Up, k)
					case k == "Authorization":
						// The client's own.
					case k == "Cookie" && h != nil && h.GenID && slices.Contains(aud, "https://"+h.Name+"/"):
						run.Count("upstream_idtokens", 1)
					default:
						run.Violate("upstream-token", r, "a token for %v was sent to %s in %s", aud, r.Up, k)
					}
				}
			}
		}
	}
	// What is stored.
	files := 0
	filepath.WalkDir(w.p.Cfg.CacheDir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		files++
		if st, err := d.Info(); err == nil && st.Mode().Perm()&0o077 != 0 {
			run.Violate("file-mode", p, "%s has mode %v", filepath.Base(p), st.Mode())
		}
		for _, c := range m.certs {
			if bytes.Contains(b, c) {
				run.Violate("stored-plain", p, "%s isn't encrypted: it contains an issued certificate", filepath.Base(p))
				break
			}
		}
		for s := range m.emails {
			if bytes.Contains(b, []byte(s)) {
				run.Violate("stored-email", p, "%s isn't encrypted: it contains %s", filepath.Base(p), s)
				break
			}
		}
		for _, s := range []string{"PRIVATE KEY", "s3cret", `"iss"`, `"PrivateKey"`} {
			if bytes.Contains(b, []byte(s)) {
				run.Violate("stored-text", p, "%s isn't encrypted: it contains %q", filepath.Base(p), s)
			}
		}
		return nil
	})
	run.Count("files", files)
	run.NeedAtLeast("files", 2)
	run.NeedAtLeast("logins", n/4)
	run.NeedAtLeast("set_TLSPROXYAUTH", n/4)
	run.NeedAtLeast("set_TLSPROXYIDTOKEN", n/50)
	run.NeedAtLeast("token_responses", n/100)
	run.NeedAtLeast("upstream_requests", n/4)
	run.NeedAtLeast("log_entries", n)
	run.NeedAtLeast("certificates", 2)
}

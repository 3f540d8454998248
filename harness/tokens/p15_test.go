//go:build goexperiment.synctest

package tokens

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/oidc"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

type nopRecorder struct{}

func (nopRecorder) Record(string) {}

type quiet struct{}

func (quiet) Errorf(string, ...any) {}

type userKey struct{}

// grant is what the specification says about one issued code.
type grant struct {
	code, client, redirect, nonce string
	scopes                        []string
	user                          jwt.MapClaims
	at                            time.Time
	redeemed                      bool
	access                        string
	exclusive                     bool // another client tried it: whether it still works is not specified
}

type oidcWorld struct {
	srv     *oidc.ProviderServer
	tm      *tokenmanager.TokenManager
	clients []oidc.Client
	issuer  string
}

const (
	codeSurelyValid   = 90 * time.Second // what the server itself announces
	codeSurelyExpired = 2*time.Minute + 5*time.Second
)

func (w *oidcWorld) authorize(user jwt.MapClaims, q url.Values, post bool) *httptest.ResponseRecorder {
	var req *http.Request
	if post {
		req = httptest.NewRequest("POST", "https://op.v.test/authorization", strings.NewReader(q.Encode()))
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	} else {
		req = httptest.NewRequest("GET", "https://op.v.test/authorization?"+q.Encode(), nil)
	}
	req = req.WithContext(context.WithValue(req.Context(), userKey{}, user))
	rec := httptest.NewRecorder()
	w.srv.ServeAuthorization(rec, req)
	return rec
}

func (w *oidcWorld) token(method string, q url.Values, inQuery bool) *httptest.ResponseRecorder {
	var req *http.Request
	if inQuery {
		req = httptest.NewRequest(method, "https://op.v.test/token?"+q.Encode(), nil)
	} else {
		req = httptest.NewRequest(method, "https://op.v.test/token", strings.NewReader(q.Encode()))
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	rec := httptest.NewRecorder()
	w.srv.ServeToken(rec, req)
	return rec
}

func (w *oidcWorld) userinfo(access string) *httptest.ResponseRecorder {
	req := httptest.NewRequest("GET", "https://op.v.test/userinfo", nil)
	if access != "" {
		req.Header.Set("Authorization", "Bearer "+access)
	}
	rec := httptest.NewRecorder()
	w.srv.ServeUserInfo(rec, req)
	return rec
}

// TestP15 runs histories of authorization, token and userinfo requests against
// the local OIDC server, with concurrent redemptions, on a virtual clock.
func TestP15(t *testing.T) {
	r := vh.New(t, "cases are histories of requests to the local OIDC server; a case is non-trivial when it redeemed codes and had refusals; distinct by the sequence of operations and outcomes")
	tm, err := tokenmanager.New(vp.NewStore(t, filepath.Join(vh.Work(t), "s")), nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	n := vh.N(400, 10000)
	for i := 0; i < n && r.NumViolations() < 5; i++ {
		synctest.Run(func() { oidcHistory(r, tm, i) })
	}
	for _, k := range []string{"redeemed", "refused_expired", "refused_other_client", "refused_secret", "refused_replay", "refused_redirect", "userinfo_ok", "userinfo_refused", "concurrent_redemptions", "refused_authorization", "claims_checked"} {
		r.NeedAtLeast(k, 20)
	}
}

func genClients(rnd *rand.Rand) []oidc.Client {
	n := 2 + rnd.Intn(3)
	var out []oidc.Client
	for i := 0; i < n; i++ {
		c := oidc.Client{ID: fmt.Sprintf("client%d", i), Secret: fmt.Sprintf("secret-%d-%d", i, rnd.Intn(1000))}
		for j := 0; j <= rnd.Intn(3); j++ {
			c.RedirectURI = append(c.RedirectURI, []string{
				fmt.Sprintf("https://rp%d.example/cb%d", i, j),
				fmt.Sprintf("https://rp%d.example/cb?x=%d&y=a%%20b", i, j),
				fmt.Sprintf("https://shared.example/cb%d", j),
				fmt.Sprintf("myapp%d:/cb%d", i, j),
			}[rnd.Intn(4)])
		}
		out = append(out, c)
	}
	return out
}

// rules and what they must produce for a user.
var rewriteRules = []oidc.RewriteRule{
	{InputClaim: "email", OutputClaim: "preferred_username", Regex: "^([^@]+)@.*$", Value: "$1"},
	{InputClaim: "email", OutputClaim: "groups", Regex: "^.*@corp[.]example$", Value: "staff"},
	{InputClaim: "${name:lower}/${email:upper}", OutputClaim: "tag", Regex: "^(.*)$", Value: "<$1>"},
}

func expectRewrites(user jwt.MapClaims) map[string]any {
	out := map[string]any{}
	em, _ := user["email"].(string)
	if i := strings.IndexByte(em, '@'); i > 0 {
		out["preferred_username"] = em[:i]
	}
	if strings.HasSuffix(em, "@corp.example") {
		out["groups"] = "staff"
	}
	name, _ := user["name"].(string)
	out["tag"] = "<" + strings.ToLower(name) + "/" + strings.ToUpper(em) + ">"
	return out
}

func oidcHistory(r *vh.Run, tm *tokenmanager.TokenManager, i int) {
	rnd := vh.Rand("p15", i)
	w := &oidcWorld{tm: tm, clients: genClients(rnd), issuer: "https://op.v.test/x"}
	withRules := rnd.Intn(2) == 0
	opts := oidc.ServerOptions{TokenManager: w.tm, Issuer: w.issuer, PathPrefix: "/x", Clients: w.clients, EventRecorder: nopRecorder{}, Logger: quiet{},
		ClaimsFromCtx: func(ctx context.Context) jwt.MapClaims { c, _ := ctx.Value(userKey{}).(jwt.MapClaims); return c }}
	if withRules {
		opts.RewriteRules = rewriteRules
	}
	w.srv = oidc.NewServer(opts)
	rec := httptest.NewRecorder()
	w.tm.ServeJWKS(rec, httptest.NewRequest("GET", "https://op.v.test/jwks", nil))
	keys, _, err := parseJWKS(rec.Body.Bytes())
	if err != nil {
		r.Violate("jwks", rec.Body.String(), "published key set: %v", err)
		return
	}
	var users []jwt.MapClaims
	for k := 0; k < 3; k++ {
		em := fmt.Sprintf("u%d@%s", k, []string{"corp.example", "other.example"}[rnd.Intn(2)])
		users = append(users, jwt.MapClaims{"sub": fmt.Sprintf("sub%d", k), "email": em, "name": fmt.Sprintf("User %d", k), "given_name": fmt.Sprintf("G%d", k),
			"aud": "https://login/", "iss": "https://login/", "nonce": "upstream-nonce", "sid": fmt.Sprintf("sid%d", k), "proxyauth": "https://login/", "hhash": "x"})
	}
	var log []string
	var mu sync.Mutex
	note := func(f string, a ...any) {
		mu.Lock()
		log = append(log, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	var grants []*grant
	codes := map[string]bool{}
	fail := func(key, f string, a ...any) {
		r.Violate(key, map[string]any{"case": i, "clients": w.clients, "history": log}, f, a...)
	}
	redeemQ := func(g *grant) url.Values {
		var sec string
		for _, c := range w.clients {
			if c.ID == g.client {
				sec = c.Secret
			}
		}
		return url.Values{"grant_type": {"authorization_code"}, "code": {g.code}, "client_id": {g.client}, "client_secret": {sec}, "redirect_uri": {g.redirect}}
	}
	// checkTokens compares what was released with what was granted.
	checkTokens := func(g *grant, body []byte) {
		var d struct {
			AccessToken string `json:"access_token"`
			IDToken     string `json:"id_token"`
			TokenType   string `json:"token_type"`
		}
		if err := json.Unmarshal(body, &d); err != nil || d.AccessToken == "" {
			fail("token-response", "token response %q: %v", body, err)
			return
		}
		if _, err := keys.verify(d.IDToken); err != nil {
			fail("id-token-signature", "the ID token does not verify with the published keys: %v", err)
			return
		}
		pl, _ := b64(strings.Split(d.IDToken, ".")[1])
		var c map[string]any
		json.Unmarshal(pl, &c)
		want := map[string]any{"aud": g.client, "iss": w.issuer, "sub": g.user["sub"]}
		if g.nonce != "" {
			want["nonce"] = g.nonce
		}
		if slices.Contains(g.scopes, "email") {
			want["email"] = g.user["email"]
		}
		if slices.Contains(g.scopes, "profile") {
			want["name"], want["given_name"] = g.user["name"], g.user["given_name"]
		}
		if withRules {
			for k, v := range expectRewrites(g.user) {
				want[k] = v
			}
		}
		for k, v := range want {
			if c[k] != v {
				fail("id-token-claims", "ID token of %s for %s: claim %q is %v, expected %v", g.user["sub"], g.client, k, c[k], v)
			}
		}
		if g.nonce == "" && c["nonce"] != nil {
			fail("id-token-claims", "ID token has a nonce although the request had none: %v", c["nonce"])
		}
		if !slices.Contains(g.scopes, "email") && c["email"] != nil {
			fail("id-token-claims", "ID token has the email although the scope was not requested")
		}
		for _, k := range []string{"proxyauth", "hhash"} {
			if c[k] != nil {
				fail("id-token-claims", "internal claim %q is in the ID token", k)
			}
		}
		exp, _ := c["exp"].(float64)
		iat, _ := c["iat"].(float64)
		if now := float64(time.Now().Unix()); exp <= now || exp > now+600 || iat > now {
			fail("id-token-times", "ID token iat %v exp %v at %v", iat, exp, now)
		}
		r.Count("claims_checked", 1)
		g.access = d.AccessToken
	}
	redeemed, refused := 0, 0
	steps := 30 + rnd.Intn(40)
	for s := 0; s < steps && r.NumViolations() < 5; s++ {
		switch op := rnd.Intn(10); {
		case op < 3: // authorize, possibly several users at once
			k := 1 + rnd.Intn(3)
			gs := make([]*grant, k)
			var wg sync.WaitGroup
			for j := 0; j < k; j++ {
				c := w.clients[rnd.Intn(len(w.clients))]
				g := &grant{client: c.ID, redirect: c.RedirectURI[rnd.Intn(len(c.RedirectURI))], user: users[rnd.Intn(len(users))], at: time.Now()}
				g.scopes = [][]string{{"openid"}, {"openid", "email"}, {"openid", "profile", "email"}, {"profile"}}[rnd.Intn(4)]
				if rnd.Intn(3) > 0 {
					g.nonce = fmt.Sprintf("n%d-%d", s, j)
				}
				gs[j] = g
				st := fmt.Sprintf("st%d&=%d", s, j)
				post := rnd.Intn(4) == 0
				wg.Add(1)
				go func() {
					defer wg.Done()
					q := url.Values{"response_type": {"code"}, "client_id": {g.client}, "redirect_uri": {g.redirect}, "scope": {strings.Join(g.scopes, " ")}, "state": {st}}
					if g.nonce != "" {
						q.Set("nonce", g.nonce)
					}
					rec := w.authorize(g.user, q, post)
					loc := rec.Header().Get("Location")
					note("authorize %s %s -> %d %s", g.client, g.redirect, rec.Code, loc)
					lu, err := url.Parse(loc)
					ru, _ := url.Parse(g.redirect)
					if rec.Code != 302 || err != nil {
						fail("authorization-refused", "a correct authorization request was answered %d", rec.Code)
						return
					}
					if lu.Scheme != ru.Scheme || lu.Host != ru.Host || lu.Path != ru.Path || lu.User != nil {
						fail("redirect-target", "redirected to %q instead of the registered %q", loc, g.redirect)
					}
					for n, v := range ru.Query() {
						if !slices.Equal(lu.Query()[n], v) {
							fail("redirect-target", "redirected to %q: the parameter %s of %q was lost", loc, n, g.redirect)
						}
					}
					if lu.Query().Get("state") != st {
						fail("redirect-state", "state %q came back as %q", st, lu.Query().Get("state"))
					}
					g.code = lu.Query().Get("code")
				}()
			}
			wg.Wait()
			for _, g := range gs {
				if g.code == "" {
					continue
				}
				if codes[g.code] || len(g.code) < 16 {
					fail("code-reuse", "the code %q was given twice or is too short", g.code)
				}
				codes[g.code] = true
				grants = append(grants, g)
			}
			r.Count("authorizations", k)
		case op == 3: // authorization that must be refused
			c := w.clients[rnd.Intn(len(w.clients))]
			u := c.RedirectURI[0]
			bad := []string{u + "x", u + "/", u + "/../evil", strings.Replace(u, "https://", "http://", 1) + "#", "https://evil.example/", "", strings.ToUpper(u), u + "&code=1", "//evil.example", "https://evil.example@" + strings.TrimPrefix(u, "https://"), strings.Replace(u, "example", "example.evil.test", 1) + "z"}[rnd.Intn(11)]
			q := url.Values{"response_type": {"code"}, "client_id": {c.ID}, "redirect_uri": {bad}, "scope": {"openid"}}
			user := users[0]
			switch rnd.Intn(6) {
			case 0:
				q.Set("client_id", "client99")
				q.Set("redirect_uri", u)
			case 1:
				user = nil
				q.Set("redirect_uri", u)
			case 2: // URI registered only by another client
				for _, o := range w.clients {
					for _, ou := range o.RedirectURI {
						if !slices.Contains(c.RedirectURI, ou) {
							q.Set("redirect_uri", ou)
						}
					}
				}
				if slices.Contains(c.RedirectURI, q.Get("redirect_uri")) {
					continue
				}
			}
			if slices.Contains(c.RedirectURI, q.Get("redirect_uri")) && q.Get("client_id") == c.ID && user != nil {
				continue
			}
			rec := w.authorize(user, q, false)
			note("bad authorize %v -> %d", q, rec.Code)
			if rec.Code == 200 || rec.Header().Get("Location") != "" {
				fail("code-to-unregistered", "authorization request %v (user %v) was answered %d Location %q", q, user, rec.Code, rec.Header().Get("Location"))
			}
			r.Count("refused_authorization", 1)
			refused++
		case op == 4: // time passes
			d := []time.Duration{time.Second, 20 * time.Second, time.Minute, 119 * time.Second, 125 * time.Second, 10 * time.Minute}[rnd.Intn(6)]
			time.Sleep(d)
			note("sleep %v", d)
		case op < 8: // redeem
			if len(grants) == 0 {
				continue
			}
			g := grants[rnd.Intn(len(grants))]
			if rnd.Intn(2) == 0 {
				g = grants[len(grants)-1]
			}
			age := time.Since(g.at)
			q := redeemQ(g)
			kind := rnd.Intn(12)
			valid, what := true, "right"
			method, inQuery := "POST", false
			switch kind {
			case 0: // another client with its own correct credentials
				o := w.clients[rnd.Intn(len(w.clients))]
				if o.ID == g.client {
					continue
				}
				q.Set("client_id", o.ID)
				q.Set("client_secret", o.Secret)
				q.Set("redirect_uri", o.RedirectURI[rnd.Intn(len(o.RedirectURI))])
				valid, what = false, "refused_other_client"
				g.exclusive = true
			case 1:
				q.Set("client_secret", []string{"", "wrong", q.Get("client_secret") + " ", w.clients[(slices.IndexFunc(w.clients, func(c oidc.Client) bool { return c.ID == g.client })+1)%len(w.clients)].Secret}[rnd.Intn(4)])
				valid, what = false, "refused_secret"
			case 2:
				q.Set("redirect_uri", []string{"", "https://evil.example/", g.redirect + "/"}[rnd.Intn(3)])
				valid, what = false, "refused_redirect"
			case 3:
				method, valid, what = "GET", false, "refused_method"
				inQuery = true
			case 4:
				q.Set("grant_type", []string{"", "refresh_token", "implicit"}[rnd.Intn(3)])
				valid, what = false, "refused_grant"
			case 5:
				q.Set("code", []string{"", g.code + "A", strings.ToLower(g.code), g.code[:len(g.code)-1]}[rnd.Intn(4)])
				if codes[q.Get("code")] {
					continue
				}
				valid, what = false, "refused_code"
			case 6:
				// the other registered URI of the same client: not the one the code was sent to
				for _, c := range w.clients {
					if c.ID == g.client {
						q.Set("redirect_uri", c.RedirectURI[rnd.Intn(len(c.RedirectURI))])
					}
				}
				if q.Get("redirect_uri") != g.redirect {
					valid, what = false, "refused_redirect"
					g.exclusive = true
				}
			}
			par := 1
			if rnd.Intn(3) == 0 {
				par = 2 + rnd.Intn(6)
			}
			recs := make([]*httptest.ResponseRecorder, par)
			var wg sync.WaitGroup
			for j := range recs {
				wg.Add(1)
				go func() { defer wg.Done(); recs[j] = w.token(method, q, inQuery) }()
			}
			wg.Wait()
			ok := 0
			for _, rec := range recs {
				if rec.Code == 200 {
					ok++
				}
				note("redeem grant by %s age %v %s x%d -> %d", g.client, age, what, par, rec.Code)
			}
			switch {
			case !valid:
				if ok > 0 {
					fail("code-released:"+what, "a token request (%v, %s) for a code of client %s (redirect %s) was granted", q, what, g.client, g.redirect)
				}
				r.Count(what, par)
				refused += par
			case g.redeemed:
				if ok > 0 {
					fail("code-reuse", "the code was redeemed again")
				}
				r.Count("refused_replay", par)
				refused += par
			case age >= codeSurelyExpired:
				if ok > 0 {
					fail("code-expired", "a code was redeemed %v after it was issued", age)
				}
				r.Count("refused_expired", par)
				refused += par
			case ok > 1:
				fail("code-reuse", "%d of %d concurrent requests redeemed the same code", ok, par)
			case ok == 0 && age <= codeSurelyValid && !g.exclusive:
				fail("code-refused", "a correct token request, %v after the code was issued, was refused (%d)", age, recs[0].Code)
			case ok == 1:
				redeemed++
				r.Count("redeemed", 1)
				g.redeemed = true
				for _, rec := range recs {
					if rec.Code == 200 {
						checkTokens(g, rec.Body.Bytes())
					}
				}
			}
			if par > 1 {
				r.Count("concurrent_redemptions", 1)
			}
		default: // userinfo
			var g *grant
			for _, x := range grants {
				if x.access != "" && rnd.Intn(2) == 0 {
					g = x
				}
			}
			if g == nil || rnd.Intn(4) == 0 {
				bad := []string{"", "x", "undefined"}
				if len(grants) > 0 {
					bad = append(bad, grants[0].code)
				}
				if rec := w.userinfo(bad[rnd.Intn(len(bad))]); rec.Code == 200 {
					fail("userinfo-open", "userinfo without a valid access token: %s", rec.Body)
				}
				r.Count("userinfo_refused", 1)
				continue
			}
			age := time.Since(g.at)
			rec := w.userinfo(g.access)
			note("userinfo %v age %v -> %d", g.user["sub"], age, rec.Code)
			if rec.Code != 200 {
				if age <= codeSurelyValid && !g.exclusive {
					fail("userinfo-refused", "userinfo with a fresh access token was refused: %d %s", rec.Code, rec.Body)
				}
				r.Count("userinfo_refused", 1)
				continue
			}
			if age >= codeSurelyExpired {
				fail("userinfo-expired", "the access token still worked %v after it was issued", age)
			}
			g.exclusive = true // a second use is not specified
			var c map[string]any
			json.Unmarshal(rec.Body.Bytes(), &c)
			if c["sub"] != g.user["sub"] || (c["email"] != nil && c["email"] != g.user["email"]) || (slices.Contains(g.scopes, "email") && c["email"] == nil) {
				fail("userinfo-claims", "userinfo of %v returned %v", g.user["sub"], c)
			}
			r.Count("userinfo_ok", 1)
		}
	}
	r.Eval(redeemed > 0 && refused > 0, log)
	if i < 2 {
		r.Sample(map[string]any{"clients": len(w.clients), "history": log[:min(len(log), 12)]})
	}
}

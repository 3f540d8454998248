package vp

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/cookiejar"
	"net/url"
	"strings"
	"sync"
	"testing"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

// IDP is a scripted OpenID Connect provider: the harness decides what each code
// yields, and the provider records what the relying party presents.
type IDP struct {
	*HTTPServer
	URL string

	mu     sync.Mutex
	codes  map[string]*Code
	Calls  []TokenCall
	Tokens map[string]map[string]any // access token -> userinfo
	n      int
}

// Code is what a code can be exchanged for.
type Code struct {
	Challenge   string
	RedirectURI string
	ClientID    string
	Claims      map[string]any
	Raw         map[string]any // the token response, when not built from Claims
	Status      int
	Userinfo    map[string]any
	Gate        chan struct{} // when set, the answer waits for it
	used        bool
}

// TokenCall is one request to the token endpoint.
type TokenCall struct {
	Code, Verifier, ClientID, Secret, RedirectURI string
	OK                                            bool
}

func NewIDP(t testing.TB) *IDP {
	i := &IDP{codes: map[string]*Code{}, Tokens: map[string]map[string]any{}}
	mux := http.NewServeMux()
	mux.HandleFunc("/token", i.token)
	mux.HandleFunc("/userinfo", func(w http.ResponseWriter, req *http.Request) {
		i.mu.Lock()
		u, ok := i.Tokens[strings.TrimPrefix(req.Header.Get("Authorization"), "Bearer ")]
		i.mu.Unlock()
		if !ok {
			http.Error(w, "{}", 401)
			return
		}
		json.NewEncoder(w).Encode(u)
	})
	i.HTTPServer = NewHTTPServer(t, nil, mux)
	i.URL = "http://" + i.Addr
	return i
}

// Add registers a code.
func (i *IDP) Add(c *Code) string {
	i.mu.Lock()
	defer i.mu.Unlock()
	i.n++
	code := fmt.Sprintf("code%d", i.n)
	i.codes[code] = c
	return code
}

// JWT builds a token that nobody has a key for; clients that get it straight
// from the token endpoint do not verify its signature.
func JWT(claims map[string]any) string {
	h := base64.RawURLEncoding.EncodeToString([]byte(`{"alg":"RS256","typ":"JWT"}`))
	b, _ := json.Marshal(claims)
	return h + "." + base64.RawURLEncoding.EncodeToString(b) + "." + base64.RawURLEncoding.EncodeToString([]byte("sig"))
}

func (i *IDP) token(w http.ResponseWriter, req *http.Request) {
	req.ParseForm()
	f := req.PostForm
	call := TokenCall{Code: f.Get("code"), Verifier: f.Get("code_verifier"), ClientID: f.Get("client_id"), Secret: f.Get("client_secret"), RedirectURI: f.Get("redirect_uri")}
	i.mu.Lock()
	c := i.codes[call.Code]
	if c != nil && !c.used {
		h := sha256.Sum256([]byte(call.Verifier))
		call.OK = base64.RawURLEncoding.EncodeToString(h[:]) == c.Challenge && call.ClientID == c.ClientID && call.RedirectURI == c.RedirectURI && f.Get("grant_type") == "authorization_code"
		c.used = true
	}
	i.Calls = append(i.Calls, call)
	var gate chan struct{}
	if c != nil {
		gate = c.Gate
	}
	i.mu.Unlock()
	if gate != nil {
		<-gate
	}
	w.Header().Set("Content-Type", "application/json")
	if !call.OK {
		w.WriteHeader(400)
		io.WriteString(w, `{"error":"invalid_grant"}`)
		return
	}
	if c.Status != 0 {
		w.WriteHeader(c.Status)
	}
	out := c.Raw
	if out == nil {
		out = map[string]any{"token_type": "Bearer"}
		if c.Userinfo != nil {
			tok := "at-" + call.Code
			i.mu.Lock()
			i.Tokens[tok] = c.Userinfo
			i.mu.Unlock()
			out["access_token"] = tok
		} else {
			out["id_token"] = JWT(c.Claims)
		}
	}
	json.NewEncoder(w).Encode(out)
}

func (i *IDP) NumCalls() int { i.mu.Lock(); defer i.mu.Unlock(); return len(i.Calls) }

func (i *IDP) CallsFor(code string) []TokenCall {
	i.mu.Lock()
	defer i.mu.Unlock()
	var out []TokenCall
	for _, c := range i.Calls {
		if c.Code == code {
			out = append(out, c)
		}
	}
	return out
}

// Config is the proxy configuration for this provider.
func (i *IDP) Config(name, host, domain string) *proxy.ConfigOIDC {
	return &proxy.ConfigOIDC{Name: name, AuthEndpoint: i.URL + "/authorization", TokenEndpoint: i.URL + "/token",
		RedirectURL: "https://" + host + "/oidc/" + name, ClientID: "client-" + name, ClientSecret: "secret-" + name, Domain: domain}
}

// Browser is an HTTP client with cookies that talks to one proxy.
type Browser struct {
	*http.Client
	P   *P
	Jar *cookiejar.Jar
	Hdr http.Header
}

func (p *P) Browser(o ClientOpt) *Browser {
	c := p.HTTPClient(o)
	jar, _ := cookiejar.New(nil)
	c.Jar = jar
	return &Browser{Client: c, P: p, Jar: jar, Hdr: http.Header{}}
}

// Result is a response with its body read.
type Result struct {
	*http.Response
	Text string
}

// Loc is the parsed redirect target.
func (r *Result) Loc() *url.URL {
	if r == nil || r.Response == nil {
		return &url.URL{}
	}
	u, err := r.Response.Location()
	if err != nil {
		return &url.URL{}
	}
	return u
}

func (r *Result) SetCookies(name string) string {
	for _, c := range r.Cookies() {
		if c.Name == name && c.MaxAge >= 0 && c.Value != "" {
			return c.Value
		}
	}
	return ""
}

func (b *Browser) Do(method, u string, body io.Reader, hdr http.Header) (*Result, error) {
	req, err := http.NewRequest(method, u, body)
	if err != nil {
		return nil, err
	}
	for k, v := range b.Hdr {
		req.Header[k] = v
	}
	for k, v := range hdr {
		req.Header[k] = v
	}
	resp, err := b.Client.Do(req)
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	t, err := io.ReadAll(io.LimitReader(resp.Body, 8<<20))
	return &Result{resp, string(t)}, err
}

func (b *Browser) Get(u string) (*Result, error) { return b.Do("GET", u, nil, nil) }

// StartLogin follows a login request up to the identity provider and returns the
// parameters of the authorization request.
func (b *Browser) StartLogin(u string) (url.Values, error) {
	r, err := b.Do("GET", u, nil, http.Header{"X-Skip-Login-Confirmation": {"1"}})
	for n := 0; err == nil && n < 6; n++ {
		if r.StatusCode/100 != 3 {
			return nil, fmt.Errorf("expected a redirect, got %d %.200s", r.StatusCode, r.Text)
		}
		l := r.Loc()
		if l.Scheme == "http" {
			return l.Query(), nil
		}
		r, err = b.Get(l.String())
	}
	return nil, err
}

// Claims is a reasonable ID token for an authorization request.
func Claims(q url.Values, email string) map[string]any {
	return map[string]any{"iss": "https://idp.example", "aud": q.Get("client_id"), "sub": "sub-" + email, "email": email, "email_verified": true, "nonce": q.Get("nonce"), "exp": 9999999999, "iat": 1}
}

// Login logs the browser in as email, starting at u, and returns the final
// response of the callback.
func (b *Browser) Login(i *IDP, u, email string) (*Result, error) {
	q, err := b.StartLogin(u)
	if err != nil {
		return nil, err
	}
	code := i.Add(&Code{Challenge: q.Get("code_challenge"), RedirectURI: q.Get("redirect_uri"), ClientID: q.Get("client_id"), Claims: Claims(q, email)})
	return b.Callback(q, code)
}

// Callback delivers a code to the proxy.
func (b *Browser) Callback(q url.Values, code string) (*Result, error) {
	return b.Get(q.Get("redirect_uri") + "?" + url.Values{"state": {q.Get("state")}, "code": {code}}.Encode())
}

// Cookie returns the value of the browser's cookie for u.
func (b *Browser) Cookie(u, name string) string {
	x, _ := url.Parse(u)
	for _, c := range b.Jar.Cookies(x) {
		if c.Name == name {
			return c.Value
		}
	}
	return ""
}

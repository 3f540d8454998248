// Package sso: monitors for single sign-on: who gets through, with which
// credentials, and where users are sent.
package sso

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

const (
	issuer = "https://login.v.test/"
	marker = "MARKER-OF-PROTECTED-CONTENT"
)

// reach is one request that arrived at an upstream.
type reach struct {
	Up, Method, URI, Path, Proto string
	Cookie, User, Authz          string
	Hdr                          http.Header
}

type upstreams struct {
	mu  sync.Mutex
	got map[string][]reach
	all []reach

	headers bool // keep all the headers
}

func (u *upstreams) handler(name string) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		r := reach{name, req.Method, req.RequestURI, req.URL.Path, req.Proto, strings.Join(req.Header.Values("Cookie"), "; "), req.Header.Get("X-Tlsproxy-User-Id"), req.Header.Get("Authorization"), nil}
		if u.headers {
			r.Hdr = req.Header.Clone()
		}
		tok := req.Header.Get("X-V-Token")
		u.mu.Lock()
		u.got[tok] = append(u.got[tok], r)
		u.all = append(u.all, r)
		u.mu.Unlock()
		w.Header().Set("X-Up", name)
		io.WriteString(w, marker+" "+name)
	})
}

func (u *upstreams) reached(tok string) []reach {
	u.mu.Lock()
	defer u.mu.Unlock()
	return append([]reach(nil), u.got[tok]...)
}

// host describes one SSO-protected backend as the oracle sees it.
type host struct {
	Name     string
	Provider string
	Paths    []string // covered prefixes; nil means everything
	ACL      *[]string
	ReAuth   time.Duration
	GenID    bool
	Kind     string // http, local, console
	Sanitize bool
	H3       bool
}

func (h *host) covered(path string) bool {
	if len(h.Paths) == 0 {
		return true
	}
	for _, p := range h.Paths {
		if strings.HasPrefix(path, p) || strings.HasPrefix(specClean(path), p) {
			return true
		}
	}
	return false
}

func (h *host) allows(email string) bool {
	if h.ACL == nil {
		return true
	}
	at := strings.IndexByte(email, '@')
	dom := ""
	if at >= 0 {
		dom = email[at+1:]
	}
	for _, a := range *h.ACL {
		if a == email || a == "@"+dom {
			return true
		}
	}
	return false
}

// specClean removes dot segments and duplicate slashes, keeping a final slash.
func specClean(p string) string {
	var out []string
	segs := strings.Split(p, "/")
	for _, s := range segs {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	r := "/" + strings.Join(out, "/")
	if r != "/" && segs[len(segs)-1] == "" {
		r += "/"
	}
	return r
}

type world struct {
	t     *testing.T
	e     *vp.Env
	p     *vp.P
	idp   *vp.IDP
	ups   *upstreams
	hosts map[string]*host
	names []string
	tm    *tokenmanager.TokenManager
	ws    *vp.TCPServer
	h2    *http.Client
	h3    *http.Client
	docs  string
}

func newWorld(t *testing.T, e *vp.Env) *world {
	w := &world{t: t, e: e, ups: &upstreams{got: map[string][]reach{}}, hosts: map[string]*host{}}
	w.idp = vp.NewIDP(t)
	w.docs = filepath.Join(e.Dir, "docs")
	for _, f := range []string{"index.html", "private/x", "private/index.html", "pub/a", "pub/index.html", "x/y", "o/f"} {
		vh.MustWrite(t, filepath.Join(w.docs, f), []byte(marker+" static "+f))
	}
	alpn := &[]string{"h2", "http/1.1", "h3"}
	var bes []*proxy.Backend
	add := func(h *host, be *proxy.Backend) {
		be.ServerNames = []string{h.Name}
		be.ALPNProtos = alpn
		be.SSO.Provider, be.SSO.Paths, be.SSO.ACL, be.SSO.ForceReAuth, be.SSO.GenerateIDTokens = h.Provider, h.Paths, h.ACL, h.ReAuth, h.GenID
		if be.Mode == "HTTP" {
			be.Addresses = []string{vp.NewHTTPServer(t, nil, w.ups.handler(h.Name)).Addr}
		}
		h.Sanitize = be.SanitizePath == nil || *be.SanitizePath
		bes = append(bes, be)
		w.hosts[h.Name] = h
		w.names = append(w.names, h.Name)
	}
	acl := &[]string{"alice@corp.example", "@dom2.example"}
	sso := func() *proxy.BackendSSO { return &proxy.BackendSSO{} }
	sid := func() *proxy.BackendSSO { return &proxy.BackendSSO{SetUserIDHeader: true} }
	add(&host{Name: "a0.v.test", Provider: "idp1", Kind: "http"}, &proxy.Backend{Mode: "HTTP", SSO: sid()})
	add(&host{Name: "a1.v.test", Provider: "idp1", Kind: "http", Paths: []string{"/private", "/x/", "/.hid"}, ACL: acl}, &proxy.Backend{Mode: "HTTP", SSO: sid()})
	add(&host{Name: "a2.v.test", Provider: "idp1", Kind: "http", ReAuth: time.Hour, ACL: acl}, &proxy.Backend{Mode: "HTTP", SSO: sso()})
	add(&host{Name: "a3.v.test", Provider: "idp1", Kind: "http", GenID: true, Paths: []string{"/private"}}, &proxy.Backend{Mode: "HTTP", SSO: sso()})
	add(&host{Name: "a4.v.test", Provider: "idp2", Kind: "http", Paths: []string{"/private"}}, &proxy.Backend{Mode: "HTTP", SSO: sso(), SanitizePath: vp.Ptr(false)})
	add(&host{Name: "a5.v.test", Provider: "idp1", Kind: "local", Paths: []string{"/private", "/o/"}, ACL: acl}, &proxy.Backend{Mode: "LOCAL", DocumentRoot: w.docs, SSO: sso()})
	add(&host{Name: "a6.v.test", Provider: "idp2", Kind: "console", ACL: acl}, &proxy.Backend{Mode: "CONSOLE", SSO: sso()})
	add(&host{Name: "a7.v.test", Provider: "idp2", Kind: "http", Paths: []string{"/private", "/ov/private"}}, &proxy.Backend{Mode: "HTTP", SSO: sid(),
		PathOverrides: []*proxy.PathOverride{
			{Paths: []string{"/ov/"}, Addresses: []string{vp.NewHTTPServer(t, nil, w.ups.handler("a7o")).Addr}, Mode: "HTTP", SanitizePath: vp.Ptr(false)},
			{Paths: []string{"/private/static/"}, DocumentRoot: w.docs}}})
	add(&host{Name: "a8.v.test", Provider: "idp1", Kind: "http", ACL: &[]string{}}, &proxy.Backend{Mode: "HTTP", SSO: sso()})
	add(&host{Name: "a9.v.test", Provider: "idp2", Kind: "local", ACL: acl}, &proxy.Backend{Mode: "LOCAL", SSO: sso()})
	bes = append(bes, oidcBackend(alpn))
	bes = append(bes, &proxy.Backend{ServerNames: []string{"login.v.test"}, Mode: "LOCAL", ALPNProtos: alpn})
	cfg := e.Config(true, bes...)
	cfg.OIDCProviders = []*proxy.ConfigOIDC{w.idp.Config("idp1", "login.v.test", "v.test"), w.idp.Config("idp2", "login.v.test", "v.test")}
	w.ws = vp.NewTCPServer(t, func(c net.Conn) { io.WriteString(c, marker+" websocket"); io.Copy(c, c) })
	cfg.WebSockets = []*proxy.WebSocketConfig{{Endpoint: "https://a9.v.test/ws", Address: w.ws.Addr}, {Endpoint: "https://a5.v.test/private/ws", Address: w.ws.Addr}}
	cfg.PKI = []*proxy.ConfigPKI{{Name: "pki0", Endpoint: "https://a5.v.test/private/pki", Admins: []string{"alice@corp.example"}, KeyType: "ecdsa-p256"}}
	cfg.SSHCertificateAuthorities = []*proxy.ConfigSSHCertificateAuthority{{Name: "ssh0", KeyType: "ed25519", PublicKeyEndpoint: "https://a9.v.test/sshkey", CertificateEndpoint: "https://a9.v.test/sshcert"}}
	w.p = e.Start(cfg)
	w.tm = w.p.Tokens()
	w.h2 = w.p.HTTPClient(vp.ClientOpt{Protos: []string{"h2"}})
	var cl func()
	w.h3, cl = w.p.H3Client(vp.ClientOpt{})
	t.Cleanup(func() { cl(); w.p.End() })
	return w
}

// authClaims are the claims of an authentication cookie as the proxy issues it.
func authClaims(provider, email, hostName string, issued time.Time) jwt.MapClaims {
	hh := sha256.Sum256([]byte(hostName))
	return jwt.MapClaims{"iat": issued.Unix(), "exp": issued.Add(20 * time.Hour).Unix(), "iss": issuer, "aud": issuer,
		"sub": "sub-" + email, "email": email, "proxyauth": issuer, "provider": provider, "hhash": hex.EncodeToString(hh[:]), "sid": "s1"}
}

func idClaims(provider, email, hostName string, issued time.Time) jwt.MapClaims {
	return jwt.MapClaims{"iat": issued.Unix(), "exp": issued.Add(20 * time.Hour).Unix(), "iss": issuer, "aud": "https://" + hostName + "/",
		"sub": "sub-" + email, "email": email, "provider": provider, "sid": "s1"}
}

func (w *world) mint(c jwt.MapClaims, alg string) string {
	s, err := w.tm.CreateToken(c, alg)
	if err != nil {
		w.t.Fatalf("CreateToken: %v", err)
	}
	return s
}

func map2claims(m map[string]any) jwt.MapClaims { return jwt.MapClaims(m) }

func with(c jwt.MapClaims, kv ...any) jwt.MapClaims {
	out := jwt.MapClaims{}
	for k, v := range c {
		out[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] == nil {
			delete(out, kv[i].(string))
		} else {
			out[kv[i].(string)] = kv[i+1]
		}
	}
	return out
}

// answer is what a client got.
type answer struct {
	Status int
	Loc    string
	Body   string
	Hdr    http.Header
}

// raw sends one HTTP/1.1 request made of exactly these bytes.
func (w *world) raw(sni, text, method string) (*answer, error) {
	c, err := w.p.Dial(sni, vp.ClientOpt{Protos: []string{"http/1.1"}})
	if err != nil {
		return nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	if _, err := io.WriteString(c, text); err != nil {
		return nil, err
	}
	resp, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	var b []byte
	if resp.StatusCode == 101 {
		// show what the WebSocket would deliver
		c.SetDeadline(time.Now().Add(2 * time.Second))
		b, _ = io.ReadAll(io.LimitReader(c, 30))
	} else {
		b, _ = io.ReadAll(io.LimitReader(resp.Body, 1<<20))
	}
	return &answer{resp.StatusCode, resp.Header.Get("Location"), string(b), resp.Header}, nil
}

// send delivers one request over HTTP version v (0: raw 1.1, 2: h2, 3: h3).
func (w *world) send(v int, hostName, method, target, tok string, hdr [][2]string, body string) (*answer, error) {
	if v == 0 {
		var b bytes.Buffer
		fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\nX-V-Token: %s\r\n", method, target, hostName, tok)
		for _, kv := range hdr {
			fmt.Fprintf(&b, "%s: %s\r\n", kv[0], kv[1])
		}
		if body != "" {
			fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
		}
		up := false
		for _, kv := range hdr {
			up = up || strings.EqualFold(kv[0], "upgrade")
		}
		if !up {
			b.WriteString("Connection: close\r\n")
		}
		b.WriteString("\r\n" + body)
		return w.raw(hostName, b.String(), method)
	}
	var rd io.Reader
	if body != "" {
		rd = strings.NewReader(body)
	}
	req, err := http.NewRequest(method, "https://"+hostName+target, rd)
	if err != nil {
		return nil, err
	}
	req.Header.Set("X-V-Token", tok)
	for _, kv := range hdr {
		req.Header.Add(kv[0], kv[1])
	}
	cl := w.h2
	if v == 3 {
		cl = w.h3
	}
	resp, err := cl.Do(req)
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	b, _ := io.ReadAll(io.LimitReader(resp.Body, 1<<20))
	return &answer{resp.StatusCode, resp.Header.Get("Location"), string(b), resp.Header}, nil
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func otherTM(t *testing.T) *tokenmanager.TokenManager {
	tm, err := tokenmanager.New(vp.NewStore(t, filepath.Join(vh.Work(t), "other")), nil, nil)
	if err != nil {
		t.Fatalf("token manager: %v", err)
	}
	return tm
}

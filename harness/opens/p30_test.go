package opens

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"gopkg.in/yaml.v3"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

type conf30 struct {
	*everything
	n  int
	mu sync.Mutex
}

// valid is a configuration that has nothing wrong.
func (c *conf30) valid(r *rand.Rand) *proxy.Config {
	cfg := c.config(r.Intn(32))
	for _, be := range cfg.Backends {
		switch r.Intn(6) {
		case 0:
			be.AllowIPs = &[]string{"127.0.0.0/8", "::1/128"}
		case 1:
			be.DenyIPs = &[]string{"192.0.2.1/32"}
		case 2:
			be.BWLimit = "fast"
		case 3:
			be.Mode = strings.ToLower(be.Mode)
		case 4:
			be.LogFilter.Requests = vp.Ptr(r.Intn(2) == 0)
		}
		if r.Intn(4) == 0 && be.ClientAuth == nil && be.SSO == nil {
			be.ALPNProtos = nil
		}
		if r.Intn(5) == 0 && len(be.Addresses) > 0 && !strings.EqualFold(be.Mode, proxy.ModeQUIC) {
			be.ProxyProtocolVersion = pick(r, "v1", "v2")
		}
		if r.Intn(5) == 0 {
			be.ForwardTimeout = pick(r, time.Second, time.Minute)
		}
	}
	r.Shuffle(len(cfg.Backends), func(i, j int) { cfg.Backends[i], cfg.Backends[j] = cfg.Backends[j], cfg.Backends[i] })
	return cfg
}

func text(cfg *proxy.Config) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "cacheDir: %q\n", cfg.CacheDir)
	dir := cfg.CacheDir
	cfg.CacheDir = ""
	out, err := yaml.Marshal(cfg)
	cfg.CacheDir = dir
	if err != nil {
		panic(err)
	}
	b.Write(out)
	return b.Bytes()
}

func copyOf(cfg *proxy.Config) *proxy.Config {
	var out proxy.Config
	if err := yaml.Unmarshal(text(cfg), &out); err != nil {
		panic(err)
	}
	return &out
}

// guard returns the error of fn, and whether it panicked.
func guard(fn func() error) (err error, panicked string) {
	defer func() {
		if e := recover(); e != nil {
			panicked = fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
	}()
	return fn(), ""
}

func (c *conf30) read(b []byte) (cfg *proxy.Config, err error, panicked string) {
	c.mu.Lock()
	c.n++
	name := filepath.Join(c.e.Dir, fmt.Sprintf("conf%d.yaml", c.n%20))
	c.mu.Unlock()
	if err := os.WriteFile(name, b, 0o600); err != nil {
		c.t.Fatal(err)
	}
	err, panicked = guard(func() (err error) { cfg, err = proxy.ReadConfig(name); return })
	return
}

func (c *conf30) find(cfg *proxy.Config, r *rand.Rand, ok func(*proxy.Backend) bool) *proxy.Backend {
	for _, i := range r.Perm(len(cfg.Backends)) {
		if ok(cfg.Backends[i]) {
			return cfg.Backends[i]
		}
	}
	panic("no such backend")
}

func anyBE(*proxy.Backend) bool { return true }
func mode(m ...string) func(*proxy.Backend) bool {
	return func(be *proxy.Backend) bool {
		for _, v := range m {
			if strings.EqualFold(be.Mode, v) {
				return true
			}
		}
		return false
	}
}

// contradiction makes a valid configuration invalid.
type contradiction struct {
	name string
	do   func(cfg *proxy.Config, r *rand.Rand)
}

func (c *conf30) contradictions() []contradiction {
	var out []contradiction
	add := func(name string, do func(cfg *proxy.Config, r *rand.Rand)) {
		out = append(out, contradiction{name, do})
	}
	// Names.
	add("provider names: oidc", func(cfg *proxy.Config, r *rand.Rand) {
		o := *cfg.OIDCProviders[0]
		cfg.OIDCProviders = append(cfg.OIDCProviders, &o)
	})
	add("provider names: saml", func(cfg *proxy.Config, r *rand.Rand) { cfg.SAMLProviders[0].Name = "op" })
	add("provider names: passkey", func(cfg *proxy.Config, r *rand.Rand) {
		o := *cfg.PasskeyProviders[0]
		o.Name = pick(r, "op", "saml", "pk")
		cfg.PasskeyProviders = append(cfg.PasskeyProviders, &o)
	})
	add("pki names", func(cfg *proxy.Config, r *rand.Rand) {
		cfg.PKI = append(cfg.PKI, &proxy.ConfigPKI{Name: cfg.PKI[0].Name, KeyType: "ed25519"})
	})
	add("ssh names", func(cfg *proxy.Config, r *rand.Rand) {
		cfg.SSHCertificateAuthorities = append(cfg.SSHCertificateAuthorities, &proxy.ConfigSSHCertificateAuthority{Name: cfg.SSHCertificateAuthorities[0].Name})
	})
	add("limit names", func(cfg *proxy.Config, r *rand.Rand) {
		cfg.BWLimits = append(cfg.BWLimits, &proxy.BWLimit{Name: cfg.BWLimits[r.Intn(len(cfg.BWLimits))].Name, Ingress: 5, Egress: 5})
	})
	add("server names", func(cfg *proxy.Config, r *rand.Rand) {
		// Names that are the same, in different forms.
		p := &[]string{pick(r, "h2", "http/1.1", "h3", "x")}
		pair := pick(r, [2]string{"dup.v.test", "dup.v.test"}, [2]string{"dup.v.test", "DUP.v.test"}, [2]string{"münchen.v.test", "xn--mnchen-3ya.v.test"}, [2]string{"MÜNCHEN.v.test", "münchen.v.test"})
		if r.Intn(2) == 0 {
			pair[0], pair[1] = pair[1], pair[0]
		}
		if r.Intn(3) == 0 {
			cfg.Backends = append(cfg.Backends, &proxy.Backend{ServerNames: []string{pair[0], "other.v.test", pair[1]}, Mode: proxy.ModeLocal, ALPNProtos: p})
			return
		}
		for _, n := range pair {
			i := r.Intn(len(cfg.Backends) + 1)
			cfg.Backends = append(cfg.Backends[:i:i], append([]*proxy.Backend{{ServerNames: []string{"a" + strconv.Itoa(i) + ".v.test", n}[r.Intn(2):], Mode: proxy.ModeLocal, ALPNProtos: p}}, cfg.Backends[i:]...)...)
		}
	})
	add("server names: default protocols", func(cfg *proxy.Config, r *rand.Rand) {
		cfg.Backends = append(cfg.Backends, &proxy.Backend{ServerNames: []string{"dup.v.test"}, Mode: pick(r, proxy.ModeLocal, proxy.ModeConsole), ALPNProtos: pick(r, nil, &[]string{"h2"})}, &proxy.Backend{ServerNames: []string{"dup.v.test"}, Mode: proxy.ModeTLSPassthrough, Addresses: []string{c.u.tcp}})
	})
	add("server names: no protocols", func(cfg *proxy.Config, r *rand.Rand) {
		cfg.Backends = append(cfg.Backends, &proxy.Backend{ServerNames: []string{"dup.v.test"}, Mode: proxy.ModeLocal, ALPNProtos: pick(r, nil, &[]string{}, &[]string{"z"})}, &proxy.Backend{ServerNames: []string{"dup.v.test"}, Mode: proxy.ModeLocal, ALPNProtos: &[]string{}})
	})
	// References.
	add("reference: provider", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, anyBE).SSO = &proxy.BackendSSO{Provider: pick(r, "", "nobody", "OP", "op ")}
	})
	add("reference: passkey", func(cfg *proxy.Config, r *rand.Rand) {
		cfg.PasskeyProviders[0].IdentityProvider = pick(r, "nobody", "pk", "Op")
	})
	add("reference: limit", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, anyBE).BWLimit = pick(r, "nolimit", "Fast", " ")
	})
	add("reference: client CAs", func(cfg *proxy.Config, r *rand.Rand) {
		be := c.find(cfg, r, mode(proxy.ModeTLS, proxy.ModeTCP, proxy.ModeHTTP, proxy.ModeLocal))
		be.ClientAuth = &proxy.ClientAuth{RootCAs: []string{c.e.CA.PEM, "one", pick(r, "two", "", "/nonexistent", "-----BEGIN CERTIFICATE-----\n")}}
	})
	add("reference: server CAs", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, anyBE).ForwardRootCAs = []string{"one", pick(r, "two", "", "/nonexistent", "-----BEGIN CERTIFICATE-----\n")}
	})
	add("reference: override CAs", func(cfg *proxy.Config, r *rand.Rand) {
		be := c.find(cfg, r, func(be *proxy.Backend) bool { return len(be.PathOverrides) > 0 })
		be.PathOverrides[r.Intn(len(be.PathOverrides))].ForwardRootCAs = []string{pick(r, "two", "", "/nonexistent")}
	})
	add("reference: pki endpoint", func(cfg *proxy.Config, r *rand.Rand) {
		cfg.PKI[0].Endpoint = pick(r, "https://nobody.v.test/certs", "https://http.v.test/certs", "https://tcp.v.test/", "/certs", "https://%zz/", "https://[/")
	})
	add("reference: ssh endpoint", func(cfg *proxy.Config, r *rand.Rand) {
		cfg.SSHCertificateAuthorities[0].CertificateEndpoint = pick(r, "https://nobody.v.test/certs", "/certs", "https://%zz/", "https://[/")
	})
	// Ranges and numbers.
	badCIDR := []string{"10.0.0.0/33", "1.2.3.4", "", "10.0.0/8", "a/8", "::1/129", "10.0.0.0/-1", "10.0.0.0/8 ", "10.0.0.1-10.0.0.9", "10.0.0.0/8,11.0.0.0/8", "256.0.0.0/8", "localhost/8", "::/0x10"}
	add("range: allow", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, anyBE).AllowIPs = &[]string{"10.0.0.0/8", pick(r, badCIDR...), "11.0.0.0/8"}
	})
	add("range: deny", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, anyBE).DenyIPs = &[]string{"10.0.0.0/8", pick(r, badCIDR...)}
	})
	add("range: headers", func(cfg *proxy.Config, r *rand.Rand) {
		cfg.AcceptProxyHeaderFrom = append(cfg.AcceptProxyHeaderFrom, pick(r, badCIDR...))
	})
	badRate := []float64{0, -1, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -1e-300}
	add("limit ingress", func(cfg *proxy.Config, r *rand.Rand) {
		cfg.BWLimits[r.Intn(len(cfg.BWLimits))].Ingress = pick(r, badRate...)
	})
	add("limit egress", func(cfg *proxy.Config, r *rand.Rand) {
		cfg.BWLimits[r.Intn(len(cfg.BWLimits))].Egress = pick(r, badRate...)
	})
	add("proxy protocol", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, mode(proxy.ModeTLS, proxy.ModeTCP, proxy.ModeHTTP)).ProxyProtocolVersion = pick(r, "v0", "v3", "v-1", "v", "1", "2", "v1x", "V1", "v127", "v128", "v 1", "vv", " v1", "v1.0")
	})
	add("proxy protocol: override", func(cfg *proxy.Config, r *rand.Rand) {
		be := c.find(cfg, r, func(be *proxy.Backend) bool { return len(be.PathOverrides) > 0 })
		be.PathOverrides[r.Intn(len(be.PathOverrides))].ProxyProtocolVersion = pick(r, "v0", "v3", "v-1", "v", "1", "v99")
	})
	add("rate", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, anyBE).ForwardRateLimit = pick(r, -1, -100000)
	})
	add("max open", func(cfg *proxy.Config, r *rand.Rand) { cfg.MaxOpen = pick(r, -1, -5000) })
	// Missing fields.
	add("missing: server names", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, anyBE).ServerNames = pick(r, nil, []string{})
	})
	add("missing: addresses", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, mode(proxy.ModeTCP, proxy.ModeTLS, proxy.ModeTLSPassthrough, proxy.ModeQUIC, "PLAINTEXT")).Addresses = nil
	})
	add("missing: oidc", func(cfg *proxy.Config, r *rand.Rand) {
		o := cfg.OIDCProviders[0]
		*pick(r, &o.AuthEndpoint, &o.TokenEndpoint, &o.RedirectURL, &o.ClientID, &o.ClientSecret) = ""
	})
	add("missing: saml", func(cfg *proxy.Config, r *rand.Rand) {
		o := cfg.SAMLProviders[0]
		*pick(r, &o.SSOURL, &o.EntityID, &o.Certs, &o.ACSURL) = ""
	})
	add("missing: passkey", func(cfg *proxy.Config, r *rand.Rand) {
		o := cfg.PasskeyProviders[0]
		*pick(r, &o.IdentityProvider, &o.Endpoint) = ""
	})
	add("missing: pki", func(cfg *proxy.Config, r *rand.Rand) { cfg.PKI[0].Name = "" })
	add("missing: ssh", func(cfg *proxy.Config, r *rand.Rand) { cfg.SSHCertificateAuthorities[0].Name = "" })
	local := func(be *proxy.Backend) bool { return be.SSO != nil && be.SSO.LocalOIDCServer != nil }
	add("missing: clients", func(cfg *proxy.Config, r *rand.Rand) {
		cl := c.find(cfg, r, local).SSO.LocalOIDCServer.Clients[0]
		switch r.Intn(3) {
		case 0:
			cl.ID = ""
		case 1:
			cl.Secret = ""
		default:
			cl.RedirectURI = nil
		}
	})
	add("missing: rules", func(cfg *proxy.Config, r *rand.Rand) {
		rr := &proxy.LocalOIDCRewriteRule{InputClaim: "email", OutputClaim: "x", Regex: "^(.*)$", Value: "$1"}
		switch r.Intn(4) {
		case 0:
			rr.InputClaim = ""
		case 1:
			rr.OutputClaim = ""
		case 2:
			rr.Regex = ""
		default:
			rr.Regex = pick(r, "(", "[a", "*", `\8`, "(?<")
		}
		s := c.find(cfg, r, local).SSO.LocalOIDCServer
		s.RewriteRules = append(s.RewriteRules, rr)
	})
	add("missing: paths", func(cfg *proxy.Config, r *rand.Rand) {
		be := c.find(cfg, r, func(be *proxy.Backend) bool { return len(be.PathOverrides) > 0 })
		po := be.PathOverrides[r.Intn(len(be.PathOverrides))]
		po.Paths = pick(r, nil, []string{"/a"}, []string{"a/"}, []string{""}, []string{"/ok/", "/x"})
	})
	// What does not go together.
	add("mode", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, anyBE).Mode = pick(r, "HTTP ", "UDP", "TLS,HTTP", "0", "HTTP2")
	})
	add("override mode", func(cfg *proxy.Config, r *rand.Rand) {
		be := c.find(cfg, r, func(be *proxy.Backend) bool { return len(be.PathOverrides) > 0 })
		be.PathOverrides[r.Intn(len(be.PathOverrides))].Mode = pick(r, "TCP", "TLS", "LOCAL", "CONSOLE", "x")
	})
	add("override where there are no requests", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, mode(proxy.ModeTCP, proxy.ModeTLS, proxy.ModeTLSPassthrough, proxy.ModeLocal, proxy.ModeConsole)).PathOverrides = []*proxy.PathOverride{{Paths: []string{"/x/"}, Addresses: []string{c.u.http}}}
	})
	add("client auth that can't be", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, mode(proxy.ModeTLSPassthrough)).ClientAuth = &proxy.ClientAuth{RootCAs: []string{c.e.CA.PEM}}
	})
	add("client certificate header", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, func(be *proxy.Backend) bool { return be.ClientAuth != nil }).ClientAuth.AddClientCertHeader = []string{"cert", pick(r, "", "x", "cert,hash")}
	})
	add("documents and addresses", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, func(be *proxy.Backend) bool { return len(be.Addresses) > 0 }).DocumentRoot = c.docs
	})
	add("addresses of what is local", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, mode(proxy.ModeLocal, proxy.ModeConsole)).Addresses = []string{c.u.http}
	})
	add("backend protocol", func(cfg *proxy.Config, r *rand.Rand) {
		c.find(cfg, r, mode(proxy.ModeTCP, proxy.ModeTLS, proxy.ModeLocal, proxy.ModeConsole, proxy.ModeTLSPassthrough)).BackendProto = vp.Ptr("h2")
	})
	badDomain := []string{"other.test", "x.login.v.test", "est", "gin.v.test", "ogin.v.test", "v.tes"}
	add("domain: oidc", func(cfg *proxy.Config, r *rand.Rand) { cfg.OIDCProviders[0].Domain = pick(r, badDomain...) })
	add("domain: saml", func(cfg *proxy.Config, r *rand.Rand) { cfg.SAMLProviders[0].Domain = pick(r, badDomain...) })
	add("domain: passkey", func(cfg *proxy.Config, r *rand.Rand) { cfg.PasskeyProviders[0].Domain = pick(r, badDomain...) })
	// Nothing where something is expected.
	put := func(v any, r *rand.Rand) {
		s := reflect.ValueOf(v).Elem()
		i := r.Intn(s.Len() + 1)
		out := reflect.MakeSlice(s.Type(), 0, s.Len()+1)
		out = reflect.AppendSlice(out, s.Slice(0, i))
		out = reflect.Append(out, reflect.Zero(s.Type().Elem()))
		out = reflect.AppendSlice(out, s.Slice(i, s.Len()))
		s.Set(out)
	}
	for name, f := range map[string]func(cfg *proxy.Config, r *rand.Rand) any{
		"backends": func(cfg *proxy.Config, r *rand.Rand) any { return &cfg.Backends },
		"oidc":     func(cfg *proxy.Config, r *rand.Rand) any { return &cfg.OIDCProviders },
		"saml":     func(cfg *proxy.Config, r *rand.Rand) any { return &cfg.SAMLProviders },
		"passkey":  func(cfg *proxy.Config, r *rand.Rand) any { return &cfg.PasskeyProviders },
		"pki":      func(cfg *proxy.Config, r *rand.Rand) any { return &cfg.PKI },
		"ssh":      func(cfg *proxy.Config, r *rand.Rand) any { return &cfg.SSHCertificateAuthorities },
		"limits":   func(cfg *proxy.Config, r *rand.Rand) any { return &cfg.BWLimits },
		"websockets": func(cfg *proxy.Config, r *rand.Rand) any {
			return &cfg.WebSockets
		},
		"certificates": func(cfg *proxy.Config, r *rand.Rand) any { return &cfg.TLSCertificates },
		"overrides": func(cfg *proxy.Config, r *rand.Rand) any {
			return &c.find(cfg, r, mode(proxy.ModeHTTP, proxy.ModeHTTPS)).PathOverrides
		},
		"clients": func(cfg *proxy.Config, r *rand.Rand) any { return &c.find(cfg, r, local).SSO.LocalOIDCServer.Clients },
		"rules": func(cfg *proxy.Config, r *rand.Rand) any {
			return &c.find(cfg, r, local).SSO.LocalOIDCServer.RewriteRules
		},
	} {
		add("null: "+name, func(cfg *proxy.Config, r *rand.Rand) { put(f(cfg, r), r) })
	}
	return out
}

// keepAlive is an HTTP connection that is used again and again.
type keepAlive struct {
	c  *tls.Conn
	br *bufio.Reader
}

func (c *conf30) open(sni string) *keepAlive {
	conn, err := c.p.Dial(sni, vp.ClientOpt{Protos: []string{"http/1.1"}})
	if err != nil {
		return nil
	}
	k := &keepAlive{c: conn, br: bufio.NewReader(conn)}
	if !k.use(sni) {
		conn.Close()
		return nil
	}
	return k
}

func (k *keepAlive) use(sni string) bool {
	k.c.SetDeadline(time.Now().Add(promptly))
	if _, err := fmt.Fprintf(k.c, "GET /ping HTTP/1.1\r\nHost: %s\r\n\r\n", sni); err != nil {
		return false
	}
	resp, err := http.ReadResponse(k.br, nil)
	if err != nil {
		return false
	}
	io.Copy(io.Discard, resp.Body)
	return true
}

// probes sends something to a few backends of cfg, to see what happens. Nothing
// is expected from the answers.
func (c *conf30) probes(r *rand.Rand, cfg *proxy.Config) {
	var wg sync.WaitGroup
	for range 3 {
		if len(cfg.Backends) == 0 {
			return
		}
		be := cfg.Backends[r.Intn(len(cfg.Backends))]
		if len(be.ServerNames) == 0 {
			continue
		}
		sni := be.ServerNames[r.Intn(len(be.ServerNames))]
		path := pick(r, "/", "/.sso/", "/s/x", "/docs/index.html", "/jwks", "/certs", "/ca.pem", "/favicon.ico", "/authorization", "/.well-known/openid-configuration")
		wg.Add(1)
		go func() {
			defer wg.Done()
			raw, err := net.Dial("tcp", c.p.Addr)
			if err != nil {
				return
			}
			defer raw.Close()
			raw.SetDeadline(time.Now().Add(500 * time.Millisecond))
			conn := tls.Client(raw, &tls.Config{ServerName: sni, InsecureSkipVerify: true, NextProtos: []string{"http/1.1"}})
			if conn.Handshake() != nil {
				c.run.Count("probes refused", 1)
				return
			}
			fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", path, sni)
			if resp, err := http.ReadResponse(bufio.NewReader(conn), nil); err == nil {
				io.Copy(io.Discard, resp.Body)
				c.run.Count("probes answered", 1)
			}
		}()
	}
	wg.Wait()
}

func newConf30(t *testing.T, run *vh.Run) *conf30 {
	c := &conf30{everything: newEverything(t, run)}
	t.Setenv("XDG_CACHE_HOME", filepath.Join(c.e.Dir, "user-cache"))
	t.Setenv("HOME", c.e.Dir)
	c.p = c.e.Start(c.config(0))
	return c
}

// TestP30 : configurations that contradict themselves are refused by everything
// that takes a configuration, and those that don't aren't.
func TestP30(t *testing.T) {
	run := vh.New(t, "a case is a configuration; distinct by what is wrong with it and its seed. Valid ones must be accepted, contradictory ones refused by ReadConfig, Check and Reconfigure, without any effect on the running proxy")
	c := newConf30(t, run)
	cs := c.contradictions()
	for i := range vh.N(8, 60) {
		r := vh.Rand("P30/valid", i)
		cfg := c.valid(r)
		run.Eval(true, "valid", i)
		if rc, err, p := c.read(text(cfg)); p != "" {
			run.Violate("panic valid", p, "reading a valid configuration panics: %s", vh.Trunc(p, 600))
		} else if err != nil {
			run.Violate("valid refused", nil, "a valid configuration is refused: %v\n%s", err, text(cfg))
		} else if i%2 == 0 {
			cfg = rc
		}
		if err, p := guard(func() error { return c.p.Reconfigure(cfg) }); p != "" || err != nil {
			run.Violate("valid not loaded", p, "a valid configuration can't be loaded: %v %s", err, vh.Trunc(p, 600))
			continue
		}
		run.Count("valid configurations loaded", 1)
		ka := c.open("docs.v.test")
		if ka == nil {
			run.Violate("valid not served", i, "nothing is served with a valid configuration")
			continue
		}
		for j, k := range cs {
			r := vh.Rand("P30/"+k.name, i)
			bad := copyOf(c.valid(r))
			k.do(bad, r)
			txt := text(bad)
			run.Eval(true, k.name, i)
			_, err, p := c.read(txt)
			if p != "" {
				run.Violate("panic read "+k.name, p, "ReadConfig panics (%s): %s", k.name, vh.Trunc(p, 600))
			} else if err == nil {
				run.Violate("accepted read "+k.name, string(txt), "ReadConfig accepts a configuration where this is wrong: %s", k.name)
			}
			if err, p := guard(copyOf(bad).Check); p != "" {
				run.Violate("panic check "+k.name, p, "Check panics (%s): %s", k.name, vh.Trunc(p, 600))
			} else if err == nil {
				run.Violate("accepted check "+k.name, string(txt), "Check accepts a configuration where this is wrong: %s", k.name)
			}
			if err, p := guard(func() error { return c.p.Reconfigure(bad) }); p != "" {
				run.Violate("panic load "+k.name, p, "Reconfigure panics (%s): %s", k.name, vh.Trunc(p, 600))
				t.Skip() // The proxy's locks may be held.
			} else if err == nil {
				run.Violate("accepted load "+k.name, string(txt), "Reconfigure accepts a configuration where this is wrong: %s", k.name)
				c.p.Reconfigure(cfg)
			} else {
				run.Count("contradictions refused", 1)
			}
			if j%8 == 0 || j == len(cs)-1 {
				if !ka.use("docs.v.test") {
					run.Violate("refused but "+k.name, string(txt), "a connection did not survive the loading of configurations that were refused, the last one for: %s", k.name)
					break
				}
			}
		}
		ka.c.Close()
	}
	for _, p := range vp.Log.TakePanics() {
		run.Violate("panic", p, "panic: %s", vh.Trunc(p, 300))
	}
	c.p.End()
	run.NeedAtLeast("contradictions refused", 100)
}

var badScalars = []string{"", "null", "~", "-1", "0", "1", "99999999999999999999", ".nan", ".inf", "true", "x", "://", "https://", "https:///x", "https://login.v.test", "/", "//", "*", "é", "xn--", "127.0.0.1:1", "10.0.0.0/8", "1h", "-1h", "9999999h", "0x10", "\x00", "\u2028", "h2", "h3", "quic", "LOCAL", "CONSOLE", "HTTP", "HTTPS", "TLS", "QUIC", "TLSPASSTHROUGH", "v1", "v2", "one", "op", "pk", "saml", "/.sso/", "/a/", "${REMOTE_ADDR}", "${", "\r\n", ".", "..", "http://127.0.0.1:1/", "unix:/x", "ecdsa-p256", "ed25519", "none"}

// Fields that a configuration may have, by their kind of value.
var fields30 = []string{"httpAddr", "enableQUIC", "defaultServerName", "email", "maxOpen", "discoveryUrl", "scopes", "hostedDomain", "userinfoEndpoint", "domain", "refreshInterval", "keyType", "forceReAuth", "acl", "paths", "setUserIdHeader", "generateIdTokens", "pathPrefix", "rewriteRules", "exportJwks", "backendProto", "mode", "documentRoot", "bwLimit", "insecureSkipVerify", "forwardRateLimit", "forwardServerName", "forwardRootCAs", "forwardTimeout", "forwardHttpHeaders", "pathOverrides", "proxyProtocolVersion", "sanitizePath", "serverCloseEndsConnection", "clientCloseEndsConnection", "halfCloseTimeout", "alpnProtos", "allowIPs", "denyIPs", "clientAuth", "sso", "unknown", "revokeUnusedCertificates"}

func badNode(r *rand.Rand) *yaml.Node {
	scalar := func() *yaml.Node {
		n := &yaml.Node{Kind: yaml.ScalarNode, Value: pick(r, badScalars...)}
		if r.Intn(3) == 0 {
			n.Tag = "!!str"
			n.Style = yaml.DoubleQuotedStyle
		}
		return n
	}
	switch r.Intn(10) {
	case 0:
		return &yaml.Node{Kind: yaml.SequenceNode}
	case 1:
		return &yaml.Node{Kind: yaml.MappingNode}
	case 2:
		return &yaml.Node{Kind: yaml.SequenceNode, Content: []*yaml.Node{scalar(), scalar()}}
	case 3:
		return &yaml.Node{Kind: yaml.MappingNode, Content: []*yaml.Node{scalar(), scalar()}}
	default:
		return scalar()
	}
}

// mutate changes something in a document.
func mutate(r *rand.Rand, root *yaml.Node) {
	var all []*yaml.Node
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		if n.Kind != yaml.ScalarNode {
			all = append(all, n)
		}
		for _, c := range n.Content {
			walk(c)
		}
	}
	walk(root.Content[0])
	n := all[r.Intn(len(all))]
	if len(n.Content) == 0 {
		n.Content = append(n.Content, badNode(r))
		if n.Kind == yaml.MappingNode {
			n.Content = append(n.Content, badNode(r))
		}
		return
	}
	switch n.Kind {
	case yaml.MappingNode:
		i := r.Intn(len(n.Content)/2) * 2
		if n.Content[i].Value == "cacheDir" || n.Content[i].Value == "tlsAddr" {
			return
		}
		switch r.Intn(8) {
		case 0:
			n.Content = append(n.Content[:i], n.Content[i+2:]...)
		case 1:
			n.Content[i] = &yaml.Node{Kind: yaml.ScalarNode, Value: pick(r, fields30...)}
		case 2, 3:
			n.Content = append(n.Content, &yaml.Node{Kind: yaml.ScalarNode, Value: pick(r, fields30...)}, badNode(r))
		case 4:
			j := r.Intn(len(n.Content)/2) * 2
			if n.Content[j].Value != "cacheDir" && n.Content[j].Value != "tlsAddr" {
				n.Content[i+1], n.Content[j+1] = n.Content[j+1], n.Content[i+1]
			}
		default:
			n.Content[i+1] = badNode(r)
		}
	case yaml.SequenceNode:
		i := r.Intn(len(n.Content))
		switch r.Intn(5) {
		case 0:
			n.Content = append(n.Content[:i], n.Content[i+1:]...)
		case 1:
			n.Content = append(n.Content, n.Content[i])
		case 2:
			n.Content = append(n.Content, badNode(r))
		case 3:
			j := r.Intn(len(n.Content))
			n.Content[i], n.Content[j] = n.Content[j], n.Content[i]
		default:
			n.Content[i] = badNode(r)
		}
	}
}

// TestP30Text : any text.
func TestP30Text(t *testing.T) {
	run := vh.New(t, "a case is a configuration text, a valid one with random changes to its structure or bytes; distinct by seed. ReadConfig must return; what it accepts is loaded in a running proxy and used")
	c := newConf30(t, run)
	for i, s := range []string{"", "\n", "---\n", "null", "[]", "x", "{", "a: &a [*a]", "backends: &a [*a]", strings.Repeat("[", 100000), strings.Repeat("a: ", 5) + "b", "&a [*a,*a]", "\xff\xfe", "%YAML 9.9\n---\n",
		"definitions: {a: &a [x,x,x,x,x,x,x,x,x], b: &b [*a,*a,*a,*a,*a,*a,*a,*a], c: &c [*b,*b,*b,*b,*b,*b,*b,*b], d: &d [*c,*c,*c,*c,*c,*c,*c], e: &e [*d,*d,*d,*d,*d,*d,*d,*d], f: &f [*e,*e,*e,*e,*e,*e,*e]}\nbackends: [{serverNames: *f}]",
		"tlsAddr: !!binary x", "tlsAddr: !!float 1", "<<: x", "<<: [1]", "? [a]\n: b", "backends: [{<<: {mode: LOCAL}, serverNames: [x]}]"} {
		_, err, p := c.read([]byte(fmt.Sprintf("cacheDir: %q\n", c.cache) + s))
		run.Eval(true, "fixed", i)
		if p != "" {
			run.Violate("panic read", s, "ReadConfig panics: %s", vh.Trunc(p, 800))
		}
		_ = err
	}
	n := vh.N(2500, 60000)
	for i := range n {
		r := vh.Rand("P30/text", i)
		src := text(c.valid(r))
		var txt []byte
		if r.Intn(3) > 0 {
			var root yaml.Node
			if err := yaml.Unmarshal(src, &root); err != nil {
				t.Fatal(err)
			}
			for range 1 + r.Intn(3) {
				mutate(r, &root)
			}
			if err, p := guard(func() (err error) { txt, err = yaml.Marshal(&root); return }); err != nil || p != "" {
				continue
			}
		} else {
			head := bytes.IndexByte(src, '\n') + 1
			b := src[head:]
			for range 1 + r.Intn(3) {
				at := r.Intn(len(b))
				end := min(len(b), at+r.Intn(20))
				ins := pick(r, "", "", "\n", "\n- ", " ", ": ", "- ", "null", "'", "\"", "{", "[", "}", "]", "#", "&a ", "*a", "|", ">", "!!str ", "<<: *a", "\t", "\x00", "\xff", "0", "-")
				switch r.Intn(3) {
				case 0:
					end = at
				case 1:
					ins = string(b[at:end]) + ins + string(b[at:end])
				}
				b = []byte(string(b[:at]) + ins + string(b[end:]))
				if len(b) == 0 {
					b = []byte("\n")
				}
			}
			txt = append(src[:head:head], b...)
		}
		cfg, err, p := c.read(txt)
		run.Eval(true, "text", i)
		if p != "" {
			run.Violate("panic read", string(txt), "ReadConfig panics: %s", vh.Trunc(p, 800))
			continue
		}
		if err != nil {
			run.Count("texts refused", 1)
			continue
		}
		run.Count("texts accepted", 1)
		// What it means does not depend on how often it was read.
		once := text(cfg)
		if again, err, p := c.read(once); p != "" || err != nil {
			run.Violate("reread", string(txt), "what ReadConfig returned is refused when it is read again: %v %s", err, vh.Trunc(p, 400))
		} else if twice := text(again); !bytes.Equal(once, twice) {
			run.Violate("reread differs", string(txt), "what ReadConfig returned changes when it is read again:\n%s\n%s", once, twice)
		}
		if !strings.HasPrefix(cfg.CacheDir, c.cache) || cfg.HTTPAddr != "" && i%4 > 0 {
			continue
		}
		cfg.CacheDir = c.cache
		start := time.Now()
		err, p = guard(func() error { return c.p.Reconfigure(cfg) })
		if p != "" {
			run.Violate("panic load", string(txt), "loading what ReadConfig accepted panics: %s", vh.Trunc(p, 800))
			break
		}
		if d := time.Since(start); d > promptly {
			run.Sample(map[string]any{"slow": d.String(), "err": fmt.Sprint(err)})
		}
		if err != nil {
			run.Count("texts not loaded: "+vh.Trunc(err.Error(), 12), 1)
			continue
		}
		run.Count("texts loaded", 1)
		c.probes(r, cfg)
		for _, p := range vp.Log.TakePanics() {
			run.Violate("panic", string(txt), "a request with an accepted configuration panics: %s", vh.Trunc(p, 400))
		}
	}
	if err := c.p.Reconfigure(c.config(1)); err != nil {
		run.Violate("valid not loaded", nil, "after all this a valid configuration can't be loaded: %v", err)
	} else if c.open("docs.v.test") == nil {
		run.Violate("valid not served", nil, "after all this a valid configuration is not served")
	}
	c.p.End()
	run.NeedAtLeast("texts refused", 100)
	run.NeedAtLeast("texts loaded", 100)
}

// scribble changes everything that can be reached from v.
func scribble(v reflect.Value) int {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			return scribble(v.Elem())
		}
	case reflect.Struct:
		n := 0
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				n += scribble(v.Field(i))
			}
		}
		return n
	case reflect.Slice:
		n := 0
		for i := range v.Len() {
			n += scribble(v.Index(i))
		}
		return n
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.ValueOf("scribble").Convert(v.Type().Elem()))
		}
		return v.Len()
	}
	if !v.CanSet() {
		return 0
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString("scribble")
	case reflect.Int, reflect.Int64:
		v.SetInt(1)
	case reflect.Float64:
		v.SetFloat(1)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	default:
		return 0
	}
	return 1
}

var ka30 = []string{"docs.v.test", "http.v.test", "over.v.test", "console.v.test"}

// TestP30Same : what is loaded again changes nothing, and the caller keeps its
// copy.
func TestP30Same(t *testing.T) {
	run := vh.New(t, "a case is the loading of a configuration that is loaded already, or a change of the caller's copy of it; distinct by seed and step. Connections in use must survive, and the proxy's behavior must not change")
	c := newConf30(t, run)
	p0 := c.p
	for i := range vh.N(12, 150) {
		r := vh.Rand("P30/same", i)
		cfg := c.valid(r)
		cfg.Email = fmt.Sprintf("%d@v.test", i) // different from the others.
		for _, be := range cfg.Backends {
			be.AllowIPs, be.DenyIPs, be.ProxyProtocolVersion = nil, nil, ""
		}
		txt := text(cfg)
		raw := cfg
		if r.Intn(2) == 0 {
			if err := cfg.Check(); err != nil {
				t.Fatal(err)
			}
			run.Count("checked by the caller", 1)
		}
		if r.Intn(4) == 0 {
			// From the start.
			n, err := c.e.TryStart(cfg)
			if err != nil {
				run.Violate("valid not loaded", string(txt), "a valid configuration can't be used: %v", err)
				continue
			}
			c.p = n
			run.Count("new proxies", 1)
		} else if err := c.p.Reconfigure(cfg); err != nil {
			run.Violate("valid not loaded", string(txt), "a valid configuration can't be loaded: %v", err)
			continue
		}
		kas := map[string]*keepAlive{}
		for _, sni := range ka30 {
			if kas[sni] = c.open(sni); kas[sni] == nil {
				run.Violate("not served", string(txt), "%s is not served", sni)
			}
		}
		alive := func(what string) {
			for _, sni := range ka30 {
				if k := kas[sni]; k != nil && !k.use(sni) {
					run.Violate("same: "+what, string(txt), "an HTTP connection to %s did not survive: %s", sni, what)
					k.c.Close()
					if kas[sni] = c.open(sni); kas[sni] == nil {
						run.Violate("not served after: "+what, string(txt), "%s is not served anymore: %s", sni, what)
					}
				}
			}
			run.Eval(true, i, what)
			run.Count(what, 1)
		}
		reload := func(what string, cfg *proxy.Config) {
			if err := c.p.Reconfigure(cfg); err != nil {
				run.Violate("same refused: "+what, string(txt), "a configuration that is loaded is refused the second time (%s): %v", what, err)
			}
			alive(what)
		}
		again := func() {
			switch r.Intn(3) {
			case 0:
				var cp proxy.Config
				if err := yaml.Unmarshal(txt, &cp); err != nil {
					t.Fatal(err)
				}
				reload("same structure loaded", &cp)
			case 1:
				if rc, err, _ := c.read(txt); err == nil {
					reload("same text loaded", rc)
				}
			default:
				var cp proxy.Config
				if err := yaml.Unmarshal(txt, &cp); err != nil {
					t.Fatal(err)
				}
				cp.Check()
				cp.Check()
				reload("same structure checked and loaded", &cp)
			}
		}
		if r.Intn(2) == 0 {
			reload("same copy loaded", raw)
		}
		again()
		if scribble(reflect.ValueOf(raw)) < 50 {
			t.Fatal("nothing to scribble on")
		}
		alive("caller's copy changed")
		for _, sni := range ka30 {
			k := c.open(sni)
			if k == nil {
				run.Violate("copy", string(txt), "after the caller changed its copy of the configuration, %s is not served", sni)
				continue
			}
			k.c.Close()
		}
		again()
		// Not what it was before.
		other := c.valid(r)
		other.Email = "x"
		for _, be := range other.Backends {
			be.ALPNProtos = nil
			be.AllowIPs, be.DenyIPs = nil, nil
		}
		if err := c.p.Reconfigure(other); err != nil {
			run.Violate("other", nil, "another configuration can't be loaded: %v", err)
		}
		if conn, err := c.p.Dial("console.v.test", vp.ClientOpt{Protos: []string{"h2"}}); err != nil {
			run.Violate("defaults", nil, "the default protocols are different after a caller changed its copy of a configuration: %v", err)
		} else {
			conn.Close()
		}
		for sni, k := range kas {
			if k != nil {
				if !k.use(sni) {
					run.Count("connections closed by another configuration", 1)
				}
				k.c.Close()
			}
		}
		if c.p != p0 {
			c.p.End()
			c.p = p0
		}
	}
	c.p.End()
	run.NeedAtLeast("caller's copy changed", 5)
}

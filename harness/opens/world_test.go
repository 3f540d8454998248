package opens

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net/http"
	"net/url"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/crypto/ocsp"
	"golang.org/x/crypto/ssh"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// everything is a proxy with every feature in use.
type everything struct {
	t      testing.TB
	run    *vh.Run
	e      *vp.Env
	u      *ups
	idp    *vp.IDP
	p      *vp.P
	hdrIP  string // may send proxy headers
	denied string
	docs   string
	cache  string
	saml   string // the certificate of the SAML provider

	mu    sync.Mutex
	ca    *x509.Certificate
	certs []tls.Certificate // issued by the PKI
}

func selfSigned(cn string) string {
	k, _ := rsa.GenerateKey(crand.Reader, 2048)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour)}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, k.Public(), k)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
}

func newEverything(t testing.TB, run *vh.Run) *everything {
	w := &everything{t: t, run: run, e: vp.NewEnv(t), idp: vp.NewIDP(t), hdrIP: vp.IP(), denied: vp.IP(), saml: selfSigned("saml idp")}
	w.u = newUps(t, w.e)
	w.cache = filepath.Join(w.e.Dir, "the-cache")
	w.docs = filepath.Join(w.e.Dir, "docs")
	vh.MustWrite(t, filepath.Join(w.docs, "index.html"), []byte("hello"))
	vh.MustWrite(t, filepath.Join(w.docs, "sub/file.txt"), bytes.Repeat([]byte("file "), 1000))
	return w
}

// config is the configuration of version v.
func (w *everything) config(v int) *proxy.Config {
	cfg := config(w.e, w.u, w.denied)
	cfg.CacheDir = w.cache
	all := &[]string{"h2", "http/1.1", "h3"}
	rest := &[]string{"h2", "http/1.1"}
	on := func(k int) bool { return v>>k&1 == 1 }
	cfg.Backends = append(cfg.Backends,
		&proxy.Backend{ServerNames: []string{"console.v.test"}, Mode: proxy.ModeConsole, ALPNProtos: all},
		&proxy.Backend{ServerNames: []string{"login.v.test"}, Mode: proxy.ModeLocal, ALPNProtos: rest, ExportJWKS: "/jwks", SSO: &proxy.BackendSSO{Provider: "op", Paths: []string{"/none"}}},
		&proxy.Backend{ServerNames: []string{"sso.v.test"}, Mode: proxy.ModeHTTP, ALPNProtos: all, Addresses: []string{w.u.http}, SSO: &proxy.BackendSSO{Provider: "op", GenerateIDTokens: true, SetUserIDHeader: true, ForceReAuth: time.Hour}},
		&proxy.Backend{ServerNames: []string{"pk.v.test"}, Mode: proxy.ModeHTTP, ALPNProtos: rest, Addresses: []string{w.u.http}, SSO: &proxy.BackendSSO{Provider: "pk"}},
		&proxy.Backend{ServerNames: []string{"samlsso.v.test"}, Mode: proxy.ModeHTTP, ALPNProtos: rest, Addresses: []string{w.u.http}, SSO: &proxy.BackendSSO{Provider: "saml"}},
		&proxy.Backend{ServerNames: []string{"pki.v.test"}, Mode: proxy.ModeLocal, ALPNProtos: all, SSO: &proxy.BackendSSO{Provider: "op"}},
		&proxy.Backend{ServerNames: []string{"ssh.v.test"}, Mode: proxy.ModeLocal, ALPNProtos: rest, SSO: &proxy.BackendSSO{Provider: "op", ACL: &[]string{"@v.test"}}},
		&proxy.Backend{ServerNames: []string{"open.v.test"}, Mode: proxy.ModeLocal, ALPNProtos: all},
		&proxy.Backend{ServerNames: []string{"docs.v.test"}, Mode: proxy.ModeLocal, ALPNProtos: all, DocumentRoot: w.docs},
		&proxy.Backend{ServerNames: []string{"o.v.test"}, Mode: proxy.ModeLocal, ALPNProtos: rest, SSO: &proxy.BackendSSO{Provider: "op", LocalOIDCServer: &proxy.LocalOIDCServer{
			Clients: []*proxy.LocalOIDCClient{{ID: "client", Secret: "s3cret", RedirectURI: []string{"https://rp.example/cb"}}}}}},
		&proxy.Backend{ServerNames: []string{"mtls.v.test"}, Mode: proxy.ModeHTTPS, ALPNProtos: all, Addresses: []string{w.u.https}, ForwardServerName: "up.v.test", ForwardRootCAs: []string{w.e.CA.PEM},
			ClientAuth: &proxy.ClientAuth{RootCAs: []string{"one", w.e.CA.PEM}, AddClientCertHeader: []string{"cert", "chain", "subject", "uri", "dns", "hash"}}},
		&proxy.Backend{ServerNames: []string{"mtcp.v.test"}, Mode: proxy.ModeTCP, Addresses: []string{w.u.tcp}, ClientAuth: &proxy.ClientAuth{RootCAs: []string{"one", w.e.CA.PEM}}},
		&proxy.Backend{ServerNames: []string{"over.v.test"}, Mode: proxy.ModeHTTP, ALPNProtos: all, Addresses: []string{w.u.http, w.u.http}, ForwardHTTPHeaders: map[string]string{"X-A": "${NETWORK} ${REMOTE_ADDR}"},
			PathOverrides: []*proxy.PathOverride{{Paths: []string{"/s/"}, Mode: proxy.ModeHTTPS, Addresses: []string{w.u.https}, ForwardServerName: "up.v.test", ForwardRootCAs: []string{w.e.CA.PEM}}, {Paths: []string{"/docs/"}, DocumentRoot: w.docs}}},
	)
	cfg.OIDCProviders = []*proxy.ConfigOIDC{w.idp.Config("op", "login.v.test", "v.test")}
	cfg.PasskeyProviders = []*proxy.ConfigPasskey{{Name: "pk", IdentityProvider: "op", Endpoint: "https://login.v.test/passkey", Domain: "v.test"}}
	cfg.SAMLProviders = []*proxy.ConfigSAML{{Name: "saml", SSOURL: "https://saml.v.test/sso", EntityID: "https://saml.v.test/", Certs: w.saml, ACSURL: "https://login.v.test/acs", Domain: "v.test"}}
	cfg.PKI = []*proxy.ConfigPKI{{Name: "one", Endpoint: "https://pki.v.test/certs", KeyType: "ecdsa-p256", IssuingCertificateURLs: []string{"https://open.v.test/ca.pem"}, OCSPServer: []string{"https://open.v.test/ocsp"}, CRLDistributionPoints: []string{"https://open.v.test/crl"}, Admins: []string{"admin@v.test"}}}
	cfg.SSHCertificateAuthorities = []*proxy.ConfigSSHCertificateAuthority{{Name: "one", KeyType: "ed25519", PublicKeyEndpoint: "https://open.v.test/sshca", CertificateEndpoint: "https://ssh.v.test/cert"}}
	cfg.WebSockets = append(cfg.WebSockets, &proxy.WebSocketConfig{Endpoint: "wss://open.v.test/ws", Address: w.u.tcp})
	cfg.AcceptProxyHeaderFrom = []string{w.hdrIP + "/32"}
	cfg.BWLimits = append(cfg.BWLimits, &proxy.BWLimit{Name: "fast", Ingress: 1e9, Egress: 1e9})
	// What changes between versions.
	if on(0) {
		cfg.Backends = append(cfg.Backends, &proxy.Backend{ServerNames: []string{"extra.v.test"}, Mode: proxy.ModeLocal})
	}
	if on(1) {
		cfg.Backends[3].BWLimit, cfg.Backends[0].BWLimit = "fast", "fast"
	}
	if on(2) {
		cfg.PKI[0].Admins = []string{"admin@v.test", "boss@v.test"}
		cfg.MaxOpen = 5000
	}
	if on(3) {
		cfg.BWLimits[1].Ingress = 2e9
		cfg.LogFilter.Errors = vp.Ptr(false)
		cfg.DefaultServerName = "docs.v.test"
	}
	if on(4) {
		cfg.Backends[0].AllowIPs = &[]string{"127.0.0.0/8"}
	}
	for _, be := range cfg.Backends {
		if be.ForwardRateLimit == 0 {
			be.ForwardRateLimit = 100000
		}
	}
	return cfg
}

var users = []string{"alice@v.test", "bob@v.test", "admin@v.test"}

// browser is a logged in client.
func (w *everything) browser(r *rand.Rand, at string) *vp.Browser {
	b := w.p.Browser(vp.ClientOpt{Protos: [][]string{nil, {"h2"}}[r.Intn(2)]})
	b.Timeout = promptly
	if _, err := b.Login(w.idp, at, users[r.Intn(len(users))]); err == nil {
		w.run.Count("logins", 1)
	}
	return b
}

var csrfHeader = http.Header{"X-Csrf-Check": {"1"}, "Content-Type": {"application/x-www-form-urlencoded"}}

// csr makes a certificate request and its key.
func csr(r *rand.Rand) ([]byte, any) {
	var k any
	switch r.Intn(3) {
	case 0:
		_, kk, _ := ed25519.GenerateKey(crand.Reader)
		k = kk
	default:
		kk, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		k = kk
	}
	der, err := x509.CreateCertificateRequest(crand.Reader, &x509.CertificateRequest{Subject: pkix.Name{CommonName: "someone"}, EmailAddresses: []string{"someone@v.test"}}, k)
	if err != nil {
		panic(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: der}), k
}

// authority returns the certificate of the PKI.
func (w *everything) authority() *x509.Certificate {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.ca == nil {
		if res, err := w.p.Browser(vp.ClientOpt{}).Get("https://open.v.test/ca.pem"); err == nil {
			if b, _ := pem.Decode([]byte(res.Text)); b != nil {
				w.ca, _ = x509.ParseCertificate(b.Bytes)
			}
		}
	}
	return w.ca
}

// issue gets a certificate from the PKI.
func (w *everything) issue(r *rand.Rand, b *vp.Browser) (*tls.Certificate, error) {
	req, k := csr(r)
	res, err := b.Do("POST", "https://pki.v.test/certs?get=requestCert", bytes.NewReader(req), http.Header{"X-Csrf-Check": {"1"}, "Content-Type": {"application/x-pem-file"}})
	if err != nil {
		return nil, err
	}
	i := strings.Index(res.Text, "-----BEGIN CERTIFICATE")
	if i < 0 {
		return nil, fmt.Errorf("no certificate: %d %.200s", res.StatusCode, res.Text)
	}
	txt := strings.ReplaceAll(res.Text[i:], `\n`, "\n")
	bl, _ := pem.Decode([]byte(txt))
	if bl == nil {
		return nil, fmt.Errorf("bad certificate %.300s", res.Text)
	}
	c := &tls.Certificate{Certificate: [][]byte{bl.Bytes}, PrivateKey: k}
	w.run.Count("certificates", 1)
	w.mu.Lock()
	w.certs = append(w.certs, *c)
	w.mu.Unlock()
	return c, nil
}

func (w *everything) someCert(r *rand.Rand) []tls.Certificate {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.certs) == 0 || r.Intn(4) == 0 {
		return []tls.Certificate{w.e.CA.Issue(vp.CN("x"), vp.Email("x@v.test"))}
	}
	return []tls.Certificate{w.certs[r.Intn(len(w.certs))]}
}

func serial(c []byte) string {
	x, err := x509.ParseCertificate(c)
	if err != nil {
		return "00"
	}
	var parts []string
	for _, b := range x.SerialNumber.Bytes() {
		parts = append(parts, fmt.Sprintf("%02x", b))
	}
	return strings.Join(parts, ":")
}

var sshPub = func() string {
	pub, _, _ := ed25519.GenerateKey(crand.Reader)
	k, _ := ssh.NewPublicKey(pub)
	return string(ssh.MarshalAuthorizedKey(k))
}()

var nonceRE = regexp.MustCompile(`"(ey[A-Za-z0-9._-]{40,})"|&#34;(ey[A-Za-z0-9._-]{40,})&#34;`)

// op does one well-formed operation. It returns what it did.
func (w *everything) op(r *rand.Rand, which int) (what string, err error) {
	p := w.p
	status := func(res *vp.Result, e error, want ...int) {
		if err = e; err == nil && len(want) > 0 {
			for _, x := range want {
				if res.StatusCode == x {
					return
				}
			}
			err = fmt.Errorf("status %d %.200s", res.StatusCode, res.Text)
		}
	}
	switch which % 14 {
	case 0, 1, 2:
		k := heldKinds[r.Intn(len(heldKinds))]
		h, e := establish(p, k)
		if err = e; err == nil {
			for range r.Intn(4) {
				if err = h.alive(); err != nil {
					break
				}
			}
			h.close(r)
		}
		return "connection " + k, err
	case 3, 4:
		var c *http.Client
		clean := func() {}
		kind := r.Intn(3)
		switch kind {
		case 0:
			c = p.HTTPClient(vp.ClientOpt{})
		case 1:
			c = p.HTTPClient(vp.ClientOpt{Protos: []string{"h2"}})
		case 2:
			c, clean = p.H3Client(vp.ClientOpt{})
		}
		c.Timeout = promptly
		defer clean()
		defer closeIdle(c)
		var wg sync.WaitGroup
		var mu sync.Mutex
		for i := range 1 + r.Intn(6) {
			host := []string{"http", "https", "docs", "over", "open"}[r.Intn(5)]
			path := []string{"/slow?size=2000&ms=20", "/", "/s/slow?size=20", "/docs/sub/file.txt"}[r.Intn(4)]
			wg.Add(1)
			go func() {
				defer wg.Done()
				var resp *http.Response
				var e error
				if i%2 == 0 {
					resp, e = c.Get("https://" + host + ".v.test" + path)
				} else {
					resp, e = c.Post("https://"+host+".v.test/slow", "x/y", strings.NewReader(strings.Repeat("a", 20000)))
				}
				if e == nil {
					_, e = io.Copy(io.Discard, resp.Body)
					resp.Body.Close()
				}
				mu.Lock()
				defer mu.Unlock()
				if e != nil && !strings.Contains(e.Error(), "broken pipe") && !strings.Contains(e.Error(), "reset") {
					err = e
				}
			}()
		}
		wg.Wait()
		return fmt.Sprint("requests h", kind+1), err
	case 5:
		b := p.Browser(vp.ClientOpt{Protos: [][]string{nil, {"h2"}}[r.Intn(2)]})
		b.Timeout = promptly
		for _, path := range []string{"/", "/favicon.ico", "/"} {
			res, e := b.Get("https://console.v.test" + path)
			status(res, e, 200)
		}
		closeIdle(b.Client)
		return "console", err
	case 6:
		b := w.browser(r, "https://sso.v.test/slow?size=20")
		defer closeIdle(b.Client)
		res, e := b.Get("https://sso.v.test/slow?size=20")
		for n := 0; n < 3 && e == nil && res.StatusCode/100 == 3 && res.Loc().Host == "sso.v.test"; n++ {
			// For the ID token.
			res, e = b.Get(res.Loc().String())
		}
		status(res, e, 200)
		if r.Intn(2) == 0 {
			b.Get("https://sso.v.test/.sso/")
			b.Get("https://sso.v.test/.sso/logout")
		}
		return "sso", err
	case 7:
		b := w.browser(r, "https://pki.v.test/certs")
		defer closeIdle(b.Client)
		var c *tls.Certificate
		if c, err = w.issue(r, b); err == nil {
			b.Get("https://pki.v.test/certs?get=downloadCert&sn=" + url.QueryEscape(serial(c.Certificate[0])))
			if r.Intn(3) > 0 {
				b.Do("POST", "https://pki.v.test/certs?get=revokeCert", strings.NewReader(url.Values{"sn": {serial(c.Certificate[0])}, "reason": {"1"}}.Encode()), csrfHeader)
			}
		}
		w.mu.Lock()
		few := len(w.certs) < 200
		w.mu.Unlock()
		if few {
			res, e := b.Get("https://pki.v.test/certs?admin=1")
			if err == nil {
				status(res, e, 200)
			}
		}
		return "pki", err
	case 8:
		b := p.Browser(vp.ClientOpt{Protos: [][]string{nil, {"h2"}}[r.Intn(2)]})
		b.Timeout = promptly
		defer closeIdle(b.Client)
		ca := w.authority()
		if ca == nil {
			return "ocsp", nil
		}
		res, e := b.Get("https://open.v.test/crl")
		status(res, e, 200)
		if cs := w.someCert(r); len(cs) > 0 {
			if x, e := x509.ParseCertificate(cs[0].Certificate[0]); e == nil {
				if raw, e := ocsp.CreateRequest(x, ca, nil); e == nil {
					b.Do("POST", "https://open.v.test/ocsp", bytes.NewReader(raw), http.Header{"Content-Type": {"application/ocsp-request"}})
				}
			}
		}
		return "ocsp", err
	case 9:
		b := w.browser(r, "https://ssh.v.test/cert")
		defer closeIdle(b.Client)
		res, e := b.Do("POST", "https://ssh.v.test/cert", strings.NewReader(sshPub), http.Header{"X-Csrf-Check": {"1"}, "Content-Type": {"text/plain"}})
		status(res, e, 200)
		b.Get("https://open.v.test/sshca")
		return "ssh", err
	case 10:
		b := w.browser(r, "https://o.v.test/authorization?response_type=code&client_id=client&redirect_uri="+url.QueryEscape("https://rp.example/cb")+"&scope=openid")
		defer closeIdle(b.Client)
		b.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
		res, e := b.Get("https://o.v.test/authorization?response_type=code&client_id=client&redirect_uri=" + url.QueryEscape("https://rp.example/cb") + "&scope=openid")
		status(res, e, 302)
		if err == nil {
			res, e = b.Do("POST", "https://o.v.test/token", strings.NewReader(url.Values{"grant_type": {"authorization_code"}, "code": {res.Loc().Query().Get("code")}, "client_id": {"client"}, "client_secret": {"s3cret"}, "redirect_uri": {"https://rp.example/cb"}}.Encode()), csrfHeader)
			status(res, e, 200)
		}
		b.Get("https://o.v.test/jwks")
		b.Get("https://login.v.test/jwks")
		b.Get("https://o.v.test/.well-known/openid-configuration")
		return "oidc", err
	case 11:
		// Up to the passkey page, and the SAML identity provider.
		b := p.Browser(vp.ClientOpt{})
		b.Timeout = promptly
		defer closeIdle(b.Client)
		res, e := b.Do("GET", []string{"https://pk.v.test/", "https://samlsso.v.test/"}[r.Intn(2)], nil, http.Header{"X-Skip-Login-Confirmation": {"1"}})
		for n := 0; e == nil && n < 4 && res.StatusCode/100 == 3 && !strings.HasPrefix(res.Loc().Host, "saml"); n++ {
			res, e = b.Get(res.Loc().String())
		}
		err = e
		b.Get("https://pk.v.test/.well-known/passkey-endpoints")
		b.Get("https://pk.v.test/.sso/passkeys")
		return "passkey", err
	case 12:
		o := vp.ClientOpt{Certs: w.someCert(r)}
		switch r.Intn(3) {
		case 0:
			c, e := p.Dial("mtcp.v.test", o)
			if e == nil {
				c.SetDeadline(time.Now().Add(promptly))
				io.ReadFull(c, make([]byte, 1))
				c.Close()
			}
		case 1:
			o.Protos = []string{"h2"}
			fallthrough
		default:
			c := p.HTTPClient(o)
			c.Timeout = promptly
			for range 2 {
				if resp, e := c.Get("https://mtls.v.test/slow?size=200"); e == nil {
					io.Copy(io.Discard, resp.Body)
					resp.Body.Close()
				}
			}
			closeIdle(c)
		}
		return "mtls", nil
	default:
		k := failing[r.Intn(len(failing))]
		fail(p, r, k, w.denied, w.e)
		return "failing " + k, nil
	}
}

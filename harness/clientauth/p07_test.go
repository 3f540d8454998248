package clientauth

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/quic-go/quic-go"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// An ident is what one client can present.
type ident struct {
	name     string
	cert     *tls.Certificate // nil: no certificate
	ca       string           // the CA a correct verification leads to, "" for none
	keyOK    bool
	usageOK  bool
	from, to time.Time
	match    []string // the access list entries that allow it
	sessions tls.ClientSessionCache
	pki      bool
	last     *last // the latest success

	revoking, revoked atomic.Bool // request sent, acknowledged
}

type last struct {
	b       *backend
	offered []string
	quic    bool
	sni     string
	max     uint16
}

// anyCache resumes the latest session whatever the server was.
type anyCache struct {
	mu sync.Mutex
	s  *tls.ClientSessionState
}

func (c *anyCache) Get(string) (*tls.ClientSessionState, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.s, c.s != nil
}

func (c *anyCache) Put(_ string, s *tls.ClientSessionState) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if s != nil {
		c.s = s
	}
}

type backend struct {
	id     string
	name   string
	mode   string
	protos []string
	auth   bool
	cas    []string
	acl    *[]string
	up     *upstream
}

// upstream is a server that answers every token with its name.
type upstream struct {
	id     string
	addr   string
	mu     sync.Mutex
	tokens map[string]bool
	conns  func() int64
}

func (u *upstream) saw(tok string) {
	u.mu.Lock()
	u.tokens[tok] = true
	u.mu.Unlock()
}

func (u *upstream) serve(c io.ReadWriter) {
	br := bufio.NewReader(c)
	for {
		l, err := br.ReadString('\n')
		if l != "" {
			u.saw(strings.TrimSpace(l))
		}
		if err != nil {
			return
		}
		fmt.Fprintf(c, "%s %s", u.id, l)
	}
}

func newUpstream(t testing.TB, e *vp.Env, id, mode string, protos []string) *upstream {
	u := &upstream{id: id, tokens: map[string]bool{}}
	h := http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		tok := req.Header.Get("X-Token")
		u.saw(tok)
		fmt.Fprintf(w, "%s %s\n", id, tok)
	})
	switch mode {
	case "TCP":
		s := vp.NewTCPServer(t, func(c net.Conn) { u.serve(c) })
		u.addr, u.conns = s.Addr, s.Conns.Load
	case "TLS":
		s := vp.NewTCPServer(t, vp.TLSServe(e.ServerTLS(protos, id+".up.test"), func(c *tls.Conn) { u.serve(c) }))
		u.addr, u.conns = s.Addr, s.Conns.Load
	case "QUIC":
		s := vp.NewQUICServer(t, e.ServerTLS(protos, id+".up.test"), func(c quic.Connection) {
			for {
				st, err := c.AcceptStream(context.Background())
				if err != nil {
					return
				}
				go func() { u.serve(st); st.Close() }()
			}
		})
		u.addr = s.Addr
	case "HTTP":
		u.addr = vp.NewHTTPServer(t, nil, h).Addr
	case "HTTPS":
		u.addr = vp.NewHTTPServer(t, e.ServerTLS([]string{"h2", "http/1.1"}, id+".up.test"), h).Addr
	case "LOCAL":
		dir := filepath.Join(e.Dir, "root-"+id)
		vh.MustWrite(t, filepath.Join(dir, "id.txt"), []byte(id+"\n"))
		u.addr = dir
	}
	return u
}

type world struct {
	t    *testing.T
	r    *vh.Run
	i    int
	env  *vp.Env
	p    *vp.P
	idp  *vp.IDP
	cas  map[string]*vp.CA
	pem  map[string]string // what goes in rootCAs
	bes  []*backend
	mu   sync.Mutex
	ids  []*ident
	log  []string
	seq  atomic.Int64
	good map[string]bool // tokens that may reach an upstream
	cfg  func() *proxy.Config
	adm  *vp.Browser
}

func (w *world) note(f string, a ...any) {
	w.mu.Lock()
	w.log = append(w.log, fmt.Sprintf(f, a...))
	w.mu.Unlock()
}

func (w *world) describe(b *backend) string {
	acl := "any"
	if b.acl != nil {
		acl = fmt.Sprintf("%q", *b.acl)
	}
	return fmt.Sprintf("%s[%s %s %v auth=%v cas=%v acl=%s]", b.id, b.name, b.mode, b.protos, b.auth, b.cas, acl)
}

func (w *world) fail(key string, f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	var bes []string
	for _, b := range w.bes {
		bes = append(bes, w.describe(b))
	}
	w.r.Violate(key, map[string]any{"world": w.i, "backends": bes, "history": w.log[max(0, len(w.log)-30):]}, f, a...)
}

const (
	no = iota
	maybe
	yes
)

// allowed is the specification, for a connection that was made between the
// two instants.
func allowed(b *backend, d *ident, before, after time.Time, revoked, revoking bool) (verdict int, why string) {
	if !b.auth {
		return yes, "no client authentication"
	}
	switch {
	case d.cert == nil:
		return no, "no certificate"
	case !d.keyOK:
		return no, "wrong key"
	case d.ca == "" || !slices.Contains(b.cas, d.ca):
		return no, "not from a configured CA"
	case !d.usageOK:
		return no, "not for client authentication"
	case revoked:
		return no, "revoked"
	}
	if b.acl != nil {
		if !slices.ContainsFunc(*b.acl, func(s string) bool { return slices.Contains(d.match, s) }) {
			return no, "not in the access list"
		}
	}
	if after.Before(d.from) || before.After(d.to.Add(time.Second)) {
		return no, "expired or not yet valid"
	}
	if !before.After(d.from) || after.After(d.to) {
		return maybe, "validity changed meanwhile"
	}
	if revoking {
		return maybe, "being revoked"
	}
	return yes, ""
}

func (w *world) static(name, ca string, cert tls.Certificate, match ...string) *ident {
	d := &ident{name: name, cert: &cert, ca: ca, keyOK: true, usageOK: true, from: cert.Leaf.NotBefore, to: cert.Leaf.NotAfter, match: match, sessions: &anyCache{}}
	w.ids = append(w.ids, d)
	return d
}

func chain(leaf tls.Certificate, more ...*x509.Certificate) tls.Certificate {
	for _, c := range more {
		leaf.Certificate = append(leaf.Certificate, c.Raw)
	}
	return leaf
}

// sub creates an intermediate CA.
func sub(ca *vp.CA, name string, isCA bool) *vp.CA {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	templ := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(100 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true, IsCA: isCA,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth},
	}
	if isCA {
		templ.KeyUsage = x509.KeyUsageCertSign
		templ.ExtKeyUsage = nil
	}
	der, err := x509.CreateCertificate(crand.Reader, templ, ca.Cert, key.Public(), ca.Key)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	return &vp.CA{Cert: c, Key: key}
}

func (w *world) identities() {
	a, b := w.cas["A"], w.cas["B"]
	w.ids = append(w.ids, &ident{name: "nobody", sessions: &anyCache{}})
	for _, n := range []string{"alice", "bob"} {
		m := []string{"CN=" + n, "SUBJECT:CN=" + n, "DNS:" + n + ".host.test", "EMAIL:" + n + "@v.test", "URI:spiffe://v.test/" + n}
		full := []vp.CertOpts{vp.CN(n), vp.DNS(n + ".host.test"), vp.Email(n + "@v.test"), vp.URI("spiffe://v.test/" + n)}
		w.static(n+"@A", "A", a.Issue(full...), m...)
		w.static(n+"@B", "B", b.Issue(full...), m...)
		w.static(n+"@twin", "", w.cas["twin"].Issue(full...), m...)
		w.static(n+"@other", "", w.cas["other"].Issue(full...), m...)
	}
	w.static("mail only@A", "A", a.Issue(vp.Email("carol@v.test")), "EMAIL:carol@v.test")
	w.static("org@A", "A", a.Issue(func(c *x509.Certificate) {
		c.Subject = pkix.Name{CommonName: "alice", Organization: []string{"V, Inc"}}
	}), `CN=alice,O=V\, Inc`, `SUBJECT:CN=alice,O=V\, Inc`)
	w.static("empty subject@A", "A", a.Issue())
	// These names are close to others in the access lists.
	w.static("prefix@A", "A", a.Issue(vp.CN("alice2"), vp.DNS("x.alice.host.test"), vp.Email("malice@v.test")), "CN=alice2", "DNS:x.alice.host.test", "EMAIL:malice@v.test")
	w.static("cross@A", "A", a.Issue(vp.CN("EMAIL:alice@v.test"), vp.DNS("CN=alice"), vp.Email("DNS:alice.host.test")), "CN=EMAIL:alice@v.test", "SUBJECT:CN=EMAIL:alice@v.test", "DNS:CN=alice", "EMAIL:DNS:alice.host.test")
	full := []vp.CertOpts{vp.CN("alice"), vp.Email("alice@v.test")}
	m := []string{"CN=alice", "SUBJECT:CN=alice", "EMAIL:alice@v.test"}
	day := 24 * time.Hour
	w.static("expired@A", "A", a.Issue(append(full, func(c *x509.Certificate) {
		c.NotBefore, c.NotAfter = time.Now().Add(-2*day), time.Now().Add(-time.Minute)
	})...), m...)
	w.static("future@A", "A", a.Issue(append(full, func(c *x509.Certificate) { c.NotBefore, c.NotAfter = time.Now().Add(time.Hour), time.Now().Add(day) })...), m...)
	w.static("short@A", "A", a.Issue(append(full, func(c *x509.Certificate) { c.NotAfter = time.Now().Add(4 * time.Second) })...), m...)
	w.static("server only@A", "A", a.Issue(append(full, func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth} })...), m...).usageOK = false
	stolen := a.Issue(full...)
	stolen.PrivateKey = w.cas["other"].Key
	w.static("stolen@A", "A", stolen, m...).keyOK = false
	i1 := sub(a, "intermediate", true)
	w.static("chain@A", "A", chain(i1.Issue(full...), i1.Cert), m...)
	w.static("incomplete chain@A", "", i1.Issue(full...), m...)
	leaf := sub(a, "alice", false)
	w.static("issued by a leaf@A", "", chain(leaf.Issue(full...), leaf.Cert), m...)
	// Presents alice's certificate after the one whose key it has.
	own := w.cas["other"].Issue(vp.CN("eve"))
	w.static("appended@A", "", chain(own, stolen.Leaf), "CN=eve", "SUBJECT:CN=eve")
	self := w.cas["twin"]
	w.static("the CA's name", "", tls.Certificate{Certificate: [][]byte{self.Cert.Raw}, PrivateKey: self.Key, Leaf: self.Cert}, "CN=A", "SUBJECT:CN=A")
}

// pkiIdent gets a new certificate from the proxy's own CA.
func (w *world) pkiIdent(user string) *ident {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	der, _ := x509.CreateCertificateRequest(crand.Reader, &x509.CertificateRequest{Subject: pkix.Name{CommonName: user}}, key)
	res, err := w.adm.Do("POST", "https://pki.v.test/certs?get=requestCert", bytes.NewReader(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: der})),
		http.Header{"X-Csrf-Check": {"1"}, "Content-Type": {"application/x-pem-file"}})
	if err != nil || res.StatusCode != 200 {
		w.r.Inconclusive("cannot get a certificate: %v", err)
		return nil
	}
	var out struct{ Cert string }
	json.Unmarshal([]byte(res.Text), &out)
	b, _ := pem.Decode([]byte(out.Cert))
	if b == nil {
		w.r.Inconclusive("no certificate: %s", vh.Trunc(res.Text, 100))
		return nil
	}
	leaf, err := x509.ParseCertificate(b.Bytes)
	if err != nil {
		w.r.Inconclusive("certificate: %v", err)
		return nil
	}
	d := &ident{name: fmt.Sprintf("pki#%d", w.seq.Add(1)), cert: &tls.Certificate{Certificate: [][]byte{b.Bytes}, PrivateKey: key, Leaf: leaf}, ca: "own", pki: true,
		keyOK: true, usageOK: true, from: leaf.NotBefore, to: leaf.NotAfter, sessions: &anyCache{},
		match: []string{"EMAIL:admin@v.test", "CN=" + leaf.Subject.CommonName, "SUBJECT:CN=" + leaf.Subject.CommonName}}
	w.r.Count("pki_issued", 1)
	w.mu.Lock()
	w.ids = append(w.ids, d)
	w.mu.Unlock()
	return d
}

func (w *world) revoke(d *ident) {
	w.note("revoking %s", d.name)
	d.revoking.Store(true)
	sn := fmt.Sprintf("%x", d.cert.Leaf.SerialNumber.Bytes())
	var parts []string
	for i := 0; i+1 < len(sn); i += 2 {
		parts = append(parts, sn[i:i+2])
	}
	res, err := w.adm.Do("POST", "https://pki.v.test/certs?get=revokeCert&sn="+strings.Join(parts, ":"), nil, http.Header{"X-Csrf-Check": {"1"}})
	if err != nil || res.StatusCode != 200 {
		w.r.Inconclusive("cannot revoke: %v %v", err, res)
		return
	}
	d.revoked.Store(true)
	w.note("revoked %s", d.name)
	w.r.Count("revoked", 1)
}

func randACL(rnd *rand.Rand) *[]string {
	if rnd.Intn(4) == 0 {
		return nil
	}
	acl := []string{}
	pool := []string{
		"CN=alice", "SUBJECT:CN=alice", "DNS:alice.host.test", "EMAIL:alice@v.test", "URI:spiffe://v.test/alice",
		"CN=bob", "SUBJECT:CN=bob", "DNS:bob.host.test", "EMAIL:bob@v.test", "URI:spiffe://v.test/bob",
		"EMAIL:carol@v.test", `SUBJECT:CN=alice,O=V\, Inc`, "EMAIL:admin@v.test", "EMAIL:admin@v.test",
		// decoys
		"alice", "alice.host.test", "alice@v.test", "EMAIL:Bob@v.test", "DNS:*.host.test", "EMAIL:*", "", "SUBJECT:", "*", "SUBJECT:alice", "URI:alice", "subject:CN=bob", "EMAIL:alice.host.test", "DNS:alice@v.test",
	}
	for range rnd.Intn(5) {
		acl = append(acl, pool[rnd.Intn(len(pool))])
	}
	return &acl
}

func (w *world) roots(rnd *rand.Rand, b *backend) []string {
	var out []string
	for _, c := range b.cas {
		if c == "own" {
			out = append(out, "own")
		} else if rnd.Intn(2) == 0 {
			out = append(out, filepath.Join(w.env.Dir, c+".pem"))
		} else {
			out = append(out, w.pem[c])
		}
	}
	return out
}

func (b *backend) randAuth(rnd *rand.Rand) {
	b.auth = rnd.Intn(5) > 0
	all := []string{"A", "B", "own"}
	rnd.Shuffle(3, func(i, j int) { all[i], all[j] = all[j], all[i] })
	b.cas = all[:1+rnd.Intn(2)]
	b.acl = randACL(rnd)
}

func (w *world) backends(rnd *rand.Rand) {
	n := 0
	add := func(name, mode string, protos ...string) {
		n++
		id := fmt.Sprintf("b%d", n)
		b := &backend{id: id, name: name, mode: mode, protos: protos}
		b.randAuth(rnd)
		b.up = newUpstream(w.t, w.env, fmt.Sprintf("w%d%s", w.i, id), mode, protos)
		w.bes = append(w.bes, b)
	}
	add("tcp.v.test", "TCP", "foo", "bar")
	add("tls.v.test", "TLS", "foo")
	add("http.v.test", "HTTP", "h2", "http/1.1", "h3")
	add("https.v.test", "HTTPS", "h2", "http/1.1", "h3")
	add("local.v.test", "LOCAL", "h2", "http/1.1", "h3")
	add("quic.v.test", "QUIC", "foo")
	// Different rules behind one name.
	add("mix.v.test", []string{"TCP", "HTTP"}[rnd.Intn(2)], "http/1.1")
	add("mix.v.test", []string{"HTTP", "LOCAL", "HTTPS"}[rnd.Intn(3)], "h2", "h3")
	add("mix.v.test", []string{"TCP", "TLS"}[rnd.Intn(2)], "foo")
	add("h3.v.test", "HTTP", "http/1.1")
	add("h3.v.test", []string{"HTTP", "LOCAL", "HTTPS"}[rnd.Intn(3)], "h3")
	add("plain.v.test", "TCP")
}

func (w *world) config(rnd *rand.Rand) *proxy.Config {
	bes := []*proxy.Backend{{ServerNames: []string{"pki.v.test"}, Mode: "LOCAL", ALPNProtos: vp.Ptr([]string{"h2", "http/1.1", "h3"}), SSO: &proxy.BackendSSO{Provider: "op", Paths: []string{"/certs"}}},
		{ServerNames: []string{"login.v.test"}, Mode: "LOCAL"}}
	for _, b := range w.bes {
		be := &proxy.Backend{ServerNames: []string{b.name}, Mode: b.mode, Addresses: []string{b.up.addr}, ForwardRateLimit: 100000, ForwardTimeout: 20 * time.Second}
		if b.protos != nil {
			be.ALPNProtos = vp.Ptr(slices.Clone(b.protos))
		}
		switch b.mode {
		case "TLS", "HTTPS", "QUIC":
			be.ForwardServerName = b.up.id + ".up.test"
			be.ForwardRootCAs = []string{w.env.CA.PEM}
		case "LOCAL":
			be.Addresses = nil
			be.DocumentRoot = b.up.addr
		}
		if b.auth {
			be.ClientAuth = &proxy.ClientAuth{RootCAs: w.roots(rnd, b)}
			if b.acl != nil {
				be.ClientAuth.ACL = vp.Ptr(slices.Clone(*b.acl))
			}
		}
		bes = append(bes, be)
	}
	cfg := w.env.Config(true, bes...)
	if w.p != nil {
		cfg.TLSAddr, cfg.CacheDir = w.p.Cfg.TLSAddr, w.p.Cfg.CacheDir
	}
	cfg.DefaultServerName = "tcp.v.test"
	if rnd.Intn(2) == 0 {
		cfg.DefaultServerName = "mix.v.test"
	}
	cfg.OIDCProviders = []*proxy.ConfigOIDC{w.idp.Config("op", "login.v.test", "v.test")}
	cfg.PKI = []*proxy.ConfigPKI{{Name: "own", Endpoint: "https://pki.v.test/certs", Admins: []string{"admin@v.test"}}}
	return cfg
}

// route is the backend that a connection is for.
func (w *world) route(sni, def string, offered []string, isQUIC bool) *backend {
	if sni == "" && !isQUIC {
		sni = def
	}
	for _, pr := range offered {
		for _, b := range w.bes {
			if b.name == sni && slices.Contains(b.protos, pr) {
				return b
			}
		}
	}
	if isQUIC {
		return nil
	}
	for _, b := range w.bes {
		if b.name == sni {
			return b
		}
	}
	return nil
}

// talk sends the token on an open connection; it returns the upstream's answer.
func talk(b *backend, c io.ReadWriter, tok, host string) (string, error) {
	switch b.mode {
	case "HTTP", "HTTPS", "LOCAL":
		return talkHTTP(c, tok, host)
	}
	if _, err := io.WriteString(c, tok+"\n"); err != nil {
		return "", err
	}
	return bufio.NewReader(c).ReadString('\n')
}

func talkHTTP(c io.ReadWriter, tok, host string) (string, error) {
	fmt.Fprintf(c, "GET /id.txt HTTP/1.1\r\nHost: %s\r\nX-Token: %s\r\nConnection: close\r\n\r\n", host, tok)
	resp, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return "", err
	}
	if resp.StatusCode != 200 {
		return fmt.Sprintf("status %d", resp.StatusCode), nil
	}
	return string(b), nil
}

func versions(k int, isQUIC bool) (lo, hi uint16) {
	switch {
	case k == 0 && !isQUIC:
		return 0, tls.VersionTLS12
	case k == 1:
		return tls.VersionTLS13, 0
	}
	return 0, 0
}

func isTimeout(err error) bool {
	var ne net.Error
	return errors.Is(err, context.DeadlineExceeded) || errors.As(err, &ne) && ne.Timeout() || err != nil && strings.Contains(err.Error(), "Timeout")
}

func (w *world) attempt(rnd *rand.Rand, def string) {
	b := w.bes[rnd.Intn(len(w.bes))]
	w.mu.Lock()
	d := w.ids[rnd.Intn(len(w.ids))]
	if rnd.Intn(2) == 0 {
		d = w.ids[len(w.ids)-1-rnd.Intn(min(6, len(w.ids)))]
	}
	if b.auth && rnd.Intn(3) == 0 {
		// somebody who is allowed
		for _, x := range w.ids {
			if v, _ := allowed(b, x, time.Now(), time.Now(), false, false); v == yes && rnd.Intn(2) == 0 {
				d = x
			}
		}
	}
	if rnd.Intn(40) == 0 {
		d = w.ids[0]
	}
	again := d.last
	w.mu.Unlock()
	isQUIC := b.mode == "QUIC" || rnd.Intn(4) == 0
	offered := slices.Clone(b.protos)
	switch rnd.Intn(6) {
	case 0:
		rnd.Shuffle(len(offered), func(i, j int) { offered[i], offered[j] = offered[j], offered[i] })
	case 1:
		offered = nil
		for range 1 + rnd.Intn(3) {
			offered = append(offered, []string{"h2", "http/1.1", "h3", "foo", "bar", "acme-tls/1", "zzz"}[rnd.Intn(7)])
		}
	case 2:
		offered = nil
	case 3:
		if len(offered) > 1 {
			offered = offered[rnd.Intn(len(offered)):][:1]
		}
	}
	sni := b.name
	if (sni == def) && rnd.Intn(3) == 0 && !isQUIC {
		sni = ""
	}
	o := vp.ClientOpt{Protos: offered, NoSNI: sni == ""}
	if again != nil && rnd.Intn(3) > 0 {
		b, isQUIC, offered, sni = again.b, again.quic, again.offered, again.sni
		o = vp.ClientOpt{Protos: offered, NoSNI: sni == "", Max: again.max}
	} else {
		again = nil
	}
	if again == nil {
		o.Min, o.Max = versions(rnd.Intn(4), isQUIC)
	}
	want := w.route(sni, def, offered, isQUIC)
	acme := len(offered) == 1 && offered[0] == "acme-tls/1" && sni != "" && !isQUIC
	tok := fmt.Sprintf("w%d-%d", w.i, w.seq.Add(1))
	resume := rnd.Intn(4) > 0
	tc := w.p.TLSConfig(sni, o)
	if d.cert != nil {
		// The client insists on its certificate whatever the server asks for.
		tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return d.cert, nil }
	}
	if resume {
		tc.ClientSessionCache = d.sessions
	}
	revoked := d.revoked.Load()
	before := time.Now()
	res := w.dial(tc, want, tok, rnd, isQUIC, sni)
	after := time.Now()
	revoking := d.revoking.Load()
	desc := fmt.Sprintf("%s: %s -> sni %q %v quic=%v tls12=%v resumed=%v: backend %q proto %q answer %q err %v", tok, d.name, sni, offered, isQUIC, o.Max != 0, res.resumed, func() string {
		if want != nil {
			return want.id
		}
		return ""
	}(), res.proto, res.answer, res.err)
	w.note("%s", desc)
	if res.resumed {
		w.r.Count("resumed", 1)
	}
	// Who answered?
	var got *backend
	for _, x := range w.bes {
		if strings.HasPrefix(res.answer, x.up.id+" ") || strings.TrimSpace(res.answer) == x.id || strings.TrimSpace(res.answer) == x.up.id {
			got = x
		}
	}
	may := false
	for _, x := range w.bes {
		v, why := allowed(x, d, before, after, revoked, revoking)
		if x == got {
			may = true
			w.r.Eval(true, "reached", x.mode, d.name, offered, isQUIC, o.Max, res.resumed, fmt.Sprint(x.auth, x.cas, x.acl))
			w.r.Count("reached", 1)
			w.mu.Lock()
			d.last = &last{b, offered, isQUIC, sni, o.Max}
			w.mu.Unlock()
			if x.auth {
				w.r.Count("reached_auth", 1)
				if isQUIC {
					w.r.Count("reached_auth_quic", 1)
				}
				if res.resumed {
					w.r.Count("reached_auth_resumed", 1)
				}
			}
			if v == no {
				w.fail("admitted", "%s was admitted to %s, which must refuse it (%s); %s", d.name, w.describe(x), why, desc)
			}
		}
	}
	if got == nil && want != nil {
		v, why := allowed(want, d, before, after, revoked, revoking)
		w.r.Eval(v == no, "refused", want.mode, d.name, offered, isQUIC, o.Max, why)
		switch {
		case isTimeout(res.err):
			w.r.Inconclusive("timeout: %s", desc)
			may = true
		case v == no:
			w.r.Count("refused", 1)
			w.r.Count("refused: "+why, 1)
		case v == yes && !acme && res.expect:
			w.fail("refused", "%s was refused by %s, which must admit it; %s", d.name, w.describe(want), desc)
		}
		if v != no {
			may = true
		}
	}
	if may {
		w.mu.Lock()
		w.good[tok] = true
		w.mu.Unlock()
	}
	if got != nil && want != nil && got != want {
		w.fail("wrong-backend", "the connection was for %s and reached %s; %s", want.id, got.id, desc)
	}
}

type result struct {
	answer  string
	err     error
	resumed bool
	proto   string
	expect  bool // the protocols agree: an admitted client gets an answer
}

func (w *world) dial(tc *tls.Config, want *backend, tok string, rnd *rand.Rand, isQUIC bool, sni string) (res result) {
	shared := want != nil && (len(tc.NextProtos) == 0 || slices.ContainsFunc(tc.NextProtos, func(s string) bool {
		return slices.Contains(want.protos, s) && (isQUIC || s != "h3")
	}))
	isHTTP := want != nil && (want.mode == "HTTP" || want.mode == "HTTPS" || want.mode == "LOCAL")
	host := sni
	if host == "" && want != nil {
		host = want.name
	}
	if isQUIC {
		c, cl, err := vp.DialQUIC(w.p.Addr, tc, "")
		if err != nil {
			return result{err: err}
		}
		defer cl()
		cs := c.ConnectionState().TLS
		res.resumed, res.proto = cs.DidResume, cs.NegotiatedProtocol
		if want == nil {
			return
		}
		if res.proto == "h3" && isHTTP {
			res.expect = true
			res.answer, res.err = vp.H3Get(c, "https://"+host+"/id.txt", http.Header{"X-Token": {tok}})
			return
		}
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		defer cancel()
		st, err := c.OpenStreamSync(ctx)
		if err != nil {
			res.err = err
			return
		}
		st.SetDeadline(time.Now().Add(30 * time.Second))
		res.expect = res.proto != "h2" && res.proto != "h3"
		res.answer, res.err = talk(want, st, tok, host)
		return
	}
	c, err := w.p.TCP("")
	if err != nil {
		return result{err: err}
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	tlsc := tls.Client(c, tc)
	res.expect = shared
	if err := tlsc.Handshake(); err != nil {
		res.err = err
		return
	}
	cs := tlsc.ConnectionState()
	res.resumed, res.proto = cs.DidResume, cs.NegotiatedProtocol
	if want == nil {
		return
	}
	if want.mode == "QUIC" {
		res.expect = false // TCP clients of a QUIC backend are not specified here
	}
	if res.proto == "h2" && isHTTP {
		res.answer, res.err = vp.H2Get(tlsc, "https://"+host+"/id.txt", http.Header{"X-Token": {tok}})
		return
	}
	res.answer, res.err = talk(want, tlsc, tok, host)
	// The client keeps the tickets that arrived with the answer.
	return
}

func (w *world) run() {
	rnd := vh.Rand("p07", w.i)
	w.env = vp.NewEnv(w.t)
	w.idp = vp.NewIDP(w.t)
	w.good = map[string]bool{}
	w.cas = map[string]*vp.CA{"A": vp.NewCA("A"), "B": vp.NewCA("B"), "twin": vp.NewCA("A"), "other": vp.NewCA("other")}
	w.pem = map[string]string{}
	for _, n := range []string{"A", "B"} {
		w.pem[n] = w.cas[n].PEM
		vh.MustWrite(w.t, filepath.Join(w.env.Dir, n+".pem"), []byte(w.cas[n].PEM))
	}
	w.backends(rnd)
	w.identities()
	cfg := w.config(rnd)
	w.p = w.env.Start(cfg)
	defer w.p.End()
	o := vp.ClientOpt{}
	if w.i%2 == 0 {
		o.Protos = []string{"h3"}
	}
	w.adm = w.p.Browser(vp.ClientOpt{})
	if _, err := w.adm.Login(w.idp, "https://pki.v.test/certs", "admin@v.test"); err != nil {
		w.r.Inconclusive("login: %v", err)
		return
	}
	if len(o.Protos) > 0 {
		// The administrator stays connected across configuration changes.
		h3, done := w.p.H3Client(o)
		defer done()
		jar := w.adm.Client.Jar
		w.adm.Client = h3
		w.adm.Client.Jar = jar
	}
	short := w.ids[slices.IndexFunc(w.ids, func(d *ident) bool { return d.name == "short@A" })]
	for phase := range 4 {
		for range 3 {
			w.pkiIdent("admin@v.test")
		}
		vh.Parallel(6, vh.N(150, 700), func(k int) {
			rnd := vh.Rand(fmt.Sprintf("p07/%d/%d", w.i, phase), k)
			switch {
			case k%25 == 24:
				w.mu.Lock()
				var d *ident
				for _, x := range w.ids {
					if x.pki && !x.revoking.Load() && rnd.Intn(2) == 0 {
						d = x
						x.revoking.Store(true)
						break
					}
				}
				w.mu.Unlock()
				if d != nil {
					w.revoke(d)
				}
			case k%25 == 12:
				w.pkiIdent("admin@v.test")
			default:
				w.attempt(rnd, cfg.DefaultServerName)
			}
		})
		if phase == 0 {
			time.Sleep(time.Until(short.to.Add(1100 * time.Millisecond)))
			for k := range 20 {
				rnd := vh.Rand(fmt.Sprintf("p07/short/%d", w.i), k)
				w.mu.Lock()
				ids := w.ids
				w.ids = []*ident{short}
				w.mu.Unlock()
				w.attempt(rnd, cfg.DefaultServerName)
				w.mu.Lock()
				w.ids = ids
				w.mu.Unlock()
			}
		}
		// New rules.
		for _, b := range w.bes {
			if rnd.Intn(2) == 0 {
				b.randAuth(rnd)
			}
		}
		cfg = w.config(rnd)
		if err := w.p.Reconfigure(cfg); err != nil {
			w.fail("reconfigure", "a valid configuration is refused: %v", err)
			return
		}
		w.note("reconfigured")
	}
	// What the upstreams saw.
	for _, b := range w.bes {
		b.up.mu.Lock()
		for tok := range b.up.tokens {
			if tok != "" && !w.good[tok] {
				w.fail("leaked", "the token of a refused connection (%s) arrived at %s", tok, b.id)
			}
		}
		b.up.mu.Unlock()
		w.r.Count("tokens_audited", len(b.up.tokens))
	}
}

func TestP07(t *testing.T) {
	r := vh.New(t, "every connection attempt is compared with an independent decision about the presented certificate, and the upstream servers' logs are audited")
	for _, k := range []string{"reached_auth", "reached_auth_quic", "reached_auth_resumed", "refused", "revoked", "pki_issued"} {
		defer r.NeedAtLeast(k, 5)
	}
	os.Setenv("QUIC_GO_DISABLE_RECEIVE_BUFFER_WARNING", "1")
	for i := range vh.N(6, 60) {
		if r.NumViolations() > 6 {
			break
		}
		w := &world{t: t, r: r, i: i}
		w.run()
	}
	for _, x := range vp.Log.TakePanics() {
		r.Violate("panic", x, "panic: %s", vh.Trunc(x, 300))
	}
}

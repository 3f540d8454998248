package upstream

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// An ident is what an upstream server presents.
type ident struct {
	name    string
	cert    tls.Certificate
	ca      string // the CA a correct verification leads to, "" for none
	dns     []string
	ips     []string
	usageOK bool
	timeOK  bool
	keyOK   bool
	ocsp    string // "", good, revoked, unknown, down
	pki     bool

	revokedAt atomic.Int64 // unix nanoseconds, when the revocation was acknowledged
	revoking  atomic.Bool
}

// A rule is what the configuration says about the server.
type rule struct {
	cas  []string
	name string
	skip bool
}

func (r rule) String() string { return fmt.Sprintf("{CAs %q name %q skip %v}", r.cas, r.name, r.skip) }

const (
	refuse = iota
	either
	accept
)

func matches(pattern, name string) bool {
	pattern, name = strings.ToLower(pattern), strings.ToLower(name)
	if rest, ok := strings.CutPrefix(pattern, "*."); ok {
		_, n, ok := strings.Cut(name, ".")
		return ok && n == rest
	}
	return pattern == name
}

// judge decides whether the server with this identity is the one that the
// rule describes.
func judge(ru rule, d *ident, revoked, revoking bool) (int, string) {
	if !d.keyOK {
		return refuse, "doesn't have the key"
	}
	if ru.skip {
		if d.ocsp != "" || revoking {
			return either, "verification is disabled"
		}
		return accept, "verification is disabled"
	}
	switch {
	case d.ca == "" || !slices.Contains(ru.cas, d.ca):
		return refuse, "CA not trusted"
	case !d.timeOK:
		return refuse, "not valid now"
	case !d.usageOK:
		return refuse, "not a server certificate"
	case ru.name == "" || net.ParseIP(ru.name) != nil:
		// Without a name, the address can be used instead, or nothing.
		if len(d.ips) > 0 {
			return either, "only the address could match"
		}
		return refuse, "no name to verify"
	case !slices.ContainsFunc(d.dns, func(n string) bool { return matches(n, ru.name) }):
		return refuse, "other name"
	case revoked:
		return refuse, "revoked"
	case revoking:
		return either, "being revoked"
	case d.ocsp != "" && d.ocsp != "good":
		return refuse, "OCSP says " + d.ocsp
	}
	return accept, "legitimate"
}

type server struct {
	id   string
	addr string
	d    *ident
	mu   sync.Mutex
	got  map[string]time.Time // token -> when the connection was accepted
	peer map[string]string    // token -> the name in the proxy's certificate
}

func (s *server) saw(tok string, at time.Time, cs tls.ConnectionState) {
	name := ""
	if len(cs.PeerCertificates) > 0 {
		name = strings.Join(cs.PeerCertificates[0].DNSNames, ",")
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.got[tok]; !ok {
		s.got[tok] = at
		s.peer[tok] = name
	}
}

func (s *server) lines(c io.ReadWriter, at time.Time, cs tls.ConnectionState) {
	br := bufio.NewReader(c)
	for {
		l, err := br.ReadString('\n')
		if l != "" {
			s.saw(strings.TrimSpace(l), at, cs)
		}
		if err != nil {
			return
		}
		fmt.Fprintf(c, "%s %s", s.id, l)
	}
}

type ctxKey int

func newServer(t testing.TB, d *ident, id, kind string, ask bool, max uint16) *server {
	s := &server{id: id, d: d, got: map[string]time.Time{}, peer: map[string]string{}}
	tc := &tls.Config{Certificates: []tls.Certificate{d.cert}, MaxVersion: max}
	if ask {
		tc.ClientAuth = tls.RequireAnyClientCert
	}
	h := http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		at, _ := req.Context().Value(ctxKey(1)).(time.Time)
		s.saw(req.Header.Get("X-Token"), at, *req.TLS)
		fmt.Fprintf(w, "%s %s", s.id, req.Header.Get("X-Token"))
	})
	listen := func() net.Listener {
		l, err := net.Listen("tcp", vp.IP()+":7001")
		if err != nil {
			t.Fatal(err)
		}
		return l
	}
	switch kind {
	case "tls":
		tc.NextProtos = []string{"foo"}
		l := listen()
		t.Cleanup(func() { l.Close() })
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				at := time.Now()
				go func() {
					defer c.Close()
					x := tls.Server(c, tc)
					x.SetDeadline(time.Now().Add(time.Minute))
					if x.Handshake() == nil {
						s.lines(x, at, x.ConnectionState())
					}
				}()
			}
		}()
		s.addr = l.Addr().String()
	case "h1", "h2":
		tc.NextProtos = []string{"http/1.1"}
		if kind == "h2" {
			tc.NextProtos = []string{"h2", "http/1.1"}
		}
		l := listen()
		srv := &http.Server{Handler: h, TLSConfig: tc, ErrorLog: log.New(io.Discard, "", 0), ConnContext: func(ctx context.Context, c net.Conn) context.Context {
			return context.WithValue(ctx, ctxKey(1), time.Now())
		}}
		go srv.ServeTLS(l, "", "")
		t.Cleanup(func() { srv.Close() })
		s.addr = l.Addr().String()
	case "quic":
		tc.MaxVersion = 0
		tc.NextProtos = []string{"foo"}
		s.addr = vp.NewQUICServer(t, tc, func(c quic.Connection) {
			at := time.Now()
			for {
				st, err := c.AcceptStream(context.Background())
				if err != nil {
					return
				}
				go func() { s.lines(st, at, c.ConnectionState().TLS); st.Close() }()
			}
		}).Addr
	case "h3":
		tc.MaxVersion = 0
		uc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(vp.IP()), Port: 7003})
		if err != nil {
			t.Fatal(err)
		}
		srv := &http3.Server{Handler: h, TLSConfig: http3.ConfigureTLSConfig(tc), ConnContext: func(ctx context.Context, c quic.Connection) context.Context {
			return context.WithValue(ctx, ctxKey(1), time.Now())
		}}
		go srv.Serve(uc)
		t.Cleanup(func() { srv.Close(); uc.Close() })
		s.addr = uc.LocalAddr().String()
	}
	return s
}

// A target is one way through the proxy to a list of servers.
type target struct {
	host, path string
	kind       string
	ru         rule
	servers    []*server
	asks       bool
}

type world struct {
	t   *testing.T
	r   *vh.Run
	i   int
	env *vp.Env
	p   *vp.P
	idp *vp.IDP
	adm *vp.Browser
	cas map[string]*vp.CA
	ids []*ident
	tg  []*target
	seq atomic.Int64
	rsp string // the OCSP responder
}

const name = "up.v.test"

func (w *world) add(n, ca string, cert tls.Certificate) *ident {
	l, now := cert.Leaf, time.Now()
	d := &ident{name: n, cert: cert, ca: ca, dns: l.DNSNames, keyOK: true,
		usageOK: slices.Contains(l.ExtKeyUsage, x509.ExtKeyUsageServerAuth), timeOK: now.After(l.NotBefore) && now.Before(l.NotAfter)}
	for _, ip := range l.IPAddresses {
		d.ips = append(d.ips, ip.String())
	}
	w.ids = append(w.ids, d)
	return d
}

func chain(leaf tls.Certificate, more ...*x509.Certificate) tls.Certificate {
	leaf.Certificate = slices.Clone(leaf.Certificate)
	for _, c := range more {
		leaf.Certificate = append(leaf.Certificate, c.Raw)
	}
	return leaf
}

// sub issues an intermediate CA, or a certificate that is used as one.
func sub(ca *vp.CA, isCA bool) *vp.CA {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	templ := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "between"}, DNSNames: []string{name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(100 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true, IsCA: isCA, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	if isCA {
		templ.KeyUsage, templ.ExtKeyUsage, templ.DNSNames = x509.KeyUsageCertSign, nil, nil
	}
	der, err := x509.CreateCertificate(crand.Reader, templ, ca.Cert, key.Public(), ca.Key)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	return &vp.CA{Cert: c, Key: key}
}

func (w *world) identities() {
	a, b := w.cas["A"], w.cas["B"]
	dns := vp.DNS(name)
	day := 24 * time.Hour
	w.add("good@A", "A", a.Issue(vp.CN(name), dns))
	w.add("good@B", "B", b.Issue(vp.CN(name), dns))
	w.add("good@twin", "", w.cas["twin"].Issue(vp.CN(name), dns))
	w.add("good@other", "", w.cas["other"].Issue(vp.CN(name), dns))
	w.add("good@proxy's CA", "env", w.env.CA.Issue(vp.CN(name), dns))
	w.add("other name@A", "A", a.Issue(vp.CN(name), vp.DNS("else.v.test")))
	w.add("longer name@A", "A", a.Issue(vp.DNS("x."+name, name+".evil.test", "v.test")))
	w.add("common name only@A", "A", a.Issue(vp.CN(name)))
	w.add("email only@A", "A", a.Issue(vp.CN(name), vp.Email("a@"+name)))
	w.add("else@B", "B", b.Issue(vp.DNS("else.v.test")))
	w.add("wildcard@A", "A", a.Issue(vp.DNS("*.v.test")))
	w.add("several names@A", "A", a.Issue(vp.DNS("a.test", "UP.v.TEST", "b.test")))
	w.add("address@A", "A", a.Issue(func(c *x509.Certificate) {
		for i := range 64 {
			c.IPAddresses = append(c.IPAddresses, net.IPv4(127, 0, 0, byte(i)))
		}
	}))
	w.add("expired@A", "A", a.Issue(dns, func(c *x509.Certificate) {
		c.NotBefore, c.NotAfter = time.Now().Add(-2*day), time.Now().Add(-time.Minute)
	}))
	w.add("future@A", "A", a.Issue(dns, func(c *x509.Certificate) { c.NotBefore, c.NotAfter = time.Now().Add(time.Hour), time.Now().Add(day) }))
	w.add("client only@A", "A", a.Issue(dns, func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} }))
	stolen := a.Issue(dns)
	stolen.PrivateKey = w.cas["other"].Key
	w.add("stolen@A", "A", stolen).keyOK = false
	i1 := sub(a, true)
	w.add("chain@A", "A", chain(i1.Issue(dns), i1.Cert))
	w.add("incomplete chain@A", "", i1.Issue(dns))
	l1 := sub(a, false)
	w.add("issued by a leaf@A", "", chain(l1.Issue(dns), l1.Cert))
	own := w.cas["other"].Issue(vp.CN("eve"), dns)
	w.add("appended@A", "", chain(own, stolen.Leaf, a.Cert))
	w.add("self-signed", "", func() tls.Certificate {
		key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		templ := &x509.Certificate{SerialNumber: big.NewInt(9), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(day), ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		der, _ := x509.CreateCertificate(crand.Reader, templ, templ, key.Public(), key)
		l, _ := x509.ParseCertificate(der)
		return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key, Leaf: l}
	}())
	for _, k := range []string{"good", "revoked", "unknown", "down"} {
		w.add("ocsp "+k+"@A", "A", a.Issue(dns, func(c *x509.Certificate) { c.OCSPServer = []string{w.rsp + "/" + k} })).ocsp = k
	}
}

// responder answers what its path says.
func (w *world) responder(rw http.ResponseWriter, req *http.Request) {
	body, _ := io.ReadAll(req.Body)
	or, err := ocsp.ParseRequest(body)
	if err != nil {
		http.Error(rw, "bad", 400)
		return
	}
	st := ocsp.Good
	switch req.URL.Path {
	case "/down":
		http.Error(rw, "down", 503)
		return
	case "/revoked":
		st = ocsp.Revoked
	case "/unknown":
		st = ocsp.Unknown
	}
	a := w.cas["A"]
	b, err := ocsp.CreateResponse(a.Cert, a.Cert, ocsp.Response{Status: st, SerialNumber: or.SerialNumber, ThisUpdate: time.Now().Add(-time.Minute),
		NextUpdate: time.Now().Add(time.Hour), RevokedAt: time.Now().Add(-time.Minute)}, a.Key)
	if err != nil {
		http.Error(rw, "?", 500)
		return
	}
	rw.Header().Set("content-type", "application/ocsp-response")
	rw.Write(b)
}

func (w *world) pkiIdent(pk string) *ident {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	der, _ := x509.CreateCertificateRequest(crand.Reader, &x509.CertificateRequest{Subject: pkix.Name{CommonName: "s"}, DNSNames: []string{name, "else.v.test"}[w.seq.Load()%4/3:][:1]}, key)
	res, err := w.adm.Do("POST", "https://"+pk+".v.test/certs?get=requestCert", bytes.NewReader(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: der})),
		http.Header{"X-Csrf-Check": {"1"}, "Content-Type": {"application/x-pem-file"}})
	if err != nil || res.StatusCode != 200 {
		w.r.Inconclusive("cannot get a certificate: %v", err)
		return nil
	}
	var out struct{ Cert string }
	json.Unmarshal([]byte(res.Text), &out)
	b, _ := pem.Decode([]byte(out.Cert))
	if b == nil {
		w.r.Inconclusive("no certificate: %s", vh.Trunc(res.Text, 100))
		return nil
	}
	leaf, err := x509.ParseCertificate(b.Bytes)
	if err != nil {
		w.r.Inconclusive("certificate: %v", err)
		return nil
	}
	d := w.add(fmt.Sprintf("%s#%d", pk, w.seq.Add(1)), pk, tls.Certificate{Certificate: [][]byte{b.Bytes}, PrivateKey: key, Leaf: leaf})
	d.pki = true
	return d
}

func (w *world) revoke(d *ident) bool {
	d.revoking.Store(true)
	var parts []string
	for _, b := range d.cert.Leaf.SerialNumber.Bytes() {
		parts = append(parts, fmt.Sprintf("%02x", b))
	}
	res, err := w.adm.Do("POST", "https://"+d.ca+".v.test/certs?get=revokeCert&sn="+strings.Join(parts, ":"), nil, http.Header{"X-Csrf-Check": {"1"}})
	if err != nil || res.StatusCode != 200 {
		w.r.Inconclusive("cannot revoke: %v %v", err, res)
		return false
	}
	d.revokedAt.Store(time.Now().UnixNano())
	w.r.Count("revoked", 1)
	return true
}

func (w *world) roots(cas []string) (out []string) {
	for _, c := range cas {
		switch c {
		case "A":
			out = append(out, w.cas["A"].PEM)
		case "B":
			out = append(out, filepath.Join(w.env.Dir, "B.pem"))
		default:
			out = append(out, c)
		}
	}
	return out
}

func randRule(rnd *rand.Rand) (r rule) {
	r.name = name
	switch rnd.Intn(12) {
	case 0:
		r.name = ""
	case 1:
		r.name = "Up.V.Test"
	case 2, 3, 4:
		r.name = "else.v.test"
	}
	sets := [][]string{{"A"}, {"A"}, {"A", "B"}, {"B"}, {"own"}, {"own2"}, {"own", "own2"}, {"own", "A"}, {"own2", "A"}, {"own2", "own"}, {"A", "own", "B"}, nil}
	r.cas = sets[rnd.Intn(len(sets))]
	r.skip = rnd.Intn(7) == 0
	return r
}

func (w *world) pick(rnd *rand.Rand, ru rule) *ident {
	// Half of the servers are the right ones.
	for range 40 {
		d := w.ids[rnd.Intn(len(w.ids))]
		if v, _ := judge(ru, d, false, false); v != accept {
			continue
		}
		if rnd.Intn(2) == 0 {
			return d
		}
		break
	}
	return w.ids[rnd.Intn(len(w.ids))]
}

func (w *world) config(rnd *rand.Rand) *proxy.Config {
	pb := func(n string) *proxy.Backend {
		return &proxy.Backend{ServerNames: []string{n + ".v.test"}, Mode: "LOCAL", SSO: &proxy.BackendSSO{Provider: "op", Paths: []string{"/certs"}}}
	}
	bes := []*proxy.Backend{pb("own"), pb("own2"), {ServerNames: []string{"login.v.test"}, Mode: "LOCAL"}}
	mk := func(kind string, ru, near rule, asks bool) *target {
		tg := &target{kind: kind, ru: ru, asks: asks, path: "/"}
		max := uint16(0)
		if rnd.Intn(3) == 0 {
			max = tls.VersionTLS12
		}
		for range 1 + rnd.Intn(4)/2 {
			d := w.pick(rnd, []rule{ru, near}[rnd.Intn(2)])
			tg.servers = append(tg.servers, newServer(w.t, d, fmt.Sprintf("w%ds%d", w.i, w.seq.Add(1)), kind, asks, max))
		}
		return tg
	}
	addrs := func(tg *target) (out []string) {
		for _, s := range tg.servers {
			out = append(out, s.addr)
		}
		return out
	}
	kinds := []string{"tls", "h1", "h2", "h3", "quic"}
	for j := range vh.N(90, 150) {
		kind := kinds[j%len(kinds)]
		// The servers that suit one of the two rules shouldn't suit the
		// other.
		ru, pru := randRule(rnd), randRule(rnd)
		tg := mk(kind, ru, pru, rnd.Intn(4) == 0)
		tg.host = fmt.Sprintf("b%d.v.test", j)
		be := &proxy.Backend{ServerNames: []string{tg.host}, Addresses: addrs(tg), ForwardServerName: ru.name, ForwardRootCAs: w.roots(ru.cas), InsecureSkipVerify: ru.skip,
			ForwardRateLimit: 100000, ForwardTimeout: 20 * time.Second}
		w.tg = append(w.tg, tg)
		switch kind {
		case "tls":
			be.Mode, be.ALPNProtos = "TLS", &[]string{"foo"}
		case "quic":
			be.Mode, be.ALPNProtos = "QUIC", &[]string{"foo"}
		default:
			be.Mode, be.ALPNProtos = "HTTPS", &[]string{"h2", "http/1.1", "h3"}
			be.BackendProto = vp.Ptr(map[string]string{"h1": "http/1.1", "h2": "h2", "h3": "h3"}[kind])
			if rnd.Intn(3) > 0 {
				// The paths below have their own servers and rules.
				po := mk(kind, pru, ru, false)
				po.host, po.path = tg.host, "/p/"
				w.tg = append(w.tg, po)
				ov := &proxy.PathOverride{Paths: []string{"/p/"}, Mode: "HTTPS", Addresses: addrs(po), ForwardServerName: pru.name, ForwardRootCAs: w.roots(pru.cas),
					InsecureSkipVerify: pru.skip, ForwardTimeout: 20 * time.Second, BackendProto: be.BackendProto}
				be.PathOverrides = []*proxy.PathOverride{ov}
			}
		}
		// A client CA isn't a server CA.
		if rnd.Intn(5) == 0 {
			be.ClientAuth = &proxy.ClientAuth{RootCAs: []string{w.env.CA.PEM, w.cas["other"].PEM, "own"}}
		}
		bes = append(bes, be)
	}
	cfg := w.env.Config(true, bes...)
	if w.p != nil {
		cfg.TLSAddr, cfg.CacheDir = w.p.Cfg.TLSAddr, w.p.Cfg.CacheDir
	}
	cfg.OIDCProviders = []*proxy.ConfigOIDC{w.idp.Config("op", "login.v.test", "v.test")}
	cfg.PKI = []*proxy.ConfigPKI{{Name: "own", Endpoint: "https://own.v.test/certs", Admins: []string{"admin@v.test"}}, {Name: "own2", Endpoint: "https://own2.v.test/certs", Admins: []string{"admin@v.test"}}}
	return cfg
}

// send passes one token to the target; it returns what came back.
func (w *world) send(tg *target, how, tok string) (string, error) {
	o := vp.ClientOpt{Certs: []tls.Certificate{w.env.CA.Issue(vp.CN("client"))}}
	switch tg.kind {
	case "tls", "quic":
		o.Protos = []string{"foo"}
		var c io.ReadWriter
		if how == "h3" && tg.kind == "quic" {
			qc, cleanup, err := w.p.DialQUIC(tg.host, o)
			if err != nil {
				return "", err
			}
			defer cleanup()
			st, err := qc.OpenStream()
			if err != nil {
				return "", err
			}
			st.SetDeadline(time.Now().Add(40 * time.Second))
			c = st
		} else {
			tc, err := w.p.Dial(tg.host, o)
			if err != nil {
				return "", err
			}
			defer tc.Close()
			tc.SetDeadline(time.Now().Add(40 * time.Second))
			c = tc
		}
		if _, err := io.WriteString(c, tok+"\n"); err != nil {
			return "", err
		}
		l, err := bufio.NewReader(c).ReadString('\n')
		return strings.TrimSpace(l), err
	}
	o.Protos = []string{map[string]string{"h1": "http/1.1", "h2": "h2", "h3": "h3"}[how]}
	var cl *http.Client
	if how == "h3" {
		c, done := w.p.H3Client(o)
		defer done()
		cl = c
	} else {
		cl = w.p.HTTPClient(o)
		defer cl.CloseIdleConnections()
	}
	req, _ := http.NewRequest("GET", "https://"+tg.host+tg.path, nil)
	req.Header.Set("X-Token", tok)
	resp, err := cl.Do(req)
	if err != nil {
		return "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if resp.StatusCode != 200 {
		return "", fmt.Errorf("status %d", resp.StatusCode)
	}
	return string(b), err
}

func (w *world) attempt(rnd *rand.Rand, tg *target) {
	how := []string{"h1", "h2", "h3"}[rnd.Intn(3)]
	var why string
	var got *server
	try := func() (ok, definitive bool) {
		tok := fmt.Sprintf("tok-%d-%d", w.i, w.seq.Add(1))
		best := refuse
		var text []string
		start := time.Now()
		for _, s := range tg.servers {
			v, x := judge(tg.ru, s.d, s.d.revokedAt.Load() > 0, s.d.revoking.Load())
			text = append(text, s.d.name+": "+x)
			best = max(best, v)
		}
		ans, err := w.send(tg, how, tok)
		why = fmt.Sprintf("%s via %s to %s, rule %s, servers [%s], answer %q %v, %v", tg.kind, how, tg.host+tg.path, tg.ru, strings.Join(text, "; "), ans, err, time.Since(start))
		got = nil
		for _, s := range tg.servers {
			s.mu.Lock()
			at, seen := s.got[tok]
			peer := s.peer[tok]
			s.mu.Unlock()
			if !seen {
				continue
			}
			got = s
			rev := s.d.revokedAt.Load()
			v, x := judge(tg.ru, s.d, rev > 0 && at.UnixNano() > rev, s.d.revoking.Load())
			if v == refuse {
				w.r.Violate("sent-to-wrong-server-"+tg.kind, vp.Log.Tail(30), "data reached a server that isn't the one that is configured (%s: %s): %s", s.d.name, x, why)
			}
			if tg.asks && peer != tg.host {
				w.r.Violate("own-identity-"+tg.kind, nil, "the proxy presented a certificate for %q instead of %q: %s", peer, tg.host, why)
			}
			if tg.asks {
				w.r.Count("own_identity_seen", 1)
			}
			if ans != s.id+" "+tok && err == nil {
				w.r.Violate("answer-"+tg.kind, nil, "the answer isn't the one that the server sent: %s", why)
			}
		}
		if ans != "" && got == nil {
			w.r.Violate("answer-from-nowhere-"+tg.kind, nil, "an answer without a request: %s", why)
		}
		if best == accept && (got == nil || err != nil) {
			return false, true
		}
		if best == refuse {
			w.r.Count("refused_"+tg.kind, 1)
		}
		if got != nil {
			w.r.Count("through_"+tg.kind, 1)
			if len(tg.servers) > 1 && best == accept {
				w.r.Count("through_of_several", 1)
			}
		}
		return true, true
	}
	// Connections that were closed in the meantime can fail a request.
	for k := range 3 {
		ok, _ := try()
		if ok {
			break
		}
		if k == 2 {
			w.r.Violate("legitimate-refused-"+tg.kind, vp.Log.Tail(30), "the configured server isn't used: %s", why)
		}
		time.Sleep(200 * time.Millisecond)
	}
	gid := ""
	if got != nil {
		gid = got.d.name
	}
	w.r.Eval(true, tg.kind, how, tg.ru.String(), len(tg.servers), gid)
}

func (w *world) run() {
	rnd := vh.Rand("p36", w.i)
	w.env = vp.NewEnv(w.t)
	w.idp = vp.NewIDP(w.t)
	w.cas = map[string]*vp.CA{"A": vp.NewCA("A"), "B": vp.NewCA("B"), "twin": vp.NewCA("A"), "other": vp.NewCA("other")}
	vh.MustWrite(w.t, filepath.Join(w.env.Dir, "B.pem"), []byte(w.cas["B"].PEM))
	hs := httptest.NewUnstartedServer(http.HandlerFunc(w.responder))
	hs.Config.ErrorLog = log.New(io.Discard, "", 0)
	hs.Start()
	defer hs.Close()
	w.rsp = hs.URL
	w.identities()
	static := len(w.ids)
	// The CAs of the proxy have to exist before their certificates.
	first := w.env.Config(true, &proxy.Backend{ServerNames: []string{"own.v.test"}, Mode: "LOCAL", SSO: &proxy.BackendSSO{Provider: "op", Paths: []string{"/certs"}}},
		&proxy.Backend{ServerNames: []string{"own2.v.test"}, Mode: "LOCAL", SSO: &proxy.BackendSSO{Provider: "op", Paths: []string{"/certs"}}},
		&proxy.Backend{ServerNames: []string{"login.v.test"}, Mode: "LOCAL"})
	first.OIDCProviders = []*proxy.ConfigOIDC{w.idp.Config("op", "login.v.test", "v.test")}
	first.PKI = []*proxy.ConfigPKI{{Name: "own", Endpoint: "https://own.v.test/certs", Admins: []string{"admin@v.test"}}, {Name: "own2", Endpoint: "https://own2.v.test/certs", Admins: []string{"admin@v.test"}}}
	w.p = w.env.Start(first)
	defer w.p.End()
	w.adm = w.p.Browser(vp.ClientOpt{})
	if _, err := w.adm.Login(w.idp, "https://own.v.test/certs", "admin@v.test"); err != nil {
		w.r.Inconclusive("login: %v", err)
		return
	}
	for range 6 {
		for _, n := range []string{"own", "own2"} {
			d := w.pkiIdent(n)
			if d == nil {
				return
			}
			// The same serial number, somewhere else.
			if w.seq.Load()%3 == 0 {
				sn := d.cert.Leaf.SerialNumber
				w.add("serial number of "+d.name+"@A", "A", w.cas["A"].Issue(vp.DNS(name), func(c *x509.Certificate) { c.SerialNumber = sn }))
			}
		}
	}
	for phase := range vh.N(3, 3) {
		w.tg = nil
		if err := w.p.Reconfigure(w.config(rnd)); err != nil {
			w.r.Violate("config", nil, "valid configuration refused: %v", err)
			return
		}
		all := func(round string, n int) {
			vh.Parallel(8, n, func(k int) {
				w.attempt(vh.Rand(fmt.Sprintf("p36/%d/%d/%s", w.i, phase, round), k), w.tg[k%len(w.tg)])
			})
		}
		all("a", 2*len(w.tg))
		// Half of the certificates are revoked.
		var revoked bool
		for k, d := range w.ids[static:] {
			if d.pki && !d.revoking.Load() && k%3 == phase {
				if !w.revoke(d) {
					return
				}
				revoked = true
			}
		}
		if revoked {
			all("b", 2*len(w.tg))
		}
	}
}

// TestP36 checks which upstream servers get to see anything.
func TestP36(t *testing.T) {
	r := vh.New(t, "requests and connections towards upstream servers with right and wrong identities")
	for i := range vh.N(2, 10) {
		t.Run(fmt.Sprint(i), func(t *testing.T) {
			(&world{t: t, r: r, i: i}).run()
		})
	}
	for _, k := range []string{"tls", "h1", "h2", "h3", "quic"} {
		r.NeedAtLeast("through_"+k, 20)
		r.NeedAtLeast("refused_"+k, 10)
	}
	r.NeedAtLeast("revoked", 2)
	r.NeedAtLeast("own_identity_seen", 10)
	r.NeedAtLeast("through_of_several", 10)
}

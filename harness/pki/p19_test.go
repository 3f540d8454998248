package pki

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"encoding/pem"
	"fmt"
	mrand "math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// sender delivers one management request as a user ("" is nobody).
type sender func(user, method, target string, hdr http.Header, body []byte) (int, http.Header, string)

// csrSpec is one generated certificate request and what it asks for.
type csrSpec struct {
	kind string
	key  crypto.Signer
	cn   string
	dns  []string
	pem  []byte
	ok   bool // a correctly signed request
}

var reqKeys = func() []crypto.Signer {
	var out []crypto.Signer
	for _, c := range []elliptic.Curve{elliptic.P256(), elliptic.P384(), elliptic.P256()} {
		k, _ := ecdsa.GenerateKey(c, rand.Reader)
		out = append(out, k)
	}
	_, e, _ := ed25519.GenerateKey(rand.Reader)
	r, _ := rsa.GenerateKey(rand.Reader, 2048)
	return append(out, e, r)
}()

var users19 = []string{"alice@v.test", "bob@v.test", "carol@v.test", "admin@v.test", "Alice@v.test", "alice@v.test.evil.test", "alice@v.tes", "xadmin@v.test", "dmin@v.test"}

func ext(critical bool, v any, oid ...int) pkix.Extension {
	b, err := asn1.Marshal(v)
	if err != nil {
		panic(err)
	}
	return pkix.Extension{Id: oid, Critical: critical, Value: b}
}

func genCSR(r *mrand.Rand, user string) *csrSpec {
	c := &csrSpec{key: reqKeys[r.Intn(len(reqKeys))], ok: true}
	other := users19[r.Intn(len(users19))]
	t := &x509.CertificateRequest{}
	switch r.Intn(8) {
	case 0:
	case 1:
		c.cn = "my phone"
	case 2:
		c.cn = other
	case 3:
		c.cn = "x,CN=" + other
	case 4:
		c.cn = "::" + other
	case 5:
		c.cn = "x\x00" + other
	case 6:
		c.cn = strings.Repeat("a", 60)
	default:
		c.cn = fmt.Sprint("dev-", r.Intn(1000))
	}
	t.Subject.CommonName = c.cn
	kinds := []string{}
	add := func(k string) { kinds = append(kinds, k) }
	if r.Intn(3) == 0 {
		add("subject")
		t.Subject.Organization = []string{"admin"}
		t.Subject.OrganizationalUnit = []string{other}
		t.Subject.SerialNumber = "1"
		t.Subject.ExtraNames = []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 1}, Value: other}}
		if r.Intn(2) == 0 {
			t.Subject.ExtraNames = append(t.Subject.ExtraNames, pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: other})
		}
	}
	if r.Intn(3) == 0 {
		add("email")
		t.EmailAddresses = []string{other}
	}
	if r.Intn(3) == 0 {
		add("dns")
		c.dns = []string{fmt.Sprintf("h%d.v.test", r.Intn(9))}
		t.DNSNames = c.dns
	}
	if r.Intn(4) == 0 {
		add("ip")
		t.IPAddresses = []net.IP{net.IPv4(10, 0, 0, 1)}
	}
	if r.Intn(4) == 0 {
		add("uri")
		u, _ := url.Parse("spiffe://v.test/" + other)
		t.URIs = []*url.URL{u}
	}
	if r.Intn(3) == 0 {
		add("ca")
		t.ExtraExtensions = append(t.ExtraExtensions, ext(true, struct {
			CA  bool
			Len int `asn1:"optional,default:-1"`
		}{true, 5}, 2, 5, 29, 19), ext(true, asn1.BitString{Bytes: []byte{0x06}, BitLength: 7}, 2, 5, 29, 15))
	}
	if r.Intn(4) == 0 {
		add("eku")
		t.ExtraExtensions = append(t.ExtraExtensions, ext(false, []asn1.ObjectIdentifier{{1, 3, 6, 1, 5, 5, 7, 3, 9}, {2, 5, 29, 37, 0}}, 2, 5, 29, 37))
	}
	raw, err := x509.CreateCertificateRequest(rand.Reader, t, c.key)
	if err != nil {
		raw, err = x509.CreateCertificateRequest(rand.Reader, &x509.CertificateRequest{}, c.key)
		c.cn, c.dns, kinds = "", nil, nil
		if err != nil {
			panic(err)
		}
	}
	typ := "CERTIFICATE REQUEST"
	switch r.Intn(14) {
	case 0: // a key that the requester doesn't have
		add("!pubkey")
		other := reqKeys[r.Intn(len(reqKeys))]
		spki, _ := x509.MarshalPKIXPublicKey(other.Public())
		mine, _ := x509.MarshalPKIXPublicKey(c.key.Public())
		if bytes.Equal(spki, mine) {
			break
		}
		if len(spki) == len(mine) {
			raw = bytes.Replace(raw, mine, spki, 1)
		} else {
			raw[len(raw)-5] ^= 1
		}
		c.ok = false
	case 1:
		add("!sig")
		raw[len(raw)-3-r.Intn(20)] ^= 1 << r.Intn(8)
		c.ok = false
	case 2:
		add("!subject")
		if c.cn != "" && bytes.Contains(raw, []byte(c.cn)) {
			raw = bytes.Replace(raw, []byte(c.cn), bytes.Repeat([]byte("z"), len(c.cn)), 1)
			c.ok = false
		}
	case 3:
		add("!trunc")
		raw = raw[:len(raw)-1-r.Intn(len(raw)-1)]
		c.ok = false
	}
	if r.Intn(6) == 0 {
		typ = "ANYTHING"
	}
	c.pem = pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: raw})
	if r.Intn(25) == 0 {
		add("!nopem")
		c.pem, c.ok = raw, false
	}
	c.kind = strings.Join(kinds, "+")
	return c
}

type owned struct {
	sn      string
	cert    *x509.Certificate
	owner   string
	revoked bool
}

func hexSN(c *x509.Certificate) string {
	var s []string
	for _, b := range c.SerialNumber.Bytes() {
		s = append(s, fmt.Sprintf("%02x", b))
	}
	return strings.Join(s, ":")
}

var snRE = regexp.MustCompile(`SerialNumber:</div><div>([0-9a-f:]+)</div>`)

// manage runs one history of management requests.
type manage struct {
	r       *vh.Run
	rnd     *mrand.Rand
	send    sender
	caPool  *x509.CertPool
	certs   []*owned
	serials map[string]bool
	log     []string
	// status reports what anybody can learn about a certificate.
	revoked func(*owned) (bool, bool)
	nobody  func(code int) bool // is this a correct answer to an unauthenticated request?
}

func (m *manage) fail(key, f string, a ...any) {
	m.r.Violate(key, map[string]any{"log": m.log[max(0, len(m.log)-30):]}, f, a...)
}

func csrf(r *mrand.Rand) (string, bool) {
	if r.Intn(5) > 0 {
		return "1", true
	}
	return []string{"", "0", "true", "1 1", "01"}[r.Intn(5)], false
}

func (m *manage) request() {
	user := append(users19, "", "alice@v.test", "bob@v.test")[m.rnd.Intn(len(users19)+3)]
	c := genCSR(m.rnd, user)
	h := http.Header{}
	tok, ok := csrf(m.rnd)
	if tok != "" {
		h.Set("X-Csrf-Check", tok)
	}
	ct := "application/x-pem-file"
	if m.rnd.Intn(8) == 0 {
		ct = []string{"", "text/plain", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "application/json"}[m.rnd.Intn(5)]
		ok = false
	}
	if ct != "" {
		h.Set("Content-Type", ct)
	}
	method := "POST"
	if m.rnd.Intn(10) == 0 {
		method = []string{"GET", "PUT", "HEAD", "DELETE"}[m.rnd.Intn(4)]
		ok = false
	}
	target := "?get=requestCert"
	if m.rnd.Intn(6) == 0 {
		target += "&admin=1&email=admin@v.test"
	}
	code, _, body := m.send(user, method, target, h, c.pem)
	expect := ok && c.ok && user != ""
	m.log = append(m.log, fmt.Sprintf("%s %s %s csr[%s cn=%q] csrf=%q ct=%q -> %d", user, method, target, c.kind, c.cn, tok, ct, code))
	var out struct{ Result, Cert string }
	json.Unmarshal([]byte(body), &out)
	got := strings.Contains(body, "BEGIN CERTIFICATE")
	m.r.Eval(true, "request", user, c.kind, tok, ct, method)
	if !got {
		if expect {
			m.fail("refused", "a correct certificate request of %s (%s) was refused: %d %s", user, c.kind, code, vh.Trunc(body, 80))
		}
		m.r.Count("refused_requests", 1)
		return
	}
	if !expect {
		m.fail("issued", "a certificate was issued for a request of %q that must be refused (csr %s, valid %v, csrf %q, %s %s)", user, c.kind, c.ok, tok, method, ct)
	}
	b, _ := pem.Decode([]byte(out.Cert))
	if b == nil {
		m.fail("issued-pem", "the answer has no certificate: %s", vh.Trunc(body, 80))
		return
	}
	cert, err := x509.ParseCertificate(b.Bytes)
	if err != nil {
		m.fail("issued-pem", "the certificate does not parse: %v", err)
		return
	}
	m.r.Count("issued", 1)
	bad := func(f string, a ...any) {
		m.fail("content", "certificate of %s (request %s): %s", user, c.kind, fmt.Sprintf(f, a...))
	}
	if len(cert.EmailAddresses) != 1 || cert.EmailAddresses[0] != user {
		bad("email addresses %q", cert.EmailAddresses)
	}
	if cert.IsCA || cert.KeyUsage&(x509.KeyUsageCertSign|x509.KeyUsageCRLSign) != 0 {
		bad("CA rights: IsCA %v key usage %b", cert.IsCA, cert.KeyUsage)
	}
	for _, e := range cert.ExtKeyUsage {
		if e != x509.ExtKeyUsageClientAuth && e != x509.ExtKeyUsageServerAuth {
			bad("extended key usage %v", e)
		}
	}
	if len(cert.UnknownExtKeyUsage) > 0 || len(cert.URIs) > 0 || len(cert.IPAddresses) > 0 {
		bad("unexpected names or usages: %v %v %v", cert.UnknownExtKeyUsage, cert.URIs, cert.IPAddresses)
	}
	if len(cert.Subject.Names) != 1 || cert.Subject.CommonName != user && !strings.HasPrefix(cert.Subject.CommonName, user+"::") {
		bad("subject %q", cert.Subject.String())
	}
	if strings.Join(cert.DNSNames, ",") != strings.Join(c.dns, ",") {
		bad("DNS names %q, requested %q", cert.DNSNames, c.dns)
	}
	if k, ok := cert.PublicKey.(interface{ Equal(crypto.PublicKey) bool }); !ok || !k.Equal(c.key.Public()) {
		bad("the public key is not the requester's")
	}
	if _, err := cert.Verify(x509.VerifyOptions{Roots: m.caPool, KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}}); err != nil {
		bad("does not chain to the CA: %v", err)
	}
	if time.Until(cert.NotBefore) > time.Second || !time.Now().Before(cert.NotAfter) {
		bad("validity %v to %v", cert.NotBefore, cert.NotAfter)
	}
	sn := hexSN(cert)
	if m.serials[sn] {
		bad("serial number %s was used before", sn)
	}
	m.serials[sn] = true
	m.certs = append(m.certs, &owned{sn: sn, cert: cert, owner: user})
}

func (m *manage) revoke() {
	if len(m.certs) == 0 {
		return
	}
	c := m.certs[m.rnd.Intn(len(m.certs))]
	user := users19[m.rnd.Intn(len(users19))]
	switch m.rnd.Intn(4) {
	case 0, 1:
		user = c.owner
	case 2:
		if m.rnd.Intn(3) == 0 {
			user = ""
		}
	}
	h := http.Header{}
	tok, ok := csrf(m.rnd)
	if tok != "" {
		h.Set("X-Csrf-Check", tok)
	}
	method := "POST"
	if m.rnd.Intn(8) == 0 {
		method = []string{"GET", "HEAD", "PUT"}[m.rnd.Intn(3)]
		ok = false
	}
	q := url.Values{"get": {"revokeCert"}}
	body := url.Values{}
	put := func(k, v string) {
		if m.rnd.Intn(2) == 0 {
			q.Set(k, v)
		} else {
			body.Set(k, v)
		}
	}
	put("sn", c.sn)
	admin := m.rnd.Intn(2) == 0
	if admin {
		put("admin", []string{"1", "true", "x"}[m.rnd.Intn(3)])
	}
	if len(body) > 0 {
		h.Set("Content-Type", "application/x-www-form-urlencoded")
		if method != "POST" && method != "PUT" {
			for k := range body {
				q.Set(k, body.Get(k))
			}
			body = nil
		}
	}
	was := c.revoked
	code, _, text := m.send(user, method, "?"+q.Encode(), h, []byte(body.Encode()))
	may := ok && (user == c.owner || user == "admin@v.test" && admin)
	m.log = append(m.log, fmt.Sprintf("%q %s revoke %s of %s admin=%v csrf=%q -> %d %s", user, method, c.sn[:8], c.owner, admin, tok, code, vh.Trunc(text, 40)))
	now, known := m.revoked(c)
	if !known {
		return
	}
	m.r.Eval(true, "revoke", user, c.owner, admin, tok, method, was)
	acked := strings.Contains(text, `"ok"`)
	switch {
	case was && !now:
		m.fail("unrevoked", "a revoked certificate is no longer revoked")
	case !was && now && !may:
		m.fail("revoked", "%q revoked a certificate of %s (admin %v, csrf %q, %s)", user, c.owner, admin, tok, method)
	case !was && !now && may:
		m.fail("not-revoked", "%s could not revoke a certificate of %s: %d %s", user, c.owner, code, vh.Trunc(text, 80))
	case acked && !now:
		m.fail("ack", "a revocation was acknowledged but the certificate is not revoked")
	case !was && now:
		m.r.Count("revoked", 1)
	default:
		m.r.Count("refused_revocations", 1)
	}
	c.revoked = now
}

// others checks that requests that change nothing change nothing.
func (m *manage) others() {
	user := users19[m.rnd.Intn(len(users19))]
	target := []string{"", "?status=all", "?status=revoked", "?owner=x&status=valid"}[m.rnd.Intn(4)]
	code, hdr, text := m.send(user, "GET", target, http.Header{}, nil)
	m.log = append(m.log, fmt.Sprintf("%s list %s -> %d", user, target, code))
	if code != 200 {
		m.fail("list", "%s cannot list certificates: %d", user, code)
		return
	}
	_ = hdr
	got := map[string]bool{}
	for _, x := range snRE.FindAllStringSubmatch(text, -1) {
		got[x[1]] = true
	}
	for _, c := range m.certs {
		want := c.owner == user && (target == "?status=all" || (target == "?status=revoked") == c.revoked)
		if got[c.sn] && c.owner != user {
			m.fail("list-other", "the list of %s's certificates has a certificate of %s", user, c.owner)
		}
		if got[c.sn] != want && c.owner == user {
			m.fail("list-own", "%s: certificate %s (revoked %v) in list %q: %v", user, c.sn[:8], c.revoked, target, got[c.sn])
		}
	}
	m.r.Count("lists", 1)
	m.r.Eval(true, "list", user, target, len(m.certs))
}

func (m *manage) walk(n int) {
	for range n {
		switch m.rnd.Intn(8) {
		case 0, 1, 2, 3:
			m.request()
		case 4, 5, 6:
			m.revoke()
		default:
			m.others()
		}
	}
	for _, c := range m.certs {
		if now, known := m.revoked(c); known && now != c.revoked {
			m.fail("final", "certificate %s of %s: revoked %v, expected %v", c.sn[:8], c.owner, now, c.revoked)
		}
	}
}

func pool(ca *x509.Certificate) *x509.CertPool {
	p := x509.NewCertPool()
	p.AddCert(ca)
	return p
}

func TestP19(t *testing.T) {
	r := vh.New(t, "certificate management on behalf of the user")
	defer r.NeedAtLeast("issued", 500)
	defer r.NeedAtLeast("revoked", 200)
	defer r.NeedAtLeast("refused_requests", 200)
	defer r.NeedAtLeast("refused_revocations", 200)
	defer r.NeedAtLeast("odd_claims", 100)
	dir := vh.Work(t)
	vh.Parallel(8, vh.N(80, 1200), func(i int) {
		rnd := vh.Rand("p19", i)
		mg, err := pki.New(pki.Options{Name: "p", KeyType: []string{"", "ecdsa-p384", "ed25519"}[rnd.Intn(3)], Endpoint: "https://pki.v.test/certs", Admins: []string{"admin@v.test"},
			Store: vp.NewStore(t, filepath.Join(dir, fmt.Sprint(i))), Logger: quiet{}, ClaimsFromCtx: claimsOf})
		if err != nil {
			r.Violate("start", nil, "%v", err)
			return
		}
		ca, _ := mg.CACert()
		send := func(claims jwt.MapClaims, method, target string, hdr http.Header, body []byte) *httptest.ResponseRecorder {
			req := httptest.NewRequest(method, "https://pki.v.test/certs"+target, bytes.NewReader(body))
			req.Header = hdr.Clone()
			if claims != nil {
				req = req.WithContext(context.WithValue(req.Context(), userKey{}, claims))
			}
			rec := httptest.NewRecorder()
			mg.ServeCertificateManagement(rec, req)
			return rec
		}
		m := &manage{r: r, rnd: rnd, caPool: pool(ca), serials: map[string]bool{}, revoked: func(c *owned) (bool, bool) { return mg.IsRevoked(c.cert.SerialNumber), true }}
		m.send = func(user, method, target string, hdr http.Header, body []byte) (int, http.Header, string) {
			var claims jwt.MapClaims
			if user != "" {
				claims = jwt.MapClaims{"email": user, "sub": user, "name": "Admin"}
			}
			rec := send(claims, method, target, hdr, body)
			return rec.Code, rec.Header(), rec.Body.String()
		}
		m.walk(vh.N(90, 120))
		if i < 2 {
			r.Sample(m.log[:min(len(m.log), 12)])
		}
		// Identities without an email address are no identities.
		for _, claims := range []jwt.MapClaims{nil, {}, {"sub": "x"}, {"email": ""}, {"email": 7}, {"email": []any{"alice@v.test"}}, {"Email": "alice@v.test"}} {
			for _, c := range m.certs[:min(3, len(m.certs))] {
				rec := send(claims, "POST", "?get=revokeCert&admin=1&sn="+c.sn, http.Header{"X-Csrf-Check": {"1"}}, nil)
				if now := mg.IsRevoked(c.cert.SerialNumber); now && !c.revoked {
					r.Violate("revoked", claims, "a request with claims %v revoked a certificate of %s: %s", claims, c.owner, rec.Body)
				}
			}
			csr := genCSR(rnd, "")
			rec := send(claims, "POST", "?get=requestCert", http.Header{"X-Csrf-Check": {"1"}, "Content-Type": {"application/x-pem-file"}}, csr.pem)
			if strings.Contains(rec.Body.String(), "BEGIN CERT") {
				r.Violate("no-identity", claims, "a certificate was issued to a request with claims %v", claims)
			}
			r.Count("odd_claims", 1)
		}
	})
}

// TestP19E2E drives the management endpoint of a running proxy with real logins.
func TestP19E2E(t *testing.T) {
	r := vh.New(t, "certificate management through the proxy")
	defer r.NeedAtLeast("issued", 60)
	defer r.NeedAtLeast("revoked", 20)
	e := vp.NewEnv(t)
	idp := vp.NewIDP(t)
	cfg := e.Config(false,
		&proxy.Backend{ServerNames: []string{"pki.v.test"}, Mode: "LOCAL", SSO: &proxy.BackendSSO{Provider: "op", Paths: []string{"/certs"}}},
		&proxy.Backend{ServerNames: []string{"open.v.test"}, Mode: "LOCAL"},
		&proxy.Backend{ServerNames: []string{"login.v.test"}, Mode: "LOCAL"},
	)
	cfg.OIDCProviders = []*proxy.ConfigOIDC{idp.Config("op", "login.v.test", "v.test")}
	cfg.PKI = []*proxy.ConfigPKI{
		{Name: "one", Endpoint: "https://pki.v.test/certs", IssuingCertificateURLs: []string{"https://open.v.test/ca.pem"}, OCSPServer: []string{"https://open.v.test/ocsp"}, CRLDistributionPoints: []string{"https://open.v.test/crl"}, Admins: []string{"admin@v.test"}},
		{Name: "two", Endpoint: "https://open.v.test/certs", IssuingCertificateURLs: []string{"https://open.v.test/ca2.pem"}, Admins: []string{"admin@v.test"}},
	}
	p := e.Start(cfg)
	defer p.End()
	anon := p.Browser(vp.ClientOpt{})
	res, err := anon.Get("https://open.v.test/ca.pem")
	if err != nil {
		t.Fatal(err)
	}
	b, _ := pem.Decode([]byte(res.Text))
	ca, err := x509.ParseCertificate(b.Bytes)
	if err != nil {
		t.Fatal(err)
	}
	browsers := map[string]*vp.Browser{}
	for _, u := range users19 {
		br := p.Browser(vp.ClientOpt{})
		if _, err := br.Login(idp, "https://pki.v.test/certs", u); err != nil {
			r.Inconclusive("login %s: %v", u, err)
		}
		browsers[u] = br
	}
	vh.Parallel(4, vh.N(4, 24), func(i int) {
		rnd := vh.Rand("p19e", i)
		m := &manage{r: r, rnd: rnd, caPool: pool(ca), serials: map[string]bool{}}
		m.revoked = func(c *owned) (bool, bool) {
			raw, _ := ocsp.CreateRequest(c.cert, ca, nil)
			res, err := anon.Do("POST", "https://open.v.test/ocsp", bytes.NewReader(raw), http.Header{"Content-Type": {"application/ocsp-request"}})
			if err != nil || res.StatusCode != 200 {
				r.Inconclusive("ocsp: %v", err)
				return false, false
			}
			resp, err := ocsp.ParseResponseForCert([]byte(res.Text), c.cert, ca)
			if err != nil {
				r.Inconclusive("ocsp: %v", err)
				return false, false
			}
			return resp.Status == ocsp.Revoked, true
		}
		m.send = func(user, method, target string, hdr http.Header, body []byte) (int, http.Header, string) {
			br := browsers[user]
			u := "https://pki.v.test/certs"
			if user == "" {
				br = p.Browser(vp.ClientOpt{})
				switch rnd.Intn(3) {
				case 0:
					u = "https://open.v.test/certs"
				case 1:
					hdr = hdr.Clone()
					hdr.Set("X-Tlsproxy-User-Id", "alice@v.test")
					hdr.Set("Authorization", "Bearer x")
					hdr.Set("Cookie", "TLSPROXYAUTH=x")
				}
			} else if rnd.Intn(15) == 0 {
				// the other CA is not on a backend with SSO
				res, err := br.Do("POST", "https://open.v.test/certs?get=requestCert", bytes.NewReader(body), hdr)
				if err == nil && strings.Contains(res.Text, "BEGIN CERT") {
					r.Violate("no-identity", nil, "a certificate was issued on a backend without SSO")
				}
			}
			res, err := br.Do(method, u+target, bytes.NewReader(body), hdr)
			if err != nil {
				r.Inconclusive("%s %s: %v", method, target, err)
				return 0, nil, ""
			}
			return res.StatusCode, res.Header, res.Text
		}
		// the histories share one CA: each knows only its own certificates
		for range vh.N(120, 300) {
			switch rnd.Intn(8) {
			case 0, 1, 2, 3:
				m.request()
			default:
				m.revoke()
			}
		}
	})
	for _, x := range vp.Log.TakePanics() {
		r.Violate("panic", x, "panic: %s", vh.Trunc(x, 300))
	}
}

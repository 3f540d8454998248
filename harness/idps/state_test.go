//go:build goexperiment.synctest

package idps

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/fxamacker/cbor/v2"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/storage"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/sshca"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
)

// sys is everything that keeps state in one directory.
type sys struct {
	tm  *tokenmanager.TokenManager
	pki *pki.PKIManager
	ssh *sshca.SSHCA
	pw  *pkWorld
}

func ctxClaims(ctx context.Context) jwt.MapClaims {
	c, _ := ctx.Value(claimsKey{}).(jwt.MapClaims)
	return c
}

// openSys starts everything, like the proxy does when it starts.
func openSys(store *storage.Storage) (*sys, error) {
	s := &sys{}
	var err error
	if s.tm, err = tokenmanager.New(store, nil, silent{}); err != nil {
		return nil, fmt.Errorf("tokenmanager: %w", err)
	}
	if s.pki, err = pki.New(pki.Options{Name: "the ca", Endpoint: "https://pki.v.test/", Store: store, Logger: silent{}, ClaimsFromCtx: ctxClaims, Admins: []string{"admin@v.test"}}); err != nil {
		return nil, fmt.Errorf("pki: %w", err)
	}
	if s.ssh, err = sshca.New(sshca.Options{Name: "ssh", Store: store, Logger: silent{}, ClaimsFromCtx: ctxClaims}); err != nil {
		return nil, fmt.Errorf("sshca: %w", err)
	}
	s.pw = &pkWorld{tm: s.tm, store: store, other: &otherIDP{}, cm: cookiemanager.New(s.tm, "pk", "v.test", pkIssuer), otherCM: cookiemanager.New(s.tm, "other", "v.test", pkIssuer)}
	if err := s.pw.restart(); err != nil {
		return nil, fmt.Errorf("passkeys: %w", err)
	}
	return s, nil
}

// event is one step of one operation, as its caller sees it.
type event struct {
	Phase string // begin, ok, err
	Op    string
	SN    string `json:",omitempty"`
	Raw   []byte `json:",omitempty"`
	Text  string `json:",omitempty"`
	Key   *mKey  `json:",omitempty"`
	ID    string `json:",omitempty"`
}

type mKey struct {
	User  string
	ID    []byte
	Priv  []byte
	State string // live, gone, adding, deleting
}

type mCert struct {
	Raw   []byte
	Owner string
	State string // good, revoked, revoking
}

// model is what the acknowledged operations amount to.
type model struct {
	Certs   map[string]*mCert
	CRLs    map[string]string
	MaxCRL  string
	Keys    []*mKey
	SSHKey  string
	CA      []byte
	Tokens  []string
	Unknown int  // certificates that may have been issued without anyone knowing
	Issuing bool // an issuance is in flight
	Ops     int
}

func newModel() *model { return &model{Certs: map[string]*mCert{}, CRLs: map[string]string{}} }

func (m *model) key(id string) *mKey {
	for _, k := range m.Keys {
		if hex.EncodeToString(k.ID) == id {
			return k
		}
	}
	return nil
}

func (m *model) apply(e event) {
	if e.Phase != "begin" {
		m.Ops++
	}
	switch e.Op + " " + e.Phase {
	case "start ok":
		if e.Text != "" {
			m.SSHKey = e.Text
		}
		if e.Raw != nil {
			m.CA = e.Raw
		}
	case "issue begin":
		m.Issuing = true
	case "issue ok":
		m.Issuing = false
		m.Certs[e.SN] = &mCert{Raw: e.Raw, Owner: e.Text, State: "good"}
	case "issue err":
		m.Issuing = false
	case "revoke begin":
		if c := m.Certs[e.SN]; c.State == "good" {
			c.State = "revoking"
		}
	case "revoke ok":
		m.Certs[e.SN].State = "revoked"
	case "revoke err":
		if c := m.Certs[e.SN]; c.State == "revoking" {
			c.State = "good"
		}
	case "crl ok":
		h := sha256.Sum256(e.Raw)
		m.CRLs[e.Text] = hex.EncodeToString(h[:])
		a, _ := new(big.Int).SetString(m.MaxCRL, 10)
		b, _ := new(big.Int).SetString(e.Text, 10)
		if a == nil || b.Cmp(a) > 0 {
			m.MaxCRL = e.Text
		}
	case "addkey begin":
		k := *e.Key
		k.State = "adding"
		m.Keys = append(m.Keys, &k)
	case "addkey ok":
		m.key(e.ID).State = "live"
	case "addkey err":
		m.key(e.ID).State = "gone"
	case "delkey begin":
		m.key(e.ID).State = "deleting"
	case "delkey ok":
		m.key(e.ID).State = "gone"
	case "delkey err":
		m.key(e.ID).State = "live"
	case "token ok":
		m.Tokens = append(m.Tokens, e.Text)
		if len(m.Tokens) > 40 {
			m.Tokens = m.Tokens[1:]
		}
	}
}

// crashed turns the operation that was in flight into one that may have happened.
func (m *model) crashed() {
	if m.Issuing {
		m.Issuing = false
		m.Unknown++
	}
}

func (k *mKey) pkey() *pkey {
	p, err := x509.ParsePKCS8PrivateKey(k.Priv)
	if err != nil {
		panic(err)
	}
	e := p.(*ecdsa.PrivateKey)
	out := &pkey{id: k.ID, priv: e, email: k.User}
	out.cose, _ = cbor.Marshal(map[int]any{1: 2, 3: -7, -1: 1, -2: e.X.FillBytes(make([]byte, 32)), -3: e.Y.FillBytes(make([]byte, 32))})
	return out
}

func newMKey(user string) *mKey {
	p, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	b, _ := x509.MarshalPKCS8PrivateKey(p)
	k := &mKey{User: user, ID: make([]byte, 20), Priv: b}
	rand.Read(k.ID)
	return k
}

var stateKey = func() crypto.Signer { k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader); return k }()

func (s *sys) pkiReq(user, method, target string, hdr http.Header, body []byte) *httptest.ResponseRecorder {
	req := httptest.NewRequest(method, "https://pki.v.test/"+target, bytes.NewReader(body))
	if hdr != nil {
		req.Header = hdr
	}
	req = req.WithContext(context.WithValue(req.Context(), claimsKey{}, jwt.MapClaims{"email": user}))
	rec := httptest.NewRecorder()
	s.pki.ServeCertificateManagement(rec, req)
	return rec
}

func snText(n *big.Int) string {
	var p []string
	for _, b := range n.Bytes() {
		p = append(p, fmt.Sprintf("%02x", b))
	}
	return strings.Join(p, ":")
}

var stateUsers = []string{"alice@corp.example", "bob@ok.example", "carol@v.test"}

// started reports what never changes.
func (s *sys) started() event {
	rec := httptest.NewRecorder()
	s.ssh.ServePublicKey(rec, httptest.NewRequest("GET", "https://v.test/ssh", nil))
	ca, err := s.pki.CACert()
	if err != nil {
		return event{Op: "start", Phase: "err", Text: err.Error()}
	}
	return event{Op: "start", Phase: "ok", Text: rec.Body.String(), Raw: ca.Raw}
}

func (s *sys) issue(user string, emit func(event)) {
	emit(event{Op: "issue", Phase: "begin"})
	csr, err := x509.CreateCertificateRequest(rand.Reader, &x509.CertificateRequest{Subject: pkix.Name{CommonName: "dev"}}, stateKey)
	if err != nil {
		panic(err)
	}
	rec := s.pkiReq(user, "POST", "?get=requestCert", http.Header{"X-Csrf-Check": {"1"}, "Content-Type": {"application/x-pem-file"}}, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: csr}))
	var out struct{ Cert string }
	json.Unmarshal(rec.Body.Bytes(), &out)
	if b, _ := pem.Decode([]byte(out.Cert)); b != nil {
		c, err := x509.ParseCertificate(b.Bytes)
		if err != nil {
			panic(err)
		}
		emit(event{Op: "issue", Phase: "ok", SN: snText(c.SerialNumber), Raw: b.Bytes, Text: user})
		return
	}
	emit(event{Op: "issue", Phase: "err", Text: fmt.Sprint(rec.Code)})
}

func (s *sys) revoke(sn, user string, emit func(event)) {
	emit(event{Op: "revoke", Phase: "begin", SN: sn})
	rec := s.pkiReq(user, "POST", "?get=revokeCert&sn="+sn, http.Header{"X-Csrf-Check": {"1"}}, nil)
	if rec.Code == 200 && strings.Contains(rec.Body.String(), `"ok"`) {
		emit(event{Op: "revoke", Phase: "ok", SN: sn})
		return
	}
	emit(event{Op: "revoke", Phase: "err", SN: sn, Text: fmt.Sprint(rec.Code, " ", rec.Body)})
}

func (s *sys) crl(emit func(event)) *x509.RevocationList {
	rec := httptest.NewRecorder()
	s.pki.ServeCRL(rec, httptest.NewRequest("GET", "https://pki.v.test/crl", nil))
	rl, err := x509.ParseRevocationList(rec.Body.Bytes())
	if rec.Code != 200 || err != nil {
		emit(event{Op: "crl", Phase: "err", Text: fmt.Sprint(rec.Code)})
		return nil
	}
	emit(event{Op: "crl", Phase: "ok", Raw: rec.Body.Bytes(), Text: rl.Number.String()})
	return rl
}

// login logs in with k; mgmt asks for a session that can manage keys.
func (s *sys) login(k *mKey, mgmt bool) (*browser, int) {
	orig := "https://app.v.test/"
	if mgmt {
		orig = "https://" + pkHost + "/.sso/passkeys"
	}
	b := &browser{jar: map[string]string{}}
	if !s.pw.begin(b, orig) {
		return nil, -1
	}
	chal, _ := challengeOf(s.pw.cb(b, "AssertionOptions", url.Values{"loginId": {k.User}}, true))
	p := k.pkey()
	cd, ad := clientData("webauthn.get", chal, "https://"+pkHost), authData(pkHost, 5, nil)
	rec := s.pw.cb(b, "Check", assArgs(p.id, cd, ad, p.sign(ad, cd), nil, k.User), true)
	if c := granted(rec); c != nil && c["email"] == k.User {
		return b, 200
	}
	return nil, rec.Code
}

func attForm(p *pkey, chal string) url.Values {
	ao, _ := cbor.Marshal(map[string]any{"fmt": "none", "attStmt": map[string]any{}, "authData": authData(pkHost, 0x45, p)})
	return attArgs(clientData("webauthn.create", chal, "https://"+pkHost), ao)
}

// addKey registers another key, or the first one, of a user.
func (s *sys) addKey(m *model, user string, emit func(event)) {
	var have *mKey
	for _, k := range m.Keys {
		if k.User == user && k.State == "live" {
			have = k
		}
	}
	k := newMKey(user)
	id := hex.EncodeToString(k.ID)
	var rec *httptest.ResponseRecorder
	if have == nil {
		b := &browser{jar: map[string]string{}}
		if !s.pw.begin(b, "https://app.v.test/x") {
			return
		}
		s.pw.otherLogin(b, &pkUser{email: user, sub: "s-" + user})
		chal, _ := challengeOf(s.pw.cb(b, "AttestationOptions", nil, true))
		emit(event{Op: "addkey", Phase: "begin", Key: k})
		rec = s.pw.cb(b, "AddKey", attForm(k.pkey(), chal), true)
		if rec.Code == 200 && granted(rec) != nil {
			emit(event{Op: "addkey", Phase: "ok", ID: id})
			return
		}
	} else {
		b, _ := s.login(have, true)
		if b == nil {
			return
		}
		chal, _ := challengeOf(s.pw.manage(b, "AttestationOptions", nil, true))
		emit(event{Op: "addkey", Phase: "begin", Key: k})
		rec = s.pw.manage(b, "AddKey", attForm(k.pkey(), chal), true)
		if rec.Code == 200 && strings.Contains(rec.Body.String(), `"ok"`) {
			emit(event{Op: "addkey", Phase: "ok", ID: id})
			return
		}
	}
	emit(event{Op: "addkey", Phase: "err", ID: id, Text: fmt.Sprint(rec.Code, " ", rec.Body)})
}

func (s *sys) delKey(m *model, user string, emit func(event)) {
	var live []*mKey
	for _, k := range m.Keys {
		if k.User == user && k.State == "live" {
			live = append(live, k)
		}
	}
	if len(live) < 2 {
		return
	}
	b, _ := s.login(live[0], true)
	if b == nil {
		return
	}
	id := hex.EncodeToString(live[1].ID)
	emit(event{Op: "delkey", Phase: "begin", ID: id})
	rec := s.pw.manage(b, "DeleteKey", url.Values{"id": {id}}, true)
	if rec.Code == 200 && strings.Contains(rec.Body.String(), `"ok"`) {
		emit(event{Op: "delkey", Phase: "ok", ID: id})
		return
	}
	emit(event{Op: "delkey", Phase: "err", ID: id, Text: fmt.Sprint(rec.Code, " ", rec.Body)})
}

func (s *sys) token(emit func(event)) {
	tok, err := s.tm.CreateToken(jwt.MapClaims{"sub": "x", "exp": time.Now().Add(100 * time.Hour).Unix()}, []string{"", "ES256", "RS256"}[time.Now().Nanosecond()/1000%3])
	if err != nil {
		emit(event{Op: "token", Phase: "err"})
		return
	}
	emit(event{Op: "token", Phase: "ok", Text: tok})
}

func (m *model) serials(state string) (out []string) {
	for sn, c := range m.Certs {
		if c.State == state {
			out = append(out, sn)
		}
	}
	sortStrings(out)
	return
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// step performs one random operation. When only is set, it is that operation.
func (s *sys) step(rnd *mrand.Rand, m *model, only string, emit func(event)) {
	user := stateUsers[rnd.Intn(len(stateUsers))]
	op := only
	if op == "" {
		op = []string{"issue", "issue", "revoke", "revoke", "crl", "addkey", "addkey", "delkey", "login", "token"}[rnd.Intn(10)]
	}
	switch op {
	case "issue":
		s.issue(user, emit)
	case "revoke":
		if sns := m.serials("good"); len(sns) > 0 {
			sn := sns[rnd.Intn(len(sns))]
			s.revoke(sn, m.Certs[sn].Owner, emit)
		}
	case "crl":
		s.crl(emit)
	case "addkey":
		s.addKey(m, user, emit)
	case "delkey":
		s.delKey(m, user, emit)
	case "login":
		for _, k := range m.Keys {
			if k.User == user && k.State == "live" {
				s.login(k, false)
				emit(event{Op: "login", Phase: "ok"})
				return
			}
		}
	case "token":
		s.token(emit)
	}
}

var listRE = regexp.MustCompile(`SerialNumber:</div><div>([0-9a-f:]+)</div>`)

// audit compares the system with the model and settles what was in flight.
func (s *sys) audit(r *vh.Run, m *model, when string, fail func(key, f string, a ...any)) {
	st := s.started()
	if m.SSHKey != "" && st.Text != m.SSHKey {
		fail("ssh-key", "%s: the SSH CA key changed", when)
	}
	if m.CA != nil && !bytes.Equal(st.Raw, m.CA) {
		fail("ca", "%s: the CA certificate changed", when)
	}
	m.apply(st)
	for _, t := range m.Tokens {
		if _, err := s.tm.ValidateToken(t); err != nil {
			fail("token", "%s: a token issued earlier is refused: %v", when, err)
		}
	}
	// what is listed
	rec := s.pkiReq("admin@v.test", "GET", "?owner=all&status=all", nil, nil)
	listed := map[string]bool{}
	for _, x := range listRE.FindAllStringSubmatch(rec.Body.String(), -1) {
		listed[x[1]] = true
	}
	ca, _ := s.pki.CACert()
	unknown := 0
	for sn := range listed {
		if m.Certs[sn] != nil || sn == snText(ca.SerialNumber) {
			continue
		}
		d := s.pkiReq("admin@v.test", "GET", "?get=downloadCert&sn="+sn, nil, nil)
		if b, _ := pem.Decode(d.Body.Bytes()); b != nil {
			if c, err := x509.ParseCertificate(b.Bytes); err == nil && c.IsCA {
				continue // a delegate
			}
		}
		unknown++
	}
	if unknown > m.Unknown {
		fail("phantom-cert", "%s: %d certificates are listed that nobody was given", when, unknown-m.Unknown)
		m.Unknown = unknown
	}
	rl := s.crl(func(e event) {
		if e.Phase != "ok" {
			fail("crl", "%s: the CRL cannot be fetched: %s", when, e.Text)
			return
		}
		h := sha256.Sum256(e.Raw)
		if old, ok := m.CRLs[e.Text]; ok && old != hex.EncodeToString(h[:]) {
			fail("crl-number", "%s: CRL number %s was used for two lists", when, e.Text)
		} else if !ok && m.MaxCRL != "" {
			a, _ := new(big.Int).SetString(m.MaxCRL, 10)
			b, _ := new(big.Int).SetString(e.Text, 10)
			if b.Cmp(a) <= 0 {
				fail("crl-number", "%s: a new CRL has number %s, after %s", when, e.Text, m.MaxCRL)
			}
		}
		m.apply(e)
	})
	onCRL := map[string]bool{}
	if rl != nil {
		for _, e := range rl.RevokedCertificateEntries {
			onCRL[snText(e.SerialNumber)] = true
		}
	}
	for sn, c := range m.Certs {
		cert, _ := x509.ParseCertificate(c.Raw)
		raw, _ := ocsp.CreateRequest(cert, ca, nil)
		req, _ := ocsp.ParseRequest(raw)
		status := -1
		var reason int
		if b, err := s.pki.OCSPResponse(req); err == nil {
			if resp, err := ocsp.ParseResponse(b, ca); err == nil {
				status, reason = resp.Status, resp.RevocationReason
			}
		}
		if !listed[sn] {
			fail("lost-cert", "%s: an issued certificate is not listed", when)
		}
		isRev := s.pki.IsRevoked(cert.SerialNumber)
		all := isRev && status == ocsp.Revoked && reason != ocsp.CertificateHold && onCRL[sn]
		none := !isRev && status == ocsp.Good && !onCRL[sn]
		desc := fmt.Sprintf("handshake says revoked=%v, OCSP status %d reason %d, on the CRL %v", isRev, status, reason, onCRL[sn])
		switch {
		case c.State == "good" && !none:
			fail("phantom-revocation", "%s: a certificate whose revocation was never acknowledged: %s", when, desc)
			c.State = "revoked"
		case c.State == "revoked" && !all:
			fail("lost-revocation", "%s: a certificate whose revocation was acknowledged: %s", when, desc)
		case c.State == "revoking" && !all && !none:
			fail("half-revocation", "%s: a certificate whose revocation was interrupted: %s", when, desc)
		case c.State == "revoking" && all:
			c.State = "revoked"
			r.Count("settled_done", 1)
		case c.State == "revoking":
			c.State = "good"
			r.Count("settled_undone", 1)
		}
		r.Count("certs_audited", 1)
	}
	for _, k := range m.Keys {
		b, code := s.login(k, false)
		in := b != nil
		switch {
		case k.State == "live" && !in:
			fail("lost-key", "%s: a registered passkey of %s cannot log in (%d)", when, k.User, code)
			k.State = "gone"
		case k.State == "gone" && in:
			fail("phantom-key", "%s: a passkey of %s whose deletion was acknowledged or whose registration failed logs in", when, k.User)
			k.State = "live"
		case (k.State == "adding" || k.State == "deleting") && in:
			k.State = "live"
			r.Count("settled_done", 1)
		case k.State == "adding" || k.State == "deleting":
			k.State = "gone"
			r.Count("settled_undone", 1)
		}
		r.Count("keys_audited", 1)
	}
	r.Count("audits", 1)
}

var _ = base64.StdEncoding
var _ testing.TB

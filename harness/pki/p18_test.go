//go:build goexperiment.synctest

package pki

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"hash"
	"math/big"
	mrand "math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path/filepath"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/storage"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// issued is what the specification knows about one certificate.
type issued struct {
	cert    *x509.Certificate
	revoked bool // acknowledged
	trying  bool // a revocation is in flight or its outcome unknown
	twice   bool // revoked more than once: the reason is not specified
	reason  int
	at      time.Time
}

var clientKeys = func() []crypto.Signer {
	var out []crypto.Signer
	for range 4 {
		k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		out = append(out, k)
	}
	_, e, _ := ed25519.GenerateKey(rand.Reader)
	return append(out, e)
}()

// world is one CA and the history of everything it answered.
type world struct {
	r       *vh.Run
	i       int
	rnd     *mrand.Rand
	dir     string
	name    string
	keyType string
	m       *pki.PKIManager

	mu      sync.Mutex
	certs   []*issued
	serials map[string]bool
	crls    map[string][]byte // number -> bytes
	lastNum *big.Int
	solo    bool // no other request is being served
	log     []string
	start   time.Time
}

func (w *world) note(f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.log = append(w.log, fmt.Sprintf("%v ", time.Since(w.start).Truncate(time.Millisecond))+fmt.Sprintf(f, a...))
}

func (w *world) fail(key, f string, a ...any) {
	w.mu.Lock()
	l := append([]string(nil), w.log[max(0, len(w.log)-40):]...)
	w.mu.Unlock()
	w.r.Violate(key, map[string]any{"world": w.i, "keyType": w.keyType, "log": l}, f, a...)
}

func (w *world) open(store *storage.Storage) bool {
	m, err := pki.New(pki.Options{
		Name: w.name, KeyType: w.keyType, Endpoint: "https://pki.v.test/certs",
		IssuingCertificateURL: []string{"https://pki.v.test/ca.pem"}, CRLDistributionPoints: []string{"https://pki.v.test/crl.pem"},
		OCSPServer: []string{"https://pki.v.test/ocsp"}, Admins: []string{"admin@v.test"},
		Store: store, Logger: quiet{}, ClaimsFromCtx: claimsOf,
	})
	if err != nil {
		w.fail("start", "the PKI manager does not start: %v", err)
		return false
	}
	w.m = m
	return true
}

func (w *world) get(h http.HandlerFunc, p string) []byte {
	rec := httptest.NewRecorder()
	h(rec, httptest.NewRequest("GET", "https://pki.v.test"+p, nil))
	if rec.Code != 200 {
		w.fail("fetch", "GET %s: %d %s", p, rec.Code, vh.Trunc(rec.Body.String(), 80))
		return nil
	}
	return rec.Body.Bytes()
}

// published returns the CA certificate and the delegates as anyone can fetch them.
func (w *world) published() (ca *x509.Certificate, all []*x509.Certificate) {
	var certs []*x509.Certificate
	var err error
	if w.flip() {
		rest := w.get(w.m.ServeCACert, "/ca.pem")
		for {
			var b *pem.Block
			if b, rest = pem.Decode(rest); b == nil {
				break
			}
			c, err := x509.ParseCertificate(b.Bytes)
			if err != nil {
				w.fail("ca-cert", "published certificate: %v", err)
				return nil, nil
			}
			certs = append(certs, c)
		}
	} else if certs, err = x509.ParseCertificates(w.get(w.m.ServeCACert, "/ca.crt")); err != nil {
		w.fail("ca-cert", "published certificates: %v", err)
		return nil, nil
	}
	if len(certs) == 0 {
		w.fail("ca-cert", "no published certificate")
		return nil, nil
	}
	if c, err := w.m.CACert(); err != nil || !c.Equal(certs[0]) {
		w.fail("ca-cert", "the published CA certificate is not the CA's (%v)", err)
	}
	return certs[0], certs
}

func (w *world) flip() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rnd.Intn(2) == 0
}

func (w *world) pick(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rnd.Intn(n)
}

// signer checks that c may sign revocation information for ca right now.
func (w *world) signer(what string, c, ca *x509.Certificate, ocspUse bool) {
	pool := x509.NewCertPool()
	pool.AddCert(ca)
	eku := []x509.ExtKeyUsage{x509.ExtKeyUsageAny}
	if ocspUse {
		eku = []x509.ExtKeyUsage{x509.ExtKeyUsageOCSPSigning}
	}
	cp := *c
	cp.UnhandledCriticalExtensions = nil
	if c.Equal(ca) {
		return
	}
	if _, err := cp.Verify(x509.VerifyOptions{Roots: pool, KeyUsages: eku, CurrentTime: time.Now()}); err != nil {
		w.fail(what+"-signer", "the certificate that signs the %s (valid %v to %v) does not verify now: %v", what, c.NotBefore, c.NotAfter, err)
	}
}

// snapshot says which serials must, and which may, be reported revoked.
func (w *world) snapshot() (must, may map[string]*issued, all []*issued) {
	w.mu.Lock()
	defer w.mu.Unlock()
	must, may = map[string]*issued{}, map[string]*issued{}
	for _, c := range w.certs {
		if c.revoked {
			must[c.cert.SerialNumber.String()] = c
		}
		if c.revoked || c.trying {
			may[c.cert.SerialNumber.String()] = c
		}
	}
	return must, may, append([]*issued(nil), w.certs...)
}

func (w *world) crl() {
	must, _, _ := w.snapshot()
	var signCert *x509.Certificate
	var raw []byte
	how := w.pick(3)
	switch how {
	case 0:
		c, b, err := w.m.RevocationList()
		if err != nil {
			w.fail("crl", "RevocationList: %v", err)
			return
		}
		raw = b
		if signCert, err = x509.ParseCertificate(c); err != nil {
			w.fail("crl", "RevocationList certificate: %v", err)
			return
		}
	case 1:
		rest := w.get(w.m.ServeCRL, "/crl.pem")
		for {
			var b *pem.Block
			if b, rest = pem.Decode(rest); b == nil {
				break
			}
			if b.Type == "X509 CRL" {
				raw = b.Bytes
			} else {
				signCert, _ = x509.ParseCertificate(b.Bytes)
			}
		}
	default:
		raw = w.get(w.m.ServeCRL, "/crl")
	}
	now := time.Now()
	_, may, all := w.snapshot()
	rl, err := x509.ParseRevocationList(raw)
	if err != nil {
		w.fail("crl", "the CRL does not parse: %v", err)
		return
	}
	ca, pub := w.published()
	if ca == nil {
		return
	}
	if signCert == nil {
		for _, c := range pub {
			if rl.CheckSignatureFrom(c) == nil {
				signCert = c
			}
		}
	}
	if signCert == nil {
		w.fail("crl-signer", "the CRL is signed by none of the published certificates")
		return
	}
	if err := rl.CheckSignatureFrom(signCert); err != nil {
		w.fail("crl-signer", "the CRL's signature does not verify: %v", err)
	}
	w.signer("CRL", signCert, ca, false)
	if rl.ThisUpdate.After(now) || !now.Before(rl.NextUpdate) {
		w.fail("crl-expired", "a CRL with thisUpdate %v and nextUpdate %v was served at %v", rl.ThisUpdate, rl.NextUpdate, now)
	}
	got := map[string]bool{}
	for _, e := range rl.RevokedCertificateEntries {
		s := e.SerialNumber.String()
		got[s] = true
		c := may[s]
		if c == nil {
			w.fail("crl-extra", "the CRL lists %s, which was never revoked", s)
			continue
		}
		w.mu.Lock()
		known, reason := c.revoked, c.reason
		w.mu.Unlock()
		if known && reason >= 0 && e.ReasonCode != reason {
			w.fail("crl-reason", "the CRL gives reason %d for a certificate revoked with reason %d", e.ReasonCode, reason)
		}
	}
	for s, c := range must {
		if !got[s] && now.Before(c.cert.NotAfter) {
			w.fail("crl-missing", "CRL %v served at %v (thisUpdate %v) does not list a certificate whose revocation was acknowledged at %v", rl.Number, now, rl.ThisUpdate, c.at)
		}
	}
	w.mu.Lock()
	num := rl.Number.String()
	old, seen := w.crls[num]
	w.crls[num] = raw
	w.mu.Unlock()
	if seen && !bytes.Equal(old, raw) {
		w.fail("crl-number", "two different CRLs have number %s", num)
	}
	w.r.Count("crls", 1)
	if !seen {
		w.r.Count("crl_generations", 1)
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.lastNum != nil && w.solo && rl.Number.Cmp(w.lastNum) <= 0 {
			w.r.Violate("crl-number", map[string]any{"world": w.i, "log": w.log}, "a new CRL has number %v, after %v", rl.Number, w.lastNum)
		}
		if w.lastNum == nil || rl.Number.Cmp(w.lastNum) > 0 {
			w.lastNum = rl.Number
		}
	}
	w.r.Eval(len(must) > 0, w.i, num, len(all), how)
}

var hashes = []struct {
	h   crypto.Hash
	oid asn1.ObjectIdentifier
	new func() hash.Hash
}{
	{crypto.SHA1, asn1.ObjectIdentifier{1, 3, 14, 3, 2, 26}, sha1.New},
	{crypto.SHA256, asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 1}, sha256.New},
	{crypto.SHA512, asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 3}, sha512.New},
}

// certID is the CertID of an OCSP request or response.
type certID struct {
	HashAlgorithm pkix.AlgorithmIdentifier
	NameHash      []byte
	IssuerKeyHash []byte
	SerialNumber  *big.Int
}

// responseID extracts the CertID of the first answer of an OCSP response.
func responseID(raw []byte) (*certID, error) {
	var resp struct {
		Status   asn1.Enumerated
		Response struct {
			ResponseType asn1.ObjectIdentifier
			Response     []byte
		} `asn1:"explicit,tag:0,optional"`
	}
	if _, err := asn1.Unmarshal(raw, &resp); err != nil {
		return nil, err
	}
	var basic struct {
		TBS struct {
			Version     int `asn1:"optional,default:0,explicit,tag:0"`
			ResponderID asn1.RawValue
			ProducedAt  time.Time `asn1:"generalized"`
			Responses   []asn1.RawValue
			Ext         asn1.RawValue `asn1:"optional"`
		}
		Alg  pkix.AlgorithmIdentifier
		Sig  asn1.BitString
		Cert []asn1.RawValue `asn1:"explicit,tag:0,optional"`
	}
	if _, err := asn1.Unmarshal(resp.Response.Response, &basic); err != nil {
		return nil, err
	}
	if len(basic.TBS.Responses) != 1 {
		return nil, fmt.Errorf("%d answers", len(basic.TBS.Responses))
	}
	var id certID
	if _, err := asn1.Unmarshal(basic.TBS.Responses[0].Bytes, &id); err != nil {
		return nil, err
	}
	return &id, nil
}

func (w *world) rawOCSP(raw []byte) []byte {
	rec := httptest.NewRecorder()
	how := w.pick(5)
	switch how {
	case 0:
		req := httptest.NewRequest("POST", "https://pki.v.test/ocsp", bytes.NewReader(raw))
		req.Header.Set("content-type", "application/ocsp-request")
		w.m.ServeOCSP(rec, req)
	case 1:
		w.m.ServeOCSP(rec, httptest.NewRequest("GET", "https://pki.v.test/ocsp/"+url.QueryEscape(base64.StdEncoding.EncodeToString(raw)), nil))
	case 2:
		w.m.ServeOCSP(rec, httptest.NewRequest("GET", "https://pki.v.test/ocsp/"+base64.RawURLEncoding.EncodeToString(raw), nil))
	default:
		req, err := ocsp.ParseRequest(raw)
		if err != nil {
			return nil
		}
		b, err := w.m.OCSPResponse(req)
		if err != nil {
			w.fail("ocsp-refused", "OCSPResponse: %v", err)
			return nil
		}
		return b
	}
	if rec.Code != 200 || rec.Header().Get("content-type") != "application/ocsp-response" {
		w.fail("ocsp-refused", "a valid OCSP request (method %d, %x) was answered %d %s", how, raw, rec.Code, vh.Trunc(rec.Body.String(), 60))
		return nil
	}
	return rec.Body.Bytes()
}

func (w *world) ocsp(c *issued) {
	ca, _ := w.published()
	if ca == nil {
		return
	}
	h := hashes[w.pick(len(hashes))]
	raw, err := ocsp.CreateRequest(c.cert, ca, &ocsp.RequestOptions{Hash: h.h})
	if err != nil {
		w.r.Inconclusive("CreateRequest: %v", err)
		return
	}
	w.mu.Lock()
	must := c.revoked
	w.mu.Unlock()
	b := w.rawOCSP(raw)
	if b == nil {
		return
	}
	now := time.Now()
	w.mu.Lock()
	may := c.revoked || c.trying
	// Read after the answer: another goroutine may have begun to revoke the
	// certificate again in the meantime.
	reason := c.reason
	w.mu.Unlock()
	resp, err := ocsp.ParseResponseForCert(b, c.cert, ca)
	if err != nil {
		w.fail("ocsp-invalid", "the OCSP response does not verify: %v", err)
		return
	}
	if resp.Certificate != nil {
		w.signer("OCSP", resp.Certificate, ca, true)
	}
	if resp.ThisUpdate.After(now) || !now.Before(resp.NextUpdate) {
		w.fail("ocsp-expired", "an OCSP response for %v to %v was served at %v", resp.ThisUpdate, resp.NextUpdate, now)
	}
	if id, err := responseID(b); err != nil {
		w.fail("ocsp-invalid", "the OCSP response does not parse: %v", err)
	} else if !id.HashAlgorithm.Algorithm.Equal(h.oid) {
		w.fail("ocsp-id", "the answer to an OCSP request with %v identifies the certificate with another hash (%v): clients do not recognize it", h.h, id.HashAlgorithm.Algorithm)
	}
	switch {
	case must && resp.Status != ocsp.Revoked:
		w.fail("ocsp-revoked", "OCSP status %d for a certificate revoked at %v", resp.Status, c.at)
	case !may && resp.Status != ocsp.Good:
		w.fail("ocsp-good", "OCSP status %d for a certificate that is not revoked", resp.Status)
	case must && reason >= 0 && resp.RevocationReason != reason:
		w.fail("ocsp-reason", "OCSP reason %d for a certificate revoked with reason %d", resp.RevocationReason, reason)
	}
	if must {
		w.r.Count("ocsp_revoked", 1)
	} else {
		w.r.Count("ocsp_good", 1)
	}
	w.mu.Lock()
	n := len(w.certs)
	w.mu.Unlock()
	w.r.Eval(must, w.i, n, resp.Status, h.h)
}

// stranger asks about a certificate of another CA with the serial of one of ours.
func (w *world) stranger(other *vp.CA) {
	c := other.Issue(vp.CN("x"))
	leaf, _ := x509.ParseCertificate(c.Certificate[0])
	raw, err := ocsp.CreateRequest(leaf, other.Cert, nil)
	if err != nil {
		return
	}
	b := w.rawOCSP(raw)
	if b == nil {
		return
	}
	ca, _ := w.published()
	if resp, err := ocsp.ParseResponse(b, ca); err != nil {
		w.fail("ocsp-invalid", "the OCSP response does not verify: %v", err)
	} else if resp.Status != ocsp.Unknown {
		w.fail("ocsp-unknown", "OCSP status %d for a certificate of another CA", resp.Status)
	}
	w.r.Count("ocsp_unknown", 1)
}

// neverIssued asks about a serial number that the CA did not issue.
func (w *world) neverIssued() {
	ca, _ := w.published()
	if ca == nil {
		return
	}
	sn, err := rand.Int(rand.Reader, new(big.Int).Lsh(big.NewInt(1), uint(8+w.pick(152))))
	if err != nil {
		return
	}
	w.mu.Lock()
	n := len(w.certs)
	w.mu.Unlock()
	if n > 0 && w.pick(2) == 0 {
		w.mu.Lock()
		sn = new(big.Int).Add(w.certs[n-1].cert.SerialNumber, big.NewInt(1))
		w.mu.Unlock()
	}
	raw, err := ocsp.CreateRequest(&x509.Certificate{SerialNumber: sn}, ca, nil)
	if err != nil {
		w.r.Inconclusive("CreateRequest: %v", err)
		return
	}
	b := w.rawOCSP(raw)
	if b == nil {
		return
	}
	if resp, err := ocsp.ParseResponse(b, ca); err != nil {
		w.fail("ocsp-invalid", "the OCSP response does not verify: %v", err)
	} else if resp.Status != ocsp.Revoked || resp.RevocationReason != ocsp.CertificateHold {
		w.fail("ocsp-never-issued", "OCSP status %d, reason %d, for the serial number %x that was never issued", resp.Status, resp.RevocationReason, sn)
	} else if resp.SerialNumber.Cmp(sn) != 0 {
		w.fail("ocsp-never-issued", "the OCSP answer about %x is about %x", sn, resp.SerialNumber)
	}
	w.r.Count("ocsp_never_issued", 1)
}

func (w *world) handshake(c *issued) {
	w.mu.Lock()
	must := c.revoked
	w.mu.Unlock()
	got := w.m.IsRevoked(c.cert.SerialNumber)
	w.mu.Lock()
	may := c.revoked || c.trying
	w.mu.Unlock()
	if must && !got {
		w.fail("handshake-revoked", "IsRevoked is false for a certificate revoked at %v", c.at)
	}
	if !may && got {
		w.fail("handshake-good", "IsRevoked is true for a certificate that is not revoked")
	}
	w.r.Count("handshake_checks", 1)
}

func (w *world) issue() {
	var dns, email []string
	k := clientKeys[w.pick(len(clientKeys))]
	n := w.pick(1000)
	if n%3 == 0 {
		dns = []string{fmt.Sprintf("h%d.v.test", n)}
	} else {
		email = []string{fmt.Sprintf("u%d@v.test", n)}
	}
	raw, err := x509.CreateCertificateRequest(rand.Reader, &x509.CertificateRequest{Subject: pkix.Name{CommonName: fmt.Sprint("c", n)}, DNSNames: dns, EmailAddresses: email}, k)
	if err != nil {
		w.r.Inconclusive("csr: %v", err)
		return
	}
	cr, err := w.m.ValidateCertificateRequest(raw)
	if err != nil {
		w.fail("csr", "a valid request was refused: %v", err)
		return
	}
	b, err := w.m.IssueCertificate(cr)
	if err != nil {
		w.fail("issue", "a valid request was refused: %v", err)
		return
	}
	c, err := x509.ParseCertificate(b)
	if err != nil {
		w.fail("issue", "the issued certificate does not parse: %v", err)
		return
	}
	ca, _ := w.m.CACert()
	pool := x509.NewCertPool()
	pool.AddCert(ca)
	if _, err := c.Verify(x509.VerifyOptions{Roots: pool, CurrentTime: time.Now(), KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}}); err != nil {
		w.fail("issue-chain", "the issued certificate does not verify: %v", err)
	}
	w.mu.Lock()
	s := c.SerialNumber.String()
	dup := w.serials[s]
	w.serials[s] = true
	w.certs = append(w.certs, &issued{cert: c, reason: -1})
	w.mu.Unlock()
	if dup || c.SerialNumber.Sign() <= 0 {
		w.fail("serial", "serial number %s was issued twice or is not positive", s)
	}
	w.r.Count("issued", 1)
}

func (w *world) revoke(c *issued) {
	reason := []int{0, 1, 3, 4, 5, 9}[w.pick(6)]
	w.mu.Lock()
	again := c.revoked || c.trying
	c.trying = true
	if again {
		c.reason, c.twice = -1, true
	}
	w.mu.Unlock()
	err := w.m.RevokeCertificate(c.cert.SerialNumber, reason)
	w.mu.Lock()
	if err == nil {
		c.revoked = true
		if c.at.IsZero() {
			c.at = time.Now()
		}
		if !c.twice {
			c.reason = reason
		}
	}
	w.mu.Unlock()
	if err != nil && !again {
		w.fail("revoke", "revoking an issued certificate failed: %v", err)
	}
	w.r.Count("revocations", 1)
}

func (w *world) one() *issued {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.certs) == 0 {
		return nil
	}
	return w.certs[w.rnd.Intn(len(w.certs))]
}

func TestP18(t *testing.T) {
	r := vh.New(t, "revocation status everywhere")
	defer r.NeedAtLeast("crl_generations", 300)
	defer r.NeedAtLeast("ocsp_revoked", 300)
	defer r.NeedAtLeast("ocsp_good", 300)
	defer r.NeedAtLeast("ocsp_never_issued", 5)
	defer r.NeedAtLeast("restarts", 50)
	defer r.NeedAtLeast("after_rotation", 50)
	dir := vh.Work(t)
	other := vp.NewCA("other")
	vh.Parallel(8, vh.N(96, 1600), func(i int) {
		rnd := vh.Rand("p18", i)
		w := &world{r: r, i: i, rnd: rnd, dir: filepath.Join(dir, fmt.Sprint(i)), name: []string{"ca", "My CA/ünï &", "x"}[rnd.Intn(3)],
			serials: map[string]bool{}, crls: map[string][]byte{}}
		w.keyType = []string{"", "ecdsa-p256", "ecdsa-p384", "ed25519", "ecdsa-p256", "rsa-2048"}[rnd.Intn(6)]
		store := func() *storage.Storage { return vp.NewStore(t, w.dir) }
		st := store()
		synctest.Run(func() { w.walk(store, st, other) })
		if i < 2 {
			r.Sample(map[string]any{"keyType": w.keyType, "history": w.log[:min(len(w.log), 15)]})
		}
	})
}

func (w *world) walk(store func() *storage.Storage, st *storage.Storage, other *vp.CA) {
	w.start = time.Now()
	if !w.open(st) {
		return
	}
	w.issue()
	horizon := 8 * 365 * 24 * time.Hour
	steps := vh.N(60, 120)
	for step := 0; step < steps && w.r.NumViolations() < 20; step++ {
		switch w.rnd.Intn(12) {
		case 0, 1:
			w.issue()
			w.note("issue")
		case 2, 3:
			if c := w.one(); c != nil {
				w.revoke(c)
				w.note("revoke %.8s", c.cert.SerialNumber)
				// everything agrees from this instant on
				w.solo = true
				w.handshake(c)
				w.ocsp(c)
				w.crl()
				w.solo = false
			}
		case 4:
			w.note("crl")
			w.solo = true
			w.crl()
			w.solo = false
		case 5:
			if c := w.one(); c != nil {
				w.note("ocsp")
				w.ocsp(c)
				w.handshake(c)
			}
			w.stranger(other)
			w.neverIssued()
			n := new(big.Int).SetBytes([]byte{1, byte(w.rnd.Intn(256)), 3})
			if w.m.IsRevoked(n) {
				w.fail("handshake-good", "a serial number nobody issued is revoked")
			}
			if w.m.RevokeCertificate(n, 0) == nil {
				w.fail("revoke-unknown", "revoking a serial number nobody issued was acknowledged")
			}
		case 6, 7, 8:
			d := []time.Duration{time.Millisecond, 300 * time.Millisecond, time.Second, time.Second, 20 * time.Minute, 29 * time.Minute, 31 * time.Minute, 61 * time.Minute, 80 * time.Minute,
				5 * time.Hour, 26 * time.Hour, 5 * 24 * time.Hour, 6 * 24 * time.Hour, 11 * 24 * time.Hour, 40 * 24 * time.Hour, 500 * 24 * time.Hour}[w.rnd.Intn(16)]
			if time.Since(w.start)+d > horizon {
				d = time.Minute
			}
			time.Sleep(d)
			w.note("after %v", d)
			if d > 5*24*time.Hour {
				w.r.Count("after_rotation", 1)
			}
		case 9:
			w.note("restart")
			if !w.open(store()) {
				return
			}
			w.r.Count("restarts", 1)
			_, _, all := w.snapshot()
			for _, c := range all {
				w.handshake(c)
			}
		default:
			// everything at once
			w.note("concurrent")
			var wg sync.WaitGroup
			for k := 0; k < 4+w.rnd.Intn(8); k++ {
				kind := w.rnd.Intn(5)
				c := w.one()
				wg.Add(1)
				go func() {
					defer wg.Done()
					switch kind {
					case 0:
						w.issue()
					case 1:
						w.revoke(c)
						w.handshake(c)
						w.ocsp(c)
						w.crl()
					case 2:
						w.crl()
					case 3:
						w.ocsp(c)
					case 4:
						w.handshake(c)
					}
				}()
			}
			wg.Wait()
			w.r.Count("concurrent", 1)
		}
	}
	_, _, all := w.snapshot()
	for _, c := range all {
		w.handshake(c)
		w.ocsp(c)
	}
	w.crl()
}

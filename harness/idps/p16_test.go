//go:build goexperiment.synctest

// Package idps monitors the SAML service provider (P16) and the passkey manager
// (P17) on a virtual clock.
package idps

import (
	"bytes"
	"compress/flate"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"encoding/xml"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/beevik/etree"
	dsig "github.com/russellhaering/goxmldsig"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/saml"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

type nopRec struct{}

func (nopRec) Record(string) {}

type samlIDP struct {
	key  *rsa.PrivateKey
	cert []byte
	pem  string
}

func newSAMLIDP(cn string, at time.Time) *samlIDP {
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	templ := &x509.Certificate{SerialNumber: big.NewInt(at.UnixNano()), Subject: pkix.Name{CommonName: cn}, NotBefore: at.Add(-time.Hour), NotAfter: at.Add(24 * 365 * time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, templ, templ, key.Public(), key)
	if err != nil {
		panic(err)
	}
	return &samlIDP{key, der, string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))}
}

func (i *samlIDP) sign(el *etree.Element, canon dsig.Canonicalizer, hash crypto.Hash) *etree.Element {
	ctx, err := dsig.NewSigningContext(i.key, [][]byte{i.cert})
	if err != nil {
		panic(err)
	}
	ctx.Canonicalizer = canon
	ctx.Hash = hash
	out, err := ctx.SignEnveloped(el)
	if err != nil {
		panic(err)
	}
	return out
}

// spec of one assertion.
type assertion struct {
	nameID, inResponseTo, recipient, audience string
	notBefore, notAfter                       string // Conditions
	scdNotAfter                               string // SubjectConfirmationData
	attrs                                     [][2]string
}

func ts(t time.Time) string { return t.UTC().Format("2006-01-02T15:04:05.000Z") }

func (a *assertion) element(id string) *etree.Element {
	el := etree.NewElement("saml:Assertion")
	el.CreateAttr("xmlns:saml", "urn:oasis:names:tc:SAML:2.0:assertion")
	el.CreateAttr("ID", id)
	el.CreateAttr("Version", "2.0")
	el.CreateAttr("IssueInstant", ts(time.Now()))
	el.CreateElement("saml:Issuer").SetText("https://idp.example/saml")
	s := el.CreateElement("saml:Subject")
	s.CreateElement("saml:NameID").SetText(a.nameID)
	sc := s.CreateElement("saml:SubjectConfirmation")
	sc.CreateAttr("Method", "urn:oasis:names:tc:SAML:2.0:cm:bearer")
	scd := sc.CreateElement("saml:SubjectConfirmationData")
	set := func(e *etree.Element, k, v string) {
		if v != "" {
			e.CreateAttr(k, v)
		}
	}
	set(scd, "InResponseTo", a.inResponseTo)
	set(scd, "NotOnOrAfter", a.scdNotAfter)
	set(scd, "Recipient", a.recipient)
	c := el.CreateElement("saml:Conditions")
	set(c, "NotBefore", a.notBefore)
	set(c, "NotOnOrAfter", a.notAfter)
	if a.audience != "" {
		c.CreateElement("saml:AudienceRestriction").CreateElement("saml:Audience").SetText(a.audience)
	}
	if len(a.attrs) > 0 {
		st := el.CreateElement("saml:AttributeStatement")
		for _, kv := range a.attrs {
			at := st.CreateElement("saml:Attribute")
			at.CreateAttr("Name", kv[0])
			at.CreateElement("saml:AttributeValue").SetText(kv[1])
		}
	}
	return el
}

func response(els ...*etree.Element) []byte {
	doc := etree.NewDocument()
	root := doc.CreateElement("samlp:Response")
	root.CreateAttr("xmlns:samlp", "urn:oasis:names:tc:SAML:2.0:protocol")
	root.CreateAttr("ID", "resp1")
	root.CreateElement("samlp:Status")
	for _, e := range els {
		root.AddChild(e)
	}
	b, err := doc.WriteToBytes()
	if err != nil {
		panic(err)
	}
	return b
}

type samlWorld struct {
	p      *saml.Provider
	idp    *samlIDP
	idp2   *samlIDP // also configured
	evil   *samlIDP // not configured
	acs    string
	self   string
	tm     *tokenmanager.TokenManager
	issuer string
}

type samlReq struct {
	id, orig, host string
	at             time.Time
	used           bool // a login was granted for it
	touched        bool // something refused named it: it may have been consumed
}

func (w *samlWorld) request(orig string) (*samlReq, error) {
	rec := httptest.NewRecorder()
	w.p.RequestLogin(rec, httptest.NewRequest("GET", orig, nil), orig)
	loc := rec.Header().Get("Location")
	u, err := url.Parse(loc)
	if err != nil || rec.Code != 302 {
		return nil, fmt.Errorf("RequestLogin answered %d %q", rec.Code, loc)
	}
	b, err := base64.StdEncoding.DecodeString(u.Query().Get("SAMLRequest"))
	if err != nil {
		return nil, err
	}
	x, err := io.ReadAll(flate.NewReader(bytes.NewReader(b)))
	if err != nil {
		return nil, err
	}
	var ar struct {
		ID  string `xml:"ID,attr"`
		ACS string `xml:"AssertionConsumerServiceURL,attr"`
	}
	if err := xml.Unmarshal(x, &ar); err != nil || ar.ID == "" {
		return nil, fmt.Errorf("AuthnRequest %q: %v", x, err)
	}
	ou, _ := url.Parse(orig)
	return &samlReq{id: ar.ID, orig: orig, host: ou.Host, at: time.Now()}, nil
}

func (w *samlWorld) post(b []byte, method string, inQuery bool) *httptest.ResponseRecorder {
	q := url.Values{"SAMLResponse": {base64.StdEncoding.EncodeToString(b)}, "RelayState": {"https://evil.example/"}}
	var req *http.Request
	if inQuery {
		req = httptest.NewRequest(method, w.acs+"?"+q.Encode(), nil)
	} else {
		req = httptest.NewRequest(method, w.acs, strings.NewReader(q.Encode()))
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	rec := httptest.NewRecorder()
	func() {
		defer func() {
			if e := recover(); e != nil {
				rec.Code = 599 // judged as a refusal here; panics are P34's concern
			}
		}()
		w.p.HandleCallback(rec, req)
	}()
	return rec
}

// granted returns the claims of the authentication cookie of a response, if any.
func granted(rec *httptest.ResponseRecorder) map[string]any {
	for _, c := range rec.Result().Cookies() {
		if c.Name == "TLSPROXYAUTH" && c.Value != "" && c.MaxAge >= 0 {
			p := strings.Split(c.Value, ".")
			if len(p) != 3 {
				return map[string]any{"raw": c.Value}
			}
			b, _ := base64.RawURLEncoding.DecodeString(p[1])
			var m map[string]any
			json.Unmarshal(b, &m)
			return m
		}
	}
	return nil
}

// TestP16 plays identity provider and attacker against the SAML assertion
// consumer.
func TestP16(t *testing.T) {
	r := vh.New(t, "cases are SAML responses delivered to the assertion consumer; non-trivial when the response was signed by the identity provider and mutated, replayed or delivered concurrently; distinct by kind, position and outcome")
	tm, err := tokenmanager.New(vp.NewStore(t, filepath.Join(vh.Work(t), "s")), nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	var start time.Time
	synctest.Run(func() { start = time.Now() })
	idp, idp2, evil := newSAMLIDP("idp", start), newSAMLIDP("idp2", start), newSAMLIDP("idp", start)
	n := vh.N(500, 10000)
	for i := 0; i < n && r.NumViolations() < 5; i++ {
		synctest.Run(func() {
			rnd := vh.Rand("p16", i)
			w := &samlWorld{idp: idp, idp2: idp2, evil: evil, tm: tm, issuer: "https://sp.v.test/", acs: []string{"https://sp.v.test/saml", "https://sp.v.test:10443/x/saml"}[rnd.Intn(2)], self: "https://sp.v.test/"}
			certs := idp.pem
			if rnd.Intn(2) == 0 {
				certs = idp2.pem + idp.pem
			} else {
				w.idp2 = nil
			}
			cm := cookiemanager.New(tm, "prov", "v.test", w.issuer)
			p, err := saml.New(saml.Config{SSOURL: "https://idp.example/sso?a=b", EntityID: "https://sp.v.test/", Certs: certs, ACSURL: w.acs}, nopRec{}, cm)
			if err != nil {
				r.Violate("new", nil, "saml.New: %v", err)
				return
			}
			w.p = p
			samlHistory(r, w, rnd, i)
		})
	}
	for _, k := range []string{"accepted", "refused:evil-key", "refused:time", "refused:recipient", "refused:audience", "refused:unsolicited", "refused:replay", "refused:unsigned", "refused:stale-request", "refused:wrapped", "concurrent", "mutated", "comment"} {
		r.NeedAtLeast(k, 10)
	}
}

func samlHistory(r *vh.Run, w *samlWorld, rnd *mrand.Rand, i int) {
	var reqs []*samlReq
	var log []string
	note := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	fail := func(key string, resp []byte, f string, a ...any) {
		r.Violate(key, map[string]any{"case": i, "history": log, "response": string(resp)}, f, a...)
	}
	type sent struct {
		body []byte
		q    *samlReq
	}
	var delivered []sent
	newReq := func() *samlReq {
		q, err := w.request(fmt.Sprintf("https://h%d.v.test/p?i=%d&u=%d", rnd.Intn(3), len(reqs), i))
		if err != nil {
			fail("request", nil, "%v", err)
			return nil
		}
		for _, o := range reqs {
			if o.id == q.id {
				fail("request-id", nil, "the request id %q was used twice", q.id)
			}
		}
		reqs = append(reqs, q)
		return q
	}
	// accepted checks that what was granted is what was signed.
	accepted := func(rec *httptest.ResponseRecorder, c map[string]any, a *assertion, q *samlReq, body []byte, what string) {
		if c["sub"] != a.nameID || c["email"] != a.nameID {
			fail("identity", body, "%s: the assertion is about %q, the cookie about sub=%q email=%q", what, a.nameID, c["sub"], c["email"])
		}
		if c["provider"] != "prov" || c["proxyauth"] != w.issuer || c["iss"] != w.issuer || c["aud"] != w.issuer {
			fail("reserved-claims", body, "%s: reserved claims of the cookie: %v", what, c)
		}
		if exp, _ := c["exp"].(float64); exp > float64(time.Now().Add(25*time.Hour).Unix()) {
			fail("reserved-claims", body, "%s: the cookie expires at %v", what, exp)
		}
		if rec.Code != 302 || rec.Header().Get("Location") != q.orig {
			fail("destination", body, "%s: redirected to %q instead of %q", what, rec.Header().Get("Location"), q.orig)
		}
		q.used = true
	}
	base := func(q *samlReq) *assertion {
		now := time.Now()
		a := &assertion{nameID: []string{"alice@corp.example", "bob@other.example", "carol+x@corp.example.evil.test"}[rnd.Intn(3)], inResponseTo: q.id, recipient: w.acs, audience: w.self,
			notBefore: ts(now.Add(-time.Minute)), notAfter: ts(now.Add(2 * time.Minute))}
		if rnd.Intn(2) == 0 {
			a.scdNotAfter = ts(now.Add(2 * time.Minute))
		}
		if rnd.Intn(2) == 0 {
			a.attrs = [][2]string{{"firstname", "Alice"}, {"email", "root@corp.example"}, {"sub", "root"}, {"exp", "99999999999"}, {"provider", "other"}, {"hhash", "x"}, {"proxyauth", "https://x/"}, {"iss", "x"}, {"aud", "x"}, {"sid", "x"}}[:1+rnd.Intn(10)]
		}
		return a
	}
	canon := func() dsig.Canonicalizer {
		switch rnd.Intn(3) {
		case 0:
			return dsig.MakeC14N11Canonicalizer()
		case 1:
			return dsig.MakeC14N10RecCanonicalizer()
		}
		return dsig.MakeC14N10ExclusiveCanonicalizerWithPrefixList("")
	}
	signer := func() *samlIDP {
		if w.idp2 != nil && rnd.Intn(2) == 0 {
			return w.idp2
		}
		return w.idp
	}
	id := func() string { return fmt.Sprintf("a%d-%d", i, rnd.Int63()) }
	signed := func(a *assertion) *etree.Element { return signer().sign(a.element(id()), canon(), crypto.SHA256) }
	refuse := func(kind string, body []byte, rec *httptest.ResponseRecorder) {
		c := granted(rec)
		note("%s -> %d", kind, rec.Code)
		if c != nil {
			fail("accepted:"+kind, body, "a response that must be refused (%s) logged in %v", kind, c["sub"])
		}
		r.Count("refused:"+kind, 1)
		r.Eval(true, kind, rec.Code)
	}
	steps := 25
	for s := 0; s < steps && r.NumViolations() < 5; s++ {
		var q *samlReq
		fresh := false
		if len(reqs) == 0 || rnd.Intn(3) > 0 {
			if q = newReq(); q == nil {
				return
			}
			fresh = true
		} else {
			q = reqs[rnd.Intn(len(reqs))]
			fresh = !q.used && !q.touched && time.Since(q.at) < 4*time.Minute
		}
		stale := !q.used && time.Since(q.at) > 5*time.Minute+5*time.Second
		a := base(q)
		switch kind := rnd.Intn(16); kind {
		case 0, 1: // honest
			body := response(signed(a))
			par := 1
			if rnd.Intn(2) == 0 {
				par = 2 + rnd.Intn(5)
				r.Count("concurrent", 1)
			}
			recs := make([]*httptest.ResponseRecorder, par)
			var wg sync.WaitGroup
			for j := range recs {
				wg.Add(1)
				go func() { defer wg.Done(); recs[j] = w.post(body, "POST", false) }()
			}
			wg.Wait()
			var oks int
			for _, rec := range recs {
				if c := granted(rec); c != nil {
					oks++
					note("honest x%d accepted", par)
					switch {
					case q.used:
						fail("replay", body, "the request %s was answered twice (%d concurrent deliveries, %d accepted)", q.id, par, oks)
					case stale:
						fail("stale", body, "a response %v after the request was accepted", time.Since(q.at))
					default:
						accepted(rec, c, a, q, body, "honest")
						r.Count("accepted", 1)
					}
				}
			}
			if oks == 0 && fresh {
				fail("honest-refused", body, "a valid response was refused: %d %s", recs[0].Code, recs[0].Body)
			}
			if oks == 0 {
				if stale {
					r.Count("refused:stale-request", 1)
				} else {
					r.Count("refused:replay", 1)
				}
			}
			r.Eval(par > 1, "honest", par, oks, q.used, stale)
			delivered = append(delivered, sent{body, q})
		case 2: // replay of an earlier response
			if len(delivered) == 0 {
				continue
			}
			d := delivered[rnd.Intn(len(delivered))]
			if !d.q.used {
				continue
			}
			refuse("replay", d.body, w.post(d.body, "POST", false))
		case 3: // someone else's key, with the certificate of either
			el := w.evil.sign(a.element(id()), canon(), crypto.SHA256)
			if rnd.Intn(2) == 0 {
				if c := el.FindElement(".//X509Certificate"); c != nil {
					c.SetText(base64.StdEncoding.EncodeToString(w.idp.cert))
				}
			} else if rnd.Intn(2) == 0 {
				if c := el.FindElement(".//KeyInfo"); c != nil {
					c.Parent().RemoveChild(c)
				}
			}
			b := response(el)
			refuse("evil-key", b, w.post(b, "POST", false))
		case 4: // outside of the validity window
			now := time.Now()
			switch rnd.Intn(5) {
			case 0:
				a.notBefore = ts(now.Add(30 * time.Second))
			case 1:
				a.notAfter = ts(now.Add(-2 * time.Second))
			case 2:
				a.notBefore, a.notAfter = ts(now.Add(-time.Hour)), ts(now.Add(-30*time.Minute))
			case 3:
				a.notAfter = []string{"", "never", "9999"}[rnd.Intn(3)]
			case 4:
				a.scdNotAfter = ts(now.Add(-time.Second * time.Duration(2+rnd.Intn(4000))))
			}
			kind := "time"
			b := response(signed(a))
			refuse(kind, b, w.post(b, "POST", false))
			q.touched = true
		case 5:
			a.recipient = []string{"", w.acs + "/", strings.Replace(w.acs, "sp.", "other.", 1), strings.Replace(w.acs, "https", "http", 1), strings.ToUpper(w.acs)}[rnd.Intn(5)]
			b := response(signed(a))
			refuse("recipient", b, w.post(b, "POST", false))
			q.touched = true
		case 6:
			a.audience = []string{"", "https://other.v.test/", "https://sp.v.test", "https://sp.v.test.evil.example/", "https://sp.v.test/x"}[rnd.Intn(5)]
			b := response(signed(a))
			refuse("audience", b, w.post(b, "POST", false))
			q.touched = true
		case 7:
			a.inResponseTo = []string{"", "deadbeef", q.id + "0", strings.ToUpper(q.id) + "X", q.id[:len(q.id)-1]}[rnd.Intn(5)]
			b := response(signed(a))
			refuse("unsolicited", b, w.post(b, "POST", false))
		case 8: // no or broken signature
			el := a.element(id())
			if rnd.Intn(2) == 0 {
				el = signed(a)
				for _, p := range []string{".//SignatureValue", ".//DigestValue"} {
					if e := el.FindElement(p); e != nil && rnd.Intn(2) == 0 {
						t := []byte(e.Text())
						t[rnd.Intn(len(t)/2)] ^= 1
						e.SetText(string(t))
					} else if e != nil && rnd.Intn(2) == 0 {
						e.SetText("")
					} else if e != nil {
						e.Parent().RemoveChild(e)
					}
				}
			}
			b := response(el)
			refuse("unsigned", b, w.post(b, "POST", false))
		case 9: // content changed after signing
			el := signed(a)
			switch rnd.Intn(4) {
			case 0:
				el.FindElement("./Subject/NameID").SetText("admin@corp.example")
			case 1:
				el.FindElement("./Conditions").CreateAttr("NotOnOrAfter", ts(time.Now().Add(time.Hour*999)))
			case 2:
				el.FindElement("./Subject/SubjectConfirmation/SubjectConfirmationData").CreateAttr("InResponseTo", newReq().id)
			case 3:
				el.FindElement("./Subject").InsertChildAt(0, etree.NewElement("saml:NameID"))
				el.FindElement("./Subject/NameID").SetText("admin@corp.example")
			}
			b := response(el)
			refuse("modified", b, w.post(b, "POST", false))
		case 10, 11: // signature wrapping
			good := signed(a)
			forged := *a
			forged.nameID = "admin@corp.example"
			var b []byte
			switch rnd.Intn(9) {
			case 0:
				b = response(forged.element(id()), good)
			case 1: // forged assertion encloses the signed one
				f := forged.element(id())
				f.AddChild(good)
				b = response(f)
			case 2: // same ID
				f := forged.element(good.SelectAttrValue("ID", ""))
				f.AddChild(good)
				b = response(f)
			case 3: // signature moved to the forged assertion, original inside the signature
				sig := good.FindElement("./Signature")
				kids := good.Child
				good.Child = nil
				for _, k := range kids {
					if k != etree.Token(sig) {
						good.Child = append(good.Child, k)
					}
				}
				f := forged.element(good.SelectAttrValue("ID", ""))
				o := sig.CreateElement("ds:Object")
				o.AddChild(good)
				f.AddChild(sig)
				b = response(f)
			case 4: // signature copied
				sig := good.FindElement("./Signature").Copy()
				f := forged.element(good.SelectAttrValue("ID", ""))
				f.InsertChildAt(0, sig)
				b = response(f, good)
			case 5: // signed by the identity provider, but not the assertion: the whole response is forged around an extension
				f := forged.element(id())
				e := etree.NewElement("Extensions")
				e.AddChild(good)
				f.AddChild(e)
				b = response(f)
			case 6: // the forged assertion in another namespace comes first
				f := forged.element(good.SelectAttrValue("ID", ""))
				f.Space, f.Tag = "evil", "Assertion"
				f.CreateAttr("xmlns:evil", "urn:evil")
				b = response(f, good)
			case 7: // the signed one with an unsigned child statement appended outside the digest
				good.FindElement("./Signature").CreateElement("saml:Subject").CreateElement("saml:NameID").SetText("admin@corp.example")
				b = response(good)
			case 8: // reference pointing elsewhere
				f := forged.element(id())
				sig := good.FindElement("./Signature").Copy()
				sig.FindElement(".//Reference").CreateAttr("URI", "")
				f.AddChild(sig)
				b = response(f)
			}
			rec := w.post(b, "POST", false)
			if c := granted(rec); c != nil && c["sub"] == a.nameID && !q.used && !stale {
				// accepted for what was really signed: not a breach
				accepted(rec, c, a, q, b, "wrapped")
				r.Count("wrapped_but_genuine", 1)
				r.Eval(true, "wrapped-genuine")
			} else {
				refuse("wrapped", b, rec)
			}
			q.touched = true
		case 12: // comments and processing instructions in the signed text
			b := response(signed(a))
			at := strings.IndexByte(a.nameID, '@')
			cut := at + 1 + rnd.Intn(len(a.nameID)-at-1)
			ins := []string{"<!---->", "<!-- x -->", "<?x y?>", "<![CDATA[]]>"}[rnd.Intn(4)]
			if rnd.Intn(2) == 0 {
				cut = rnd.Intn(len(a.nameID))
			}
			b = bytes.Replace(b, []byte(">"+a.nameID+"<"), []byte(">"+a.nameID[:cut]+ins+a.nameID[cut:]+"<"), 1)
			rec := w.post(b, "POST", false)
			c := granted(rec)
			note("comment %q -> %d", ins, rec.Code)
			if c != nil {
				switch {
				case q.used:
					fail("replay", b, "the request %s was answered twice", q.id)
				case stale:
					fail("stale", b, "a response %v after the request was accepted", time.Since(q.at))
				default:
					accepted(rec, c, a, q, b, "comment "+ins)
				}
			}
			q.touched = true
			r.Count("comment", 1)
			r.Eval(true, "comment", ins, c != nil)
		case 13: // random changes of the bytes
			b := response(signed(a))
			for k := 0; k <= rnd.Intn(3); k++ {
				p := rnd.Intn(len(b))
				switch rnd.Intn(4) {
				case 0:
					b[p] ^= byte(1 << rnd.Intn(7))
				case 1:
					b = append(b[:p:p], b[min(len(b), p+1+rnd.Intn(20)):]...)
				case 2:
					b = append(b[:p:p], append([]byte([]string{" ", "<x/>", "&#65;", "\x00", "<!--", "\n", "admin"}[rnd.Intn(7)]), b[p:]...)...)
				case 3:
					l := min(rnd.Intn(300), len(b)-p)
					b = append(b[:p+l:p+l], b[p:]...)
				}
				if len(b) == 0 {
					break
				}
			}
			rec := w.post(b, "POST", false)
			c := granted(rec)
			if c != nil {
				switch {
				case q.used:
					fail("replay", b, "the request %s was answered twice", q.id)
				case stale:
					fail("stale", b, "a response %v after the request was accepted", time.Since(q.at))
				default:
					accepted(rec, c, a, q, b, "mutated")
				}
			}
			q.touched = true
			r.Count("mutated", 1)
			r.Eval(true, "mutated", c != nil, rec.Code)
		case 14: // other ways of delivery, junk
			b := response(signed(a))
			switch rnd.Intn(4) {
			case 0:
				refuse("delivery", b, w.post(b, "GET", true))
			case 1:
				refuse("delivery", b, w.post(nil, "POST", false))
			case 2:
				refuse("delivery", b, w.post([]byte([]string{"<", "<a/>", "<a><Assertion/></a>", "\xff\xfe", "<a><Assertion><Signature xmlns=\"http://www.w3.org/2000/09/xmldsig#\"/></Assertion></a>"}[rnd.Intn(5)]), "POST", false))
			case 3:
				a.nameID = ""
				b = response(signed(a))
				refuse("delivery", b, w.post(b, "POST", false))
			}
			q.touched = true
		case 15:
			d := []time.Duration{10 * time.Second, time.Minute, 4 * time.Minute, 5*time.Minute + 10*time.Second, time.Hour}[rnd.Intn(5)]
			time.Sleep(d)
			note("sleep %v", d)
		}
	}
	if i < 2 {
		r.Sample(map[string]any{"history": log})
	}
}

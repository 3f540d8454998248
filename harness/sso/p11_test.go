package sso

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

var b64 = base64.RawURLEncoding

// pubKeys reads the published key set, the way a third party would.
func pubKeys(t testing.TB, jwks []byte) map[string]crypto.PublicKey {
	var ks struct {
		Keys []struct{ Kty, Kid, Alg, Crv, X, Y, N, E string }
	}
	if err := json.Unmarshal(jwks, &ks); err != nil {
		t.Fatalf("JWKS: %v %q", err, jwks)
	}
	dec := func(s string) []byte { b, _ := b64.DecodeString(s); return b }
	out := map[string]crypto.PublicKey{}
	for _, k := range ks.Keys {
		switch k.Kty {
		case "EC":
			out[k.Kid] = &ecdsa.PublicKey{Curve: elliptic.P256(), X: new(big.Int).SetBytes(dec(k.X)), Y: new(big.Int).SetBytes(dec(k.Y))}
		case "OKP":
			out[k.Kid] = ed25519.PublicKey(dec(k.X))
		case "RSA":
			out[k.Kid] = &rsa.PublicKey{N: new(big.Int).SetBytes(dec(k.N)), E: int(new(big.Int).SetBytes(dec(k.E)).Int64())}
		}
	}
	return out
}

func segs(tok string) (h, p, s []byte) {
	x := strings.Split(tok, ".")
	if len(x) != 3 {
		return
	}
	h, _ = b64.DecodeString(x[0])
	p, _ = b64.DecodeString(x[1])
	s, _ = b64.DecodeString(x[2])
	return
}

func join(h, p, s []byte) string {
	return b64.EncodeToString(h) + "." + b64.EncodeToString(p) + "." + b64.EncodeToString(s)
}

// candidate is a token with the places where it must be accepted.
type candidate struct {
	Kind   string
	Tok    string
	Cookie map[string]bool // hosts
	Bearer map[string]bool
}

// TestP11: credentials are accepted only as issued.
func TestP11(t *testing.T) {
	run := vh.New(t, "A case is one token (genuine for some purpose, or derived from a genuine one by a mutation or by signing with other keys or algorithms) presented as cookie or bearer token to one host; the oracle is the table of purposes, the observation is whether the upstream was reached as that user. Distinct non-trivial = distinct (kind, presentation, host, token).")
	e := vp.NewEnv(t)
	w := newWorld(t, e)
	other := otherTM(t)
	now := time.Now()

	// A second proxy whose configuration is the same, with its own keys, and
	// an OIDC server that issues tokens of its own with the first one's keys.
	recJ := httptest.NewRecorder()
	w.tm.ServeJWKS(recJ, httptest.NewRequest("GET", "https://x/jwks", nil))
	pubs := pubKeys(t, recJ.Body.Bytes())
	if len(pubs) < 3 {
		t.Fatalf("published keys: %d", len(pubs))
	}
	// the hosts that tokens are presented to, and a path that needs authentication
	targets := map[string]string{"a0.v.test": "/q", "a3.v.test": "/private/q", "a4.v.test": "/private/q", "a7.v.test": "/private/q"}
	hostsOf := func(prov string) map[string]bool {
		m := map[string]bool{}
		for h := range targets {
			if w.hosts[h].Provider == prov {
				m[h] = true
			}
		}
		return m
	}
	var hostList []string
	for _, h := range []string{"a0.v.test", "a3.v.test", "a4.v.test", "a7.v.test"} {
		hostList = append(hostList, h)
	}

	email := "alice@corp.example"
	var genuine []candidate
	for _, prov := range []string{"idp1", "idp2"} {
		genuine = append(genuine, candidate{"auth-" + prov, w.mint(authClaims(prov, email, "a0.v.test", now), ""), hostsOf(prov), nil})
		genuine = append(genuine, candidate{"auth-es-" + prov, w.mint(authClaims(prov, email, "a0.v.test", now), "ES256"), hostsOf(prov), nil})
	}
	// A real login, and the real URL, ID and OIDC tokens.
	b := w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
	if r, err := b.Login(w.idp, "https://a0.v.test/", email); err != nil || r.StatusCode != 302 {
		t.Fatalf("login: %v %+v", err, r)
	}
	real := b.Cookie("https://a0.v.test/", "TLSPROXYAUTH")
	genuine = append(genuine, candidate{"auth-real", real, hostsOf("idp1"), nil})
	if _, err := b.Get("https://a3.v.test/private/x"); err != nil {
		t.Fatal(err)
	}
	idt := b.Cookie("https://a3.v.test/", "TLSPROXYIDTOKEN")
	if idt == "" {
		t.Fatal("no ID token")
	}
	genuine = append(genuine, candidate{"id-a3-real", idt, nil, map[string]bool{"a3.v.test": true}})
	for _, h := range hostList {
		genuine = append(genuine, candidate{"id-" + h, w.mint(idClaims(w.hosts[h].Provider, email, h, now), "ES256"), nil, map[string]bool{h: true}})
	}
	genuine = append(genuine, candidate{"id-otherhost", w.mint(idClaims("idp1", email, "z.v.test", now), "ES256"), nil, nil})
	b2 := w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
	r, err := b2.Do("GET", "https://a0.v.test/q", nil, http.Header{"X-Skip-Login-Confirmation": {"1"}})
	if err != nil {
		t.Fatal(err)
	}
	urlTok := r.Loc().Query().Get("redirect")
	if urlTok == "" {
		t.Fatalf("no URL token in %q", r.Loc())
	}
	genuine = append(genuine, candidate{"url", urlTok, nil, nil})
	oidcTok, oidcAccess := w.oidcTokens(t, email)
	genuine = append(genuine, candidate{"oidc-id", oidcTok, nil, nil}, candidate{"oidc-access", oidcAccess, nil, nil})

	// keys that are not the proxy's
	_, edKey, _ := ed25519.GenerateKey(crand.Reader)
	ecKey, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	rsaKey, _ := rsa.GenerateKey(crand.Reader, 2048)
	var kids []string
	for k := range pubs {
		kids = append(kids, k)
	}
	signed := func(m jwt.SigningMethod, key any, c jwt.MapClaims, kid string) string {
		tk := jwt.NewWithClaims(m, c)
		if kid != "" {
			tk.Header["kid"] = kid
		}
		s, err := tk.SignedString(key)
		if err != nil {
			t.Fatalf("sign: %v", err)
		}
		return s
	}
	pubSecrets := func(p crypto.PublicKey) [][]byte {
		der, _ := x509.MarshalPKIXPublicKey(p)
		out := [][]byte{der, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})}
		if e, ok := p.(ed25519.PublicKey); ok {
			out = append(out, e)
		}
		return out
	}
	n := vh.N(40000, 600000)
	vh.Parallel(16, n, func(i int) {
		r := vh.Rand("P11", i)
		var c candidate
		claims := authClaims(pick(r, "idp1", "idp2"), email, "a0.v.test", now)
		if r.Intn(3) == 0 {
			claims = idClaims("idp1", email, pick(r, hostList...), now)
		}
		switch k := r.Intn(20); {
		case k < 5: // genuine
			c = genuine[r.Intn(len(genuine))]
		case k < 11: // mutated
			g := genuine[r.Intn(len(genuine))]
			c = candidate{Kind: "mut-" + g.Kind, Tok: mutate(r, g.Tok, kids)}
			if sameDecoded(c.Tok, g.Tok) {
				return
			}
		case k == 11: // signed with a key of another instance
			alg := pick(r, "", "ES256", "RS256", "EdDSA")
			tok, err := other.CreateToken(claims, alg)
			if err != nil {
				t.Error(err)
				return
			}
			c = candidate{Kind: "otherproxy", Tok: tok}
		case k == 12: // own key, the proxy's key ID
			kid := kids[r.Intn(len(kids))]
			switch r.Intn(3) {
			case 0:
				c = candidate{Kind: "forged-eddsa", Tok: signed(jwt.SigningMethodEdDSA, edKey, claims, kid)}
			case 1:
				c = candidate{Kind: "forged-es256", Tok: signed(jwt.SigningMethodES256, ecKey, claims, kid)}
			default:
				c = candidate{Kind: "forged-rs256", Tok: signed(pick[jwt.SigningMethod](r, jwt.SigningMethodRS256, jwt.SigningMethodPS256, jwt.SigningMethodRS512), rsaKey, claims, kid)}
			}
		case k == 13: // the public key as an HMAC secret
			kid := kids[r.Intn(len(kids))]
			sec := pubSecrets(pubs[kid])
			c = candidate{Kind: "forged-hmac", Tok: signed(pick[jwt.SigningMethod](r, jwt.SigningMethodHS256, jwt.SigningMethodHS512), sec[r.Intn(len(sec))], claims, kid)}
		case k == 14: // no signature
			hdr, _ := json.Marshal(map[string]any{"alg": pick(r, "none", "None", "NONE", "", "EdDSA", "ES256", "RS256"), "typ": "JWT", "kid": kids[r.Intn(len(kids))]})
			pl, _ := json.Marshal(claims)
			c = candidate{Kind: "unsigned", Tok: join(hdr, pl, make([]byte, pick(r, 0, 1, 64, 256)))}
		case k == 15: // embedded keys
			tk := jwt.NewWithClaims(jwt.SigningMethodES256, claims)
			tk.Header["kid"] = kids[r.Intn(len(kids))]
			tk.Header["jwk"] = map[string]any{"kty": "EC", "crv": "P-256", "x": b64.EncodeToString(ecKey.X.Bytes()), "y": b64.EncodeToString(ecKey.Y.Bytes())}
			tk.Header["jku"] = "https://evil.example/jwks"
			s, _ := tk.SignedString(ecKey)
			c = candidate{Kind: "forged-jwk", Tok: s}
		default: // genuine key, claims that no credential of this proxy has
			base := authClaims("idp1", email, "a0.v.test", now)
			good := true
			var kv []any
			kind := ""
			switch r.Intn(12) {
			case 0:
				kind, kv = "exp-past", []any{"exp", now.Add(-time.Duration(1+r.Intn(1<<(2+r.Intn(19)))) * time.Second).Unix()}
			case 1:
				kind, kv = "nbf-future", []any{"nbf", now.Add(time.Duration(30+r.Intn(1<<(2+r.Intn(13)))) * time.Second).Unix()}
			case 2:
				kind, kv = "iss", []any{"iss", pick[any](r, nil, "", "https://login.v.test", "https://LOGIN.v.test/", "https://evil.example/", "http://login.v.test/", 5, []string{issuer})}
			case 3:
				kind, kv = "aud", []any{"aud", pick[any](r, nil, "", "https://a0.v.test/", "https://login.v.test", []string{"https://a0.v.test/", "x"}, []string{}, 7)}
			case 4:
				kind, kv = "proxyauth", []any{"proxyauth", pick[any](r, nil, "", "https://login.v.test", true, "x")}
			case 5:
				kind, kv = "provider", []any{"provider", pick[any](r, nil, "", "IDP1", "idp1 ", "passkey", 1, []string{"idp1"})}
			case 6:
				kind, kv = "sub", []any{"sub", pick[any](r, nil, "", 3)}
			case 7:
				kind, kv = "email", []any{"email", pick[any](r, nil, "", 3, []string{email}, true)}
			case 8: // an ID token for another audience or issuer
				base = idClaims("idp1", email, "a3.v.test", now)
				kind, kv = "id-aud", []any{"aud", pick[any](r, nil, "", "a3.v.test", "https://a3.v.test", "https://a3.v.test.evil/", "https://a3.v.test:443/", "http://a3.v.test/", []string{"https://A3.v.test/"})}
			case 9:
				base = idClaims("idp1", email, "a3.v.test", now)
				kind, kv = "id-iss", []any{"iss", pick[any](r, nil, "", "https://a3.v.test/", "https://login.v.test")}
			case 10:
				base = idClaims("idp1", email, "a3.v.test", now)
				kind, kv = "id-proxyauth", []any{"proxyauth", issuer}
			case 11:
				base = idClaims("idp1", email, "a3.v.test", now)
				kind, kv = "id-exp", []any{"exp", now.Add(-time.Duration(1+r.Intn(1<<(2+r.Intn(19)))) * time.Second).Unix()}
			}
			_ = good
			c = candidate{Kind: "claims-" + kind, Tok: w.mint(with(base, kv...), pick(r, "", "ES256", "RS256"))}
		}
		h := hostList[r.Intn(len(hostList))]
		bearer := r.Intn(2) == 0
		hdr := [][2]string{{"Cookie", "TLSPROXYAUTH=" + c.Tok}}
		want := c.Cookie[h]
		how := "cookie"
		if bearer {
			hdr = [][2]string{{"Authorization", "Bearer " + c.Tok}}
			want = c.Bearer[h]
			how = "bearer"
		}
		if strings.ContainsAny(c.Tok, "\r\n\x00") {
			return
		}
		v := pick(r, 2, 2, 3)
		tok := fmt.Sprintf("p11-%d", i)
		a, err := w.send(v, h, "GET", targets[h], tok, hdr, "")
		if err != nil {
			run.Count("unsent", 1)
			return
		}
		got := w.ups.reached(tok)
		run.Eval(true, c.Kind, how, h, c.Tok)
		run.Count("presented", 1)
		accepted := len(got) > 0
		if w.hosts[h].GenID && how == "cookie" && a.Status == 302 && strings.Contains(strings.Join(a.Hdr.Values("Set-Cookie"), " "), "TLSPROXYIDTOKEN=") {
			accepted = true // an ID token was issued on the strength of it
		}
		rep := map[string]any{"kind": c.Kind, "token": c.Tok, "as": how, "host": h, "status": a.Status, "upstream": got}
		switch {
		case accepted && !want:
			run.Violate("accepted:"+strings.SplitN(c.Kind, "-a", 2)[0]+":"+how, rep, "a token of kind %q was accepted as a %s credential by %s", c.Kind, how, h)
		case !accepted && want:
			run.Violate("refused:"+c.Kind, rep, "a genuine %q token was refused as a %s credential by %s (status %d)", c.Kind, how, h, a.Status)
		case accepted:
			run.Count("accepted", 1)
			if len(got) == 1 && (h == "a0.v.test" || h == "a7.v.test") && got[0].User != email {
				run.Violate("wrong-user", rep, "the credential of %q was taken for %q", email, got[0].User)
			}
		default:
			run.Count("rejected", 1)
			run.Count("rejected-"+strings.SplitN(c.Kind, "-", 2)[0], 1)
		}
	})
	p11idtoken(t, run, w)
	for _, pn := range vp.Log.TakePanics() {
		run.Violate("panic", pn, "a handler panicked: %s", vh.Trunc(pn, 300))
	}
	run.NeedAtLeast("accepted", n/50)
	run.NeedAtLeast("rejected", n/3)
}

// p11idtoken: which ID token cookies stand next to an authentication cookie.
func p11idtoken(t *testing.T, run *vh.Run, w *world) {
	now := time.Now()
	email := "alice@corp.example"
	auth := w.mint(authClaims("idp1", email, "a3.v.test", now), "")
	ok := idClaims("idp1", email, "a3.v.test", now)
	other := otherTM(t)
	forged, _ := other.CreateToken(ok, "ES256")
	for i, c := range []struct {
		kind string
		tok  string
		keep bool
	}{
		{"own", w.mint(ok, "ES256"), true},
		{"othersub", w.mint(with(ok, "sub", "sub-bob"), "ES256"), false},
		{"othersid", w.mint(with(ok, "sid", "s2"), "ES256"), false},
		{"otherhost", w.mint(with(ok, "aud", "https://a0.v.test/"), "ES256"), false},
		{"expired", w.mint(with(ok, "exp", now.Add(-time.Minute).Unix()), "ES256"), false},
		{"otheriss", w.mint(with(ok, "iss", "https://evil.example/"), "ES256"), false},
		{"forged", forged, false},
		{"auth", auth, false},
		{"junk", "x.y.z", false},
	} {
		tok := fmt.Sprintf("p11id-%d", i)
		a, err := w.send(2, "a3.v.test", "GET", "/private/q", tok, [][2]string{{"Cookie", "TLSPROXYAUTH=" + auth + "; TLSPROXYIDTOKEN=" + c.tok}}, "")
		if err != nil {
			run.Inconclusive("id token: %v", err)
			continue
		}
		got := w.ups.reached(tok)
		run.Eval(true, "idcookie", c.kind)
		if kept := len(got) == 1; kept != c.keep {
			run.Violate("idcookie:"+c.kind, map[string]any{"status": a.Status, "upstream": got}, "with an ID token cookie of kind %q the request reached the backend: %v (want %v)", c.kind, kept, c.keep)
		}
	}
}

func sameDecoded(a, b string) bool {
	if a == b {
		return true
	}
	x, y := strings.Split(a, "."), strings.Split(b, ".")
	if len(x) != 3 || len(y) != 3 || x[0] != y[0] || x[1] != y[1] {
		return false
	}
	// the same signature bytes in a non-canonical encoding
	_, _, s1 := segs(a)
	_, _, s2 := segs(b)
	return bytes.Equal(s1, s2)
}

func mutate(r *rand.Rand, tok string, kids []string) string {
	h, p, s := segs(tok)
	if h == nil {
		// not a JWT: an opaque access token
		return tok + pick(r, "", "x", ".")
	}
	flip := func(b []byte) []byte {
		c := append([]byte(nil), b...)
		if len(c) > 0 {
			c[r.Intn(len(c))] ^= 1 << r.Intn(8)
		}
		return c
	}
	edit := func(b []byte, k string, v any) []byte {
		m := map[string]any{}
		json.Unmarshal(b, &m)
		if v == nil {
			delete(m, k)
		} else {
			m[k] = v
		}
		o, _ := json.Marshal(m)
		return o
	}
	switch r.Intn(16) {
	case 0:
		return join(flip(h), p, s)
	case 1:
		return join(h, flip(p), s)
	case 2:
		return join(h, p, flip(s))
	case 3:
		return tok[:r.Intn(len(tok))]
	case 4:
		return tok + pick(r, "A", ".", "=", ".A", "AAAA")
	case 5:
		return join(edit(h, "alg", pick[any](r, "none", "HS256", "ES256", "RS256", "EdDSA", "PS256", "ES384", nil)), p, s)
	case 6:
		return join(edit(h, "kid", pick[any](r, kids[r.Intn(len(kids))], "", nil, "x")), p, s)
	case 7:
		return join(h, edit(p, "exp", time.Now().Add(1000*time.Hour).Unix()), s)
	case 8:
		return join(h, edit(p, "email", "mallory@corp.example"), s)
	case 9:
		return join(h, edit(p, "provider", pick(r, "idp1", "idp2", "idp3")), s)
	case 10:
		return join(h, p, nil)
	case 11:
		return join(edit(h, "alg", "none"), p, nil)
	case 12:
		// signature of something else
		x := sha256.Sum256(s)
		return join(h, p, append(x[:], x[:]...))
	case 13:
		return join(h, edit(edit(p, "proxyauth", issuer), "aud", issuer), s)
	case 14:
		return join(h, append(append([]byte(nil), p[:len(p)-1]...), []byte(`,"email":"mallory@corp.example"}`)...), s)
	default:
		x := strings.Split(tok, ".")
		r.Shuffle(3, func(i, j int) { x[i], x[j] = x[j], x[i] })
		return strings.Join(x, ".")
	}
}

// oidcTokens logs in to the proxy's own OIDC server and returns the tokens it
// hands to a client.
func (w *world) oidcTokens(t *testing.T, email string) (id, access string) {
	b := w.p.Browser(vp.ClientOpt{Protos: []string{"http/1.1"}})
	b.Hdr.Set("Cookie", "TLSPROXYAUTH="+w.mint(authClaims("idp1", email, "o.v.test", time.Now()), ""))
	r, err := b.Get("https://o.v.test/authorization?" + url.Values{"response_type": {"code"}, "client_id": {"https://a0.v.test/"}, "redirect_uri": {"https://rp.example/cb"}, "scope": {"openid email profile"}, "nonce": {"n"}}.Encode())
	if err != nil || r.StatusCode != 302 {
		t.Fatalf("authorization: %v %+v", err, r)
	}
	code := r.Loc().Query().Get("code")
	r, err = b.Do("POST", "https://o.v.test/token", strings.NewReader(url.Values{"grant_type": {"authorization_code"}, "code": {code}, "client_id": {"https://a0.v.test/"}, "client_secret": {"s3cret"}, "redirect_uri": {"https://rp.example/cb"}}.Encode()),
		http.Header{"Content-Type": {"application/x-www-form-urlencoded"}})
	if err != nil || r.StatusCode != 200 {
		t.Fatalf("token: %v %+v", err, r)
	}
	var out struct {
		Access string `json:"access_token"`
		ID     string `json:"id_token"`
	}
	json.Unmarshal([]byte(r.Text), &out)
	return out.ID, out.Access
}

func oidcBackend(alpn *[]string) *proxy.Backend {
	return &proxy.Backend{ServerNames: []string{"o.v.test"}, Mode: "LOCAL", ALPNProtos: alpn, SSO: &proxy.BackendSSO{Provider: "idp1", LocalOIDCServer: &proxy.LocalOIDCServer{
		Clients: []*proxy.LocalOIDCClient{{ID: "https://a0.v.test/", Secret: "s3cret", RedirectURI: []string{"https://rp.example/cb"}}},
	}}}
}

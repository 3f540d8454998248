//go:build goexperiment.synctest

package idps

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/fxamacker/cbor/v2"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/passkeys"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

const (
	pkHost   = "login.v.test"
	pkIssuer = "https://login.v.test/"
)

// pkey is one authenticator credential.
type pkey struct {
	id      []byte
	priv    crypto.Signer
	cose    []byte
	email   string
	live    bool
	deleted bool
}

func newPKey(email string, useRSA bool) *pkey {
	k := &pkey{id: make([]byte, 16+int(email[1])%16), email: email}
	rand.Read(k.id)
	if useRSA {
		p, _ := rsa.GenerateKey(rand.Reader, 2048)
		k.priv = p
		k.cose, _ = cbor.Marshal(map[int]any{1: 3, 3: -257, -1: p.N.Bytes(), -2: p.E})
	} else {
		p, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		k.priv = p
		k.cose, _ = cbor.Marshal(map[int]any{1: 2, 3: -7, -1: 1, -2: p.X.FillBytes(make([]byte, 32)), -3: p.Y.FillBytes(make([]byte, 32))})
	}
	return k
}

func authData(rpid string, flags byte, k *pkey) []byte {
	h := sha256.Sum256([]byte(rpid))
	b := append([]byte(nil), h[:]...)
	b = append(b, flags, 0, 0, 0, 7)
	if k != nil {
		b = append(b, make([]byte, 16)...)
		b = binary.BigEndian.AppendUint16(b, uint16(len(k.id)))
		b = append(b, k.id...)
		b = append(b, k.cose...)
	}
	return b
}

func (k *pkey) sign(ad, cd []byte) []byte {
	h := sha256.Sum256(cd)
	d := sha256.Sum256(append(append([]byte(nil), ad...), h[:]...))
	s, _ := k.priv.Sign(rand.Reader, d[:], crypto.SHA256)
	return s
}

func clientData(typ, chal, origin string) []byte {
	b, _ := json.Marshal(map[string]any{"type": typ, "challenge": chal, "origin": origin, "crossOrigin": false})
	return b
}

type pkUser struct {
	email, sub string
	handle     []byte
	keys       []*pkey
	iat        time.Time // of the identity last confirmed by the other provider
}

func (u *pkUser) live() (out []*pkey) {
	for _, k := range u.keys {
		if k.live && !k.deleted {
			out = append(out, k)
		}
	}
	return
}

type browser struct {
	jar   map[string]string
	token string
	orig  string
}

type otherIDP struct {
	mu    sync.Mutex
	calls int
}

func (o *otherIDP) RequestLogin(w http.ResponseWriter, req *http.Request, origURL string, opts ...idp.Option) {
	o.mu.Lock()
	o.calls++
	o.mu.Unlock()
	http.Redirect(w, req, "https://idp.example/?to="+url.QueryEscape(origURL), 302)
}

type claimsKey struct{}

type pkWorld struct {
	m       *passkeys.Manager
	store   *storage.Storage
	tm      *tokenmanager.TokenManager
	cm      *cookiemanager.CookieManager
	otherCM *cookiemanager.CookieManager
	other   *otherIDP
	acl     *[]string
	refresh time.Duration
}

func (w *pkWorld) restart() error {
	m, err := passkeys.NewManager(passkeys.Config{Store: w.store, Other: w.other, RefreshInterval: w.refresh, Endpoint: "https://" + pkHost + "/passkey", EventRecorder: nopRec{},
		CookieManager: w.cm, OtherCookieManager: w.otherCM, TokenManager: w.tm, Logger: silent{},
		ClaimsFromCtx: func(ctx context.Context) jwt.MapClaims { c, _ := ctx.Value(claimsKey{}).(jwt.MapClaims); return c }})
	if err != nil {
		return err
	}
	m.SetACL(w.acl)
	w.m = m
	return nil
}

type silent struct{}

func (silent) Errorf(string, ...any) {}

func (w *pkWorld) do(b *browser, h func(http.ResponseWriter, *http.Request), method, target string, form url.Values, csrf bool) *httptest.ResponseRecorder {
	var req *http.Request
	if form != nil {
		req = httptest.NewRequest(method, target, strings.NewReader(form.Encode()))
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	} else {
		req = httptest.NewRequest(method, target, nil)
	}
	// What the proxy sees: no scheme and host in the URL.
	req.URL.Scheme, req.URL.Host = "", ""
	req.Host = pkHost
	if csrf {
		req.Header.Set("x-csrf-check", "1")
	}
	for k, v := range b.jar {
		req.AddCookie(&http.Cookie{Name: k, Value: v})
	}
	if tok, err := w.cm.ValidateAuthTokenCookie(req); err == nil {
		req = req.WithContext(context.WithValue(req.Context(), claimsKey{}, tok.Claims.(jwt.MapClaims)))
	}
	rec := httptest.NewRecorder()
	h(rec, req)
	for _, c := range rec.Result().Cookies() {
		if c.MaxAge < 0 || c.Value == "" {
			delete(b.jar, c.Name)
		} else {
			b.jar[c.Name] = c.Value
		}
	}
	return rec
}

// begin starts a login for orig and returns false if it could not.
func (w *pkWorld) begin(b *browser, orig string) bool {
	rec := w.do(b, func(rw http.ResponseWriter, req *http.Request) { w.m.RequestLogin(rw, req, orig) }, "GET", orig, nil, false)
	loc := rec.Header().Get("Location")
	if rec.Code != 302 {
		return false
	}
	rec = w.do(b, w.m.HandleCallback, "GET", loc, nil, false)
	u, err := url.Parse(rec.Header().Get("Location"))
	if rec.Code != 302 || err != nil {
		return false
	}
	b.token, b.orig = u.Query().Get("redirect"), orig
	return b.token != ""
}

// otherLogin gives the browser the cookie of the other identity provider.
func (w *pkWorld) otherLogin(b *browser, u *pkUser) time.Time {
	rec := httptest.NewRecorder()
	w.otherCM.SetAuthTokenCookie(rec, u.sub, u.email, "sid-"+u.email, pkHost, nil)
	for _, c := range rec.Result().Cookies() {
		b.jar[c.Name] = c.Value
	}
	return time.Now()
}

func (w *pkWorld) cb(b *browser, mode string, form url.Values, csrf bool) *httptest.ResponseRecorder {
	return w.do(b, w.m.HandleCallback, "POST", "https://"+pkHost+"/passkey?get="+mode+"&redirect="+url.QueryEscape(b.token), form, csrf)
}

func (w *pkWorld) manage(b *browser, mode string, form url.Values, csrf bool) *httptest.ResponseRecorder {
	return w.do(b, w.m.ManageKeys, "POST", "https://"+pkHost+"/.sso/passkeys?get="+mode, form, csrf)
}

type attOpts struct {
	Challenge json.RawMessage `json:"challenge"`
	User      struct {
		ID   []int  `json:"id"`
		Name string `json:"name"`
	} `json:"user"`
	RP struct {
		ID string `json:"id"`
	} `json:"rp"`
	Exclude []struct {
		ID []int `json:"id"`
	} `json:"excludeCredentials"`
	Allow []struct {
		ID []int `json:"id"`
	} `json:"allowCredentials"`
}

func ints(xs []int) []byte {
	b := make([]byte, len(xs))
	for i, x := range xs {
		b[i] = byte(x)
	}
	return b
}

// challengeOf decodes the options answered by the proxy.
func challengeOf(rec *httptest.ResponseRecorder) (string, *attOpts) {
	if rec.Code != 200 {
		return "", nil
	}
	var o attOpts
	if json.Unmarshal(rec.Body.Bytes(), &o) != nil {
		return "", nil
	}
	var c []int
	json.Unmarshal(o.Challenge, &c)
	if len(c) == 0 {
		return "", nil
	}
	return base64.RawURLEncoding.EncodeToString(ints(c)), &o
}

func jsArr(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func attArgs(cd, ao []byte) url.Values {
	j, _ := json.Marshal(map[string]any{"clientDataJSON": jsArr(cd), "attestationObject": jsArr(ao), "transports": []string{"usb"}})
	return url.Values{"args": {string(j)}}
}

func assArgs(id, cd, ad, sig, uh []byte, login string) url.Values {
	m := map[string]any{"id": base64.RawURLEncoding.EncodeToString(id), "clientDataJSON": jsArr(cd), "authenticatorData": jsArr(ad), "signature": jsArr(sig)}
	if uh != nil {
		m["userHandle"] = jsArr(uh)
	}
	if login != "" {
		m["loginId"] = login
	}
	j, _ := json.Marshal(m)
	return url.Values{"args": {string(j)}}
}

// TestP17 drives the passkey manager with its own authenticators.
func TestP17(t *testing.T) {
	r := vh.New(t, "cases are passkey registrations, logins and key management requests, honest or altered in one respect, by several users with a model of the registered keys; non-trivial when altered, concurrent or after a restart; distinct by kind of alteration and outcome")
	dir := vh.Work(t)
	tm, err := tokenmanager.New(vp.NewStore(t, filepath.Join(dir, "s")), nil, nil)
	if err != nil {
		t.Fatal(err)
	}
	n := vh.N(100, 3000)
	for i := 0; i < n && r.NumViolations() < 6; i++ {
		synctest.Run(func() {
			rnd := vh.Rand("p17", i)
			w := &pkWorld{tm: tm, other: &otherIDP{}, cm: cookiemanager.New(tm, "pk", "v.test", pkIssuer), otherCM: cookiemanager.New(tm, "other", "v.test", pkIssuer)}
			w.store = vp.NewStore(t, filepath.Join(dir, fmt.Sprint("h", i%8, "-", i)))
			if rnd.Intn(2) == 0 {
				w.acl = &[]string{"alice@corp.example", "@ok.example"}
			}
			if rnd.Intn(3) == 0 {
				w.refresh = time.Hour
			}
			if err := w.restart(); err != nil {
				r.Violate("new", nil, "NewManager: %v", err)
				return
			}
			passkeyHistory(r, w, rnd, i)
		})
	}
	for _, k := range []string{"login_ok", "register_ok", "addkey_ok", "delete_ok", "refused_login", "refused_register", "refused_manage", "restarts", "concurrent", "login_deleted_refused", "login_other_user_refused"} {
		r.NeedAtLeast(k, 10)
	}
}

func passkeyHistory(r *vh.Run, w *pkWorld, rnd *mrand.Rand, i int) {
	users := []*pkUser{{email: "alice@corp.example", sub: "s-alice"}, {email: "bob@ok.example", sub: "s-bob"}, {email: "eve@evil.example", sub: "s-eve"}}
	var log []string
	note := func(f string, a ...any) {
		log = append(log, fmt.Sprintf("%s ", time.Now().Format("15:04:05"))+fmt.Sprintf(f, a...))
	}
	fail := func(key, f string, a ...any) {
		r.Violate(key, map[string]any{"case": i, "history": log, "acl": w.acl, "refresh": w.refresh.String()}, f, a...)
	}
	allowed := func(u *pkUser) bool { return w.acl == nil || u.email != "eve@evil.example" }
	oldChallenges := []string{}
	origin := "https://" + pkHost
	restarted := false
	newBrowser := func(orig string) *browser {
		b := &browser{jar: map[string]string{}}
		if !w.begin(b, orig) {
			fail("begin", "a login could not be started")
			return nil
		}
		return b
	}
	// attObject builds the registration message of key k.
	att := func(k *pkey, chal, typ, org, rp string, flags byte) url.Values {
		kk := k
		if flags&0x40 == 0 {
			kk = nil
		}
		ao, _ := cbor.Marshal(map[string]any{"fmt": "none", "attStmt": map[string]any{}, "authData": authData(rp, flags, kk)})
		return attArgs(clientData(typ, chal, org), ao)
	}

	register := func() {
		u := users[rnd.Intn(len(users))]
		b := newBrowser("https://app.v.test/x")
		if b == nil {
			return
		}
		kind := []string{"honest", "honest", "honest", "nologin", "oldchal", "madeup", "assertchal", "otheruser", "origin", "rpid", "noUP", "noUV", "noAT", "type", "expired", "nocsrf", "notoken", "race", "race"}[rnd.Intn(19)]
		iat := w.otherLogin(b, u)
		if kind == "nologin" {
			delete(b.jar, "TLSPROXYAUTH")
		}
		chal, opts := challengeOf(w.cb(b, "AttestationOptions", nil, true))
		if kind == "nologin" {
			if chal != "" {
				fail("register-nologin", "attestation options were given without a login with the other provider")
			}
			k := newPKey(u.email, false)
			oc := "AAAA"
			if len(oldChallenges) > 0 {
				oc = oldChallenges[0]
			}
			rec := w.cb(b, "AddKey", att(k, oc, "webauthn.create", origin, pkHost, 0x45), true)
			if rec.Code == 200 || granted(rec) != nil {
				fail("register-nologin", "a key was registered without a login with the other provider")
			}
			r.Count("refused_register", 1)
			return
		}
		if chal == "" {
			fail("options", "attestation options refused for %s", u.email)
			return
		}
		if opts.User.Name != u.email || opts.RP.ID != pkHost {
			fail("options", "attestation options for user %q rp %q", opts.User.Name, opts.RP.ID)
		}
		had := len(u.live()) > 0
		k := newPKey(u.email, rnd.Intn(12) == 0)
		typ, org, rp, flags, csrf := "webauthn.create", origin, pkHost, byte(0x45), true
		ok := allowed(u) && !had
		used := chal
		switch kind {
		case "oldchal":
			if len(oldChallenges) == 0 {
				return
			}
			used, ok = oldChallenges[rnd.Intn(len(oldChallenges))], false
		case "madeup":
			used, ok = []string{"", "AAAA", chal + "A", strings.ToUpper(chal)}[rnd.Intn(4)], false
		case "assertchal":
			c, _ := challengeOf(w.cb(b, "AssertionOptions", url.Values{}, true))
			used, ok = c, false
		case "otheruser":
			v := users[(1+rnd.Intn(2)+indexOf(users, u))%len(users)]
			w.otherLogin(b, v)
			ok = false
		case "origin":
			org, ok = []string{"https://evil.example", "http://" + pkHost, "https://" + pkHost + ".evil.example", "", "https://x." + pkHost}[rnd.Intn(5)], false
		case "rpid":
			rp, ok = []string{"evil.example", "v.test", "https://" + pkHost}[rnd.Intn(3)], false
		case "noUP":
			flags, ok = 0x44, false
		case "noUV":
			flags, ok = 0x41, false
		case "noAT":
			flags, ok = 0x05, false
		case "type":
			typ, ok = []string{"webauthn.get", "", "payment.create"}[rnd.Intn(3)], false
		case "expired":
			time.Sleep(5*time.Minute + 10*time.Second)
			ok = false
		case "nocsrf":
			csrf, ok = false, false
		case "notoken":
			b.token, ok = "", false
		}
		forms := []url.Values{att(k, used, typ, org, rp, flags)}
		keys := []*pkey{k}
		handles := [][]byte{ints(opts.User.ID)}
		if kind == "race" {
			// a second key of the same user, with its own challenge, at the same time
			if c2, o2 := challengeOf(w.cb(b, "AttestationOptions", nil, true)); c2 != "" && rnd.Intn(2) == 0 {
				k2 := newPKey(u.email, false)
				forms = append(forms, att(k2, c2, typ, org, rp, flags))
				keys = append(keys, k2)
				handles = append(handles, ints(o2.User.ID))
			} else {
				forms = append(forms, forms[0])
				keys = append(keys, k)
				handles = append(handles, handles[0])
			}
			r.Count("concurrent", 1)
		}
		recs := make([]*httptest.ResponseRecorder, len(forms))
		var wg sync.WaitGroup
		for j := range forms {
			bb := &browser{jar: map[string]string{}, token: b.token, orig: b.orig}
			for n, v := range b.jar {
				bb.jar[n] = v
			}
			wg.Add(1)
			go func() { defer wg.Done(); recs[j] = w.cb(bb, "AddKey", forms[j], csrf) }()
		}
		wg.Wait()
		oks := 0
		for j, rec := range recs {
			if rec.Code == 200 {
				oks++
				keys[j].live = true
				u.keys = append(u.keys, keys[j])
				u.handle = handles[j]
				u.iat = iat
				c := granted(rec)
				if c == nil || c["email"] != u.email || c["sub"] != u.sub {
					fail("register-identity", "registration of %s gave the identity %v", u.email, c)
				}
			} else if granted(rec) != nil {
				fail("register-cookie", "a refused registration set an authentication cookie")
			}
		}
		note("register %s %s had=%v -> %d/%d ok", kind, u.email, had, oks, len(recs))
		switch {
		case oks > 0 && !ok:
			fail("registered:"+kind, "registration (%s) of %s (already registered: %v, allowed: %v) succeeded", kind, u.email, had, allowed(u))
		case oks > 1:
			fail("registered-twice", "%d concurrent first registrations of %s succeeded", oks, u.email)
		case oks == 0 && ok:
			fail("register-refused", "a correct registration of %s was refused: %d %s", u.email, recs[0].Code, recs[0].Body)
		}
		if oks > 0 {
			r.Count("register_ok", 1)
		} else {
			r.Count("refused_register", 1)
		}
		if oks > 0 {
			oldChallenges = append(oldChallenges, chal)
		}
		r.Eval(kind != "honest" || restarted, "register", kind, had, oks, restarted)
	}

	// login performs one login attempt; it returns the browser if it got in.
	login := func(u *pkUser, k *pkey, kind, orig string) *browser {
		b := newBrowser(orig)
		if b == nil {
			return nil
		}
		if kind == "otheridp" {
			w.otherLogin(b, u)
		}
		loginID := ""
		if rnd.Intn(2) == 0 {
			loginID = u.email
		}
		chal, opts := challengeOf(w.cb(b, "AssertionOptions", url.Values{"loginId": {loginID}}, true))
		if chal == "" {
			fail("options", "assertion options refused")
			return nil
		}
		if loginID != "" && u.handle != nil {
			want := map[string]bool{}
			for _, x := range u.live() {
				want[string(x.id)] = true
			}
			for _, a := range opts.Allow {
				if !want[string(ints(a.ID))] {
					fail("options-keys", "the options for %s offer a key that is not registered", u.email)
				}
				delete(want, string(ints(a.ID)))
			}
			if len(want) > 0 {
				fail("options-keys", "the options for %s miss %d registered keys", u.email, len(want))
			}
		}
		handle := u.handle
		if handle != nil && rnd.Intn(3) == 0 {
			handle, loginID = nil, u.email
		}
		ok := k.live && !k.deleted && k.email == u.email
		used, typ, org, rp, flags, id, signer, csrf := chal, "webauthn.get", origin, pkHost, byte(0x05), k.id, k, true
		switch kind {
		case "oldchal":
			if len(oldChallenges) == 0 {
				return nil
			}
			used, ok = oldChallenges[rnd.Intn(len(oldChallenges))], false
		case "madeup":
			used, ok = []string{"", "AAAA", chal + "A", strings.ToLower(chal)}[rnd.Intn(4)], false
		case "expired":
			time.Sleep(5*time.Minute + 10*time.Second)
			ok = false
		case "type":
			typ, ok = "webauthn.create", false
		case "rpid":
			rp, ok = []string{"evil.example", "v.test", "app.v.test"}[rnd.Intn(3)], false
		case "origin":
			org = []string{"https://evil.example", "https://evil." + pkHost}[rnd.Intn(2)]
		case "noUP":
			flags, ok = 0x04, false
		case "noUV":
			flags, ok = 0x01, false
		case "badkey":
			signer, ok = newPKey(u.email, false), false
		case "nocsrf":
			csrf, ok = false, false
		case "notoken":
			b.token, ok = "", false
		case "otherid":
			id, ok = append([]byte{1}, id...), false
		}
		cd := clientData(typ, used, org)
		ad := authData(rp, flags, nil)
		sig := signer.sign(ad, cd)
		switch kind {
		case "sigflip":
			sig = append([]byte(nil), sig...)
			sig[rnd.Intn(len(sig))] ^= byte(1 << rnd.Intn(8))
			ok = false
		case "sigempty":
			sig, ok = nil, false
		case "cdchanged": // a challenge signed elsewhere, relabelled
			cd2 := clientData(typ, used, org)
			sig = signer.sign(ad, clientData(typ, "AAAAAAAA", org))
			cd, ok = cd2, false
		case "adchanged":
			sig = signer.sign(authData(pkHost, 0x00, nil), cd)
			ok = false
		}
		form := assArgs(id, cd, ad, sig, handle, loginID)
		par := 1
		if kind == "race" {
			par = 2 + rnd.Intn(4)
			r.Count("concurrent", 1)
		}
		recs := make([]*httptest.ResponseRecorder, par)
		bs := make([]*browser, par)
		var wg sync.WaitGroup
		for j := range recs {
			bs[j] = &browser{jar: map[string]string{}, token: b.token, orig: orig}
			for n, v := range b.jar {
				bs[j].jar[n] = v
			}
			wg.Add(1)
			go func() { defer wg.Done(); recs[j] = w.cb(bs[j], "Check", form, csrf) }()
		}
		wg.Wait()
		var in *browser
		oks, refreshes := 0, 0
		for j, rec := range recs {
			if strings.Contains(rec.Body.String(), `"refresh"`) {
				refreshes++
			}
			c := granted(rec)
			if c == nil {
				continue
			}
			oks++
			in = bs[j]
			h := sha256.Sum256(k.id)
			if c["email"] != k.email || c["sub"] != u.sub || c["passkey_hash"] != hex.EncodeToString(h[:]) || c["provider"] != "pk" {
				fail("login-identity", "a key of %s (%s) logged in as %v / %v (provider %v, key hash %v)", k.email, hex.EncodeToString(h[:4]), c["email"], c["sub"], c["provider"], c["passkey_hash"])
			}
		}
		note("login %s %s live=%v del=%v own=%v x%d -> %d ok %d refresh", kind, u.email, k.live, k.deleted, k.email == u.email, par, oks, refreshes)
		if kind == "otheridp" && ok && oks+refreshes > 0 {
			u.iat = time.Now()
		}
		needRefresh := w.refresh > 0 && time.Since(u.iat) > w.refresh+2*time.Second
		surelyFresh := w.refresh == 0 || time.Since(u.iat) < w.refresh-2*time.Second
		switch {
		case oks > 0 && kind == "origin":
			fail("assertion-origin", "an assertion made for the site %s logged in", org)
		case (oks > 0 || refreshes > 0) && !ok:
			fail("login:"+kind, "a login (%s) with a key of %s, registered %v, deleted %v, for %s succeeded", kind, k.email, k.live, k.deleted, u.email)
		case oks+refreshes > 1:
			fail("login-replay", "%d concurrent uses of one challenge succeeded", oks+refreshes)
		case oks > 0 && needRefresh:
			fail("login-stale-identity", "login although the identity was last confirmed %v ago (limit %v)", time.Since(u.iat), w.refresh)
		case ok && kind != "origin" && oks == 0 && surelyFresh:
			fail("login-refused", "a correct login (%s) of %s was refused: %d %s", kind, u.email, recs[0].Code, vh.Trunc(recs[0].Body.String(), 200))
		}
		if oks > 0 {
			oldChallenges = append(oldChallenges, chal)
			r.Count("login_ok", 1)
		} else {
			r.Count("refused_login", 1)
			if k.deleted && kind == "honest" {
				r.Count("login_deleted_refused", 1)
			}
			if k.email != u.email {
				r.Count("login_other_user_refused", 1)
			}
		}
		r.Eval(kind != "honest" || restarted || !ok, "login", kind, k.deleted, k.email == u.email, oks, refreshes, restarted)
		return in
	}
	anyKey := func() (*pkUser, *pkey) {
		var us []*pkUser
		for _, u := range users {
			if len(u.keys) > 0 {
				us = append(us, u)
			}
		}
		if len(us) == 0 {
			return nil, nil
		}
		u := us[rnd.Intn(len(us))]
		return u, u.keys[rnd.Intn(len(u.keys))]
	}
	manage := func() {
		u, k := anyKey()
		if u == nil || k.deleted || !k.live {
			return
		}
		orig := "https://" + pkHost + "/.sso/passkeys"
		kind := []string{"add", "add", "delete", "delete", "old", "otherhost", "deletecurrent", "deleteforeign", "nocsrf", "nologin", "othercookie"}[rnd.Intn(11)]
		if kind == "otherhost" {
			orig = "https://app.v.test/"
		}
		b := login(u, k, "honest", orig)
		if b == nil {
			return
		}
		in := true
		switch kind {
		case "old":
			time.Sleep(10*time.Minute + 5*time.Second)
			in = false
		case "otherhost":
			in = false
		case "nologin":
			b.jar = map[string]string{}
			in = false
		case "othercookie": // the other provider's cookie does not do
			w.otherLogin(b, u)
			in = false
		}
		if kind == "delete" && len(u.live()) < 2 {
			kind = "add"
		}
		del := kind == "delete" || kind == "deletecurrent" || kind == "deleteforeign" || kind != "add" && rnd.Intn(2) == 0
		if del {
			victim := u.keys[rnd.Intn(len(u.keys))]
			if l := u.live(); kind == "delete" && victim == k {
				victim = l[rnd.Intn(len(l))]
			}
			if kind == "deleteforeign" {
				v, vk := anyKey()
				if v == nil || v == u {
					return
				}
				victim = vk
			}
			if kind == "deletecurrent" {
				victim = k
			}
			rec := w.manage(b, "DeleteKey", url.Values{"id": {hex.EncodeToString(victim.id)}}, kind != "nocsrf")
			okd := rec.Code == 200 && strings.Contains(rec.Body.String(), `"ok"`)
			effective := in && kind != "nocsrf" && victim != k && victim.email == u.email && victim.live && !victim.deleted
			note("delete (%s) by %s of a key of %s -> %d effective=%v", kind, u.email, victim.email, rec.Code, effective)
			if effective && !okd {
				fail("delete-refused", "deleting another own key was refused: %d", rec.Code)
			}
			if !in && okd {
				fail("delete-open:"+kind, "a key deletion was accepted (%s)", kind)
			}
			if effective {
				victim.deleted = true
				r.Count("delete_ok", 1)
			} else {
				r.Count("refused_manage", 1)
			}
			r.Eval(true, "delete", kind, effective)
			return
		}
		rec := w.manage(b, "AttestationOptions", nil, kind != "nocsrf")
		chal, opts := challengeOf(rec)
		if !in || kind == "nocsrf" {
			if chal != "" {
				fail("manage-open:"+kind, "attestation options were given (%s)", kind)
			}
			chal = "AAAA"
			if len(oldChallenges) > 0 {
				chal = oldChallenges[len(oldChallenges)-1]
			}
		} else if chal == "" {
			fail("manage-refused", "attestation options refused after a fresh login: %d", rec.Code)
			return
		} else {
			want := map[string]bool{}
			for _, x := range u.live() {
				want[string(x.id)] = true
			}
			for _, e := range opts.Exclude {
				delete(want, string(ints(e.ID)))
			}
			if len(want) > 0 {
				fail("manage-list", "%d registered keys of %s are missing from the list", len(want), u.email)
			}
		}
		nk := newPKey(u.email, false)
		org := origin
		if rnd.Intn(6) == 0 {
			org = "https://evil.example"
		}
		rec = w.manage(b, "AddKey", att(nk, chal, "webauthn.create", org, pkHost, 0x45), kind != "nocsrf")
		okd := rec.Code == 200 && strings.Contains(rec.Body.String(), `"ok"`)
		want := in && kind != "nocsrf" && org == origin
		note("add key (%s) for %s origin %s -> %d", kind, u.email, org, rec.Code)
		if okd && !want {
			fail("addkey-open:"+kind, "a key was added (%s, origin %s)", kind, org)
		}
		if !okd && want {
			fail("addkey-refused", "adding a key after a fresh login was refused: %d %s", rec.Code, rec.Body)
		}
		if okd {
			nk.live = true
			u.keys = append(u.keys, nk)
			r.Count("addkey_ok", 1)
		} else {
			r.Count("refused_manage", 1)
		}
		r.Eval(true, "addkey", kind, okd)
	}
	steps := 25 + rnd.Intn(15)
	for s := 0; s < steps && r.NumViolations() < 6; s++ {
		switch op := rnd.Intn(12); {
		case op < 3:
			register()
		case op < 6:
			u, k := anyKey()
			if u == nil {
				continue
			}
			kind := []string{"honest", "honest", "otheridp", "oldchal", "madeup", "expired", "type", "rpid", "origin", "noUP", "noUV", "badkey", "nocsrf", "notoken", "otherid", "sigflip", "sigempty", "cdchanged", "adchanged", "race", "race", "foreign", "foreign"}[rnd.Intn(23)]
			if kind == "foreign" {
				_, k = anyKey()
				if k.email == u.email {
					continue
				}
			}
			login(u, k, kind, "https://app.v.test/y")
		case op < 10:
			manage()
		case op == 10:
			if err := w.restart(); err != nil {
				fail("restart", "the key database does not open: %v", err)
				return
			}
			restarted = true
			note("restart")
			r.Count("restarts", 1)
		default:
			d := []time.Duration{time.Second, time.Minute, 20 * time.Minute, 2 * time.Hour}[rnd.Intn(4)]
			time.Sleep(d)
			note("sleep %v", d)
		}
	}
	// In the end every key works exactly if it is registered, also after a restart.
	for pass := 0; pass < 2 && r.NumViolations() < 6; pass++ {
		for _, u := range users {
			for _, k := range u.keys {
				login(u, k, "honest", "https://app.v.test/z")
			}
		}
		if err := w.restart(); err != nil {
			fail("restart", "the key database does not open: %v", err)
			return
		}
		restarted = true
	}
	if i < 2 {
		r.Sample(map[string]any{"history": log})
	}
}

func indexOf(us []*pkUser, u *pkUser) int {
	for i, x := range us {
		if x == u {
			return i
		}
	}
	return 0
}

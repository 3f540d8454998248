package pki

import (
	"bytes"
	"context"
	"crypto"
	"crypto/rand"
	"fmt"
	mrand "math/rand"
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ssh"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/sshca"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// sshReq is one generated request body.
type sshReq struct {
	kind string
	body []byte
	key  ssh.PublicKey // nil: must be refused
}

func sshKey(k crypto.Signer) ssh.PublicKey {
	p, err := ssh.NewPublicKey(k.Public())
	if err != nil {
		panic(err)
	}
	return p
}

func genSSH(r *mrand.Rand, signer ssh.Signer) sshReq {
	k := sshKey(reqKeys[r.Intn(len(reqKeys))])
	line := string(ssh.MarshalAuthorizedKey(k))
	f := strings.Fields(line)
	switch r.Intn(16) {
	case 0:
		return sshReq{"comment", []byte(f[0] + " " + f[1] + " root@v.test, extra"), k}
	case 1:
		return sshReq{"options", []byte(`from="10.0.0.1",command="sh" ` + line), k}
	case 2:
		return sshReq{"leading-comment", []byte("# a comment\n\n" + line), k}
	case 3:
		other := ssh.MarshalAuthorizedKey(sshKey(reqKeys[0]))
		return sshReq{"two", append([]byte(line), other...), k}
	case 4:
		return sshReq{"empty", nil, nil}
	case 5:
		return sshReq{"garbage", []byte("ssh-rsa AAAA" + strings.Repeat("x", r.Intn(50))), nil}
	case 6:
		b := []byte(f[1])
		b[4+r.Intn(12)] ^= 3
		return sshReq{"algo", []byte(f[0] + " " + string(b)), nil}
	case 7:
		return sshReq{"truncated", []byte(f[0] + " " + f[1][:r.Intn(len(f[1])-20)/4*4]), nil}
	case 8, 9:
		// a certificate instead of a key
		c := &ssh.Certificate{Key: k, CertType: ssh.UserCert, KeyId: "root@v.test", ValidPrincipals: []string{"root"}, ValidBefore: ssh.CertTimeInfinity}
		if err := c.SignCert(rand.Reader, signer); err != nil {
			panic(err)
		}
		return sshReq{"certificate", ssh.MarshalAuthorizedKey(c), nil}
	case 10:
		return sshReq{"huge", bytes.Repeat([]byte("#aaaaaaaaaaaaaaa\n"), 10000), nil}
	}
	return sshReq{"plain", []byte(line), k}
}

type sshWorld struct {
	r    *vh.Run
	pub  ssh.PublicKey
	mu   sync.Mutex
	sers map[uint64]bool
}

func (w *sshWorld) check(user string, q sshReq, expect bool, code int, body string, before, after time.Time) {
	desc := map[string]any{"user": user, "kind": q.kind, "body": vh.Trunc(string(q.body), 400), "status": code, "answer": vh.Trunc(body, 300)}
	w.r.Eval(true, user, q.kind, expect)
	pub, _, _, _, err := ssh.ParseAuthorizedKey([]byte(body))
	cert, ok := pub.(*ssh.Certificate)
	if err != nil || !ok {
		if expect && q.key != nil {
			w.r.Violate("refused", desc, "a correct SSH certificate request of %q (%s) was refused: %d", user, q.kind, code)
		}
		w.r.Count("refused", 1)
		w.r.Count("refused_"+q.kind, 1)
		return
	}
	if !expect || q.key == nil {
		w.r.Violate("issued", desc, "an SSH certificate was issued for a request of %q (%s) that must be refused", user, q.kind)
		return
	}
	w.r.Count("issued", 1)
	bad := func(f string, a ...any) {
		w.r.Violate("content", desc, "SSH certificate of %s: %s", user, fmt.Sprintf(f, a...))
	}
	if cert.CertType != ssh.UserCert {
		bad("type %d", cert.CertType)
	}
	if len(cert.ValidPrincipals) != 1 || cert.ValidPrincipals[0] != user || cert.KeyId != user {
		bad("principals %q key id %q", cert.ValidPrincipals, cert.KeyId)
	}
	if !bytes.Equal(cert.Key.Marshal(), q.key.Marshal()) {
		bad("another key than the submitted one")
	}
	if !bytes.Equal(cert.SignatureKey.Marshal(), w.pub.Marshal()) {
		bad("not signed with the published CA key")
	}
	va, vb := int64(cert.ValidAfter), int64(cert.ValidBefore)
	if va > after.Unix() || va < before.Add(-10*time.Minute).Unix() || vb <= before.Unix() || vb > after.Add(10*time.Minute+time.Second).Unix() {
		bad("valid from %v to %v, issued at %v", time.Unix(va, 0), time.Unix(vb, 0), before)
	}
	if len(cert.CriticalOptions) > 0 {
		bad("critical options %v", cert.CriticalOptions)
	}
	ck := ssh.CertChecker{IsUserAuthority: func(k ssh.PublicKey) bool { return bytes.Equal(k.Marshal(), w.pub.Marshal()) }}
	if err := ck.CheckCert(user, cert); err != nil {
		bad("%v", err)
	}
	w.mu.Lock()
	if w.sers[cert.Serial] {
		bad("serial %d was used before", cert.Serial)
	}
	w.sers[cert.Serial] = true
	w.mu.Unlock()
}

func TestP20(t *testing.T) {
	r := vh.New(t, "SSH certificates")
	defer r.NeedAtLeast("issued", 500)
	defer r.NeedAtLeast("refused", 500)
	defer r.NeedAtLeast("refused_certificate", 30)
	dir := vh.Work(t)
	vh.Parallel(8, vh.N(64, 1000), func(i int) {
		rnd := vh.Rand("p20", i)
		d := filepath.Join(dir, fmt.Sprint(i))
		kt := []string{"", "ecdsa-p256", "ecdsa-p384", "ecdsa-p521", "ed25519", "ed25519", "ecdsa-p256", "rsa-2048"}[i%8]
		open := func() *sshca.SSHCA {
			ca, err := sshca.New(sshca.Options{Name: "my/ssh ca", KeyType: kt, Store: vp.NewStore(t, d), Logger: quiet{}, ClaimsFromCtx: claimsOf})
			if err != nil {
				r.Violate("start", kt, "the SSH CA does not start: %v", err)
			}
			return ca
		}
		ca := open()
		if ca == nil {
			return
		}
		published := func() ssh.PublicKey {
			rec := httptest.NewRecorder()
			ca.ServePublicKey(rec, httptest.NewRequest("GET", "https://ssh.v.test/ca", nil))
			pub, _, _, _, err := ssh.ParseAuthorizedKey(rec.Body.Bytes())
			if err != nil {
				r.Violate("public-key", kt, "the published key does not parse: %v", err)
			}
			return pub
		}
		w := &sshWorld{r: r, pub: published(), sers: map[uint64]bool{}}
		if w.pub == nil {
			return
		}
		signer, _ := ssh.NewSignerFromSigner(reqKeys[rnd.Intn(len(reqKeys))])
		for round := 0; round < vh.N(12, 20); round++ {
			var wg sync.WaitGroup
			for k := 0; k < 10; k++ {
				q := genSSH(rnd, signer)
				expect := true
				var claims jwt.MapClaims
				user := users19[rnd.Intn(len(users19))]
				claims = jwt.MapClaims{"email": user, "sub": "x"}
				if rnd.Intn(8) == 0 {
					claims = []jwt.MapClaims{nil, {}, {"email": ""}, {"email": 3}, {"sub": user}, {"email": []string{user}}}[rnd.Intn(6)]
					expect = false
				}
				method := "POST"
				if rnd.Intn(12) == 0 {
					method, expect = []string{"GET", "PUT", "HEAD"}[rnd.Intn(3)], false
				}
				req := httptest.NewRequest(method, "https://ssh.v.test/cert?email=root@v.test&principal=root&ttl=1000h", bytes.NewReader(q.body))
				tok, ok := csrf(rnd)
				if tok != "" {
					req.Header.Set("X-Csrf-Check", tok)
				}
				ct := "text/plain"
				if rnd.Intn(12) == 0 {
					ct = []string{"", "application/x-www-form-urlencoded", "multipart/form-data"}[rnd.Intn(3)]
					ok = false
				}
				if ct != "" {
					req.Header.Set("Content-Type", ct)
				}
				expect = expect && ok
				if claims != nil {
					req = req.WithContext(context.WithValue(req.Context(), userKey{}, claims))
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							r.Violate("panic", map[string]any{"kind": q.kind, "body": string(q.body)}, "panic while serving a %s request: %v", q.kind, p)
						}
					}()
					rec := httptest.NewRecorder()
					before := time.Now()
					ca.ServeCertificate(rec, req)
					w.check(user, q, expect, rec.Code, rec.Body.String(), before, time.Now())
				}()
			}
			wg.Wait()
			if rnd.Intn(4) == 0 {
				if ca = open(); ca == nil {
					return
				}
				if got := published(); got == nil || !bytes.Equal(got.Marshal(), w.pub.Marshal()) {
					r.Violate("unstable", kt, "the CA key changed after a restart")
				}
				r.Count("restarts", 1)
			}
		}
	})
}

// TestP20E2E drives the SSH CA of a running proxy with real logins.
func TestP20E2E(t *testing.T) {
	r := vh.New(t, "SSH certificates through the proxy")
	defer r.NeedAtLeast("issued", 60)
	e := vp.NewEnv(t)
	idp := vp.NewIDP(t)
	cfg := e.Config(false,
		&proxy.Backend{ServerNames: []string{"ssh.v.test"}, Mode: "LOCAL", SSO: &proxy.BackendSSO{Provider: "op", ACL: &[]string{"@v.test"}}},
		&proxy.Backend{ServerNames: []string{"open.v.test"}, Mode: "LOCAL"},
		&proxy.Backend{ServerNames: []string{"login.v.test"}, Mode: "LOCAL"},
	)
	cfg.OIDCProviders = []*proxy.ConfigOIDC{idp.Config("op", "login.v.test", "v.test")}
	cfg.SSHCertificateAuthorities = []*proxy.ConfigSSHCertificateAuthority{
		{Name: "one", PublicKeyEndpoint: "https://open.v.test/ca", CertificateEndpoint: "https://ssh.v.test/cert"},
		{Name: "two", KeyType: "ed25519", PublicKeyEndpoint: "https://open.v.test/ca2", CertificateEndpoint: "https://open.v.test/cert"},
	}
	p := e.Start(cfg)
	defer func() { p.End() }()
	pub := func() ssh.PublicKey {
		res, err := p.Browser(vp.ClientOpt{}).Get("https://open.v.test/ca")
		if err != nil {
			t.Fatal(err)
		}
		k, _, _, _, err := ssh.ParseAuthorizedKey([]byte(res.Text))
		if err != nil {
			t.Fatal(err)
		}
		return k
	}
	w := &sshWorld{r: r, pub: pub(), sers: map[uint64]bool{}}
	signer, _ := ssh.NewSignerFromSigner(reqKeys[0])
	for round := range 2 {
		browsers := map[string]*vp.Browser{}
		for _, u := range users19 {
			br := p.Browser(vp.ClientOpt{})
			if _, err := br.Login(idp, "https://ssh.v.test/cert", u); err != nil {
				r.Inconclusive("login %s: %v", u, err)
			}
			browsers[u] = br
		}
		vh.Parallel(8, vh.N(300, 3000), func(i int) {
			rnd := vh.Rand("p20e", round*100000+i)
			q := genSSH(rnd, signer)
			user := append(users19, "")[rnd.Intn(len(users19)+1)]
			tok, expect := csrf(rnd)
			hdr := http.Header{"Content-Type": {"text/plain"}}
			if tok != "" {
				hdr.Set("X-Csrf-Check", tok)
			}
			u := "https://ssh.v.test/cert"
			br := browsers[user]
			if user == "" {
				br = p.Browser(vp.ClientOpt{})
				hdr.Set("X-Tlsproxy-User-Id", "alice@v.test")
			}
			if user == "" || !strings.HasSuffix(user, "@v.test") {
				expect = false
			}
			if rnd.Intn(10) == 0 {
				u, expect = "https://open.v.test/cert", false
			}
			before := time.Now()
			res, err := br.Do("POST", u, bytes.NewReader(q.body), hdr)
			if err != nil {
				if q.key != nil {
					r.Inconclusive("%v", err)
				}
				return
			}
			w.check(user, q, expect, res.StatusCode, res.Text, before, time.Now())
		})
		for _, x := range vp.Log.TakePanics() {
			r.Violate("panic", x, "panic: %s", vh.Trunc(x, 300))
		}
		if round == 0 {
			p.End()
			p = e.Start(cfg)
			if got := pub(); !bytes.Equal(got.Marshal(), w.pub.Marshal()) {
				r.Violate("unstable", nil, "the CA key changed after a restart")
			}
		}
	}
}

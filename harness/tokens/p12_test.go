//go:build goexperiment.synctest

// Package tokens monitors token key rotation (P12) on a virtual clock.
package tokens

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/c2FmZQ/storage"
	skcrypto "github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
)

type jwk struct{ Kty, Use, Kid, Alg, Crv, X, Y, N, E string }

// keySet is a relying party's view: it follows RFC 7517/7518/8037 to the letter
// and knows nothing else.
type keySet map[string]func(alg string, msg, sig []byte) error

func b64(s string) ([]byte, error) { return base64.RawURLEncoding.DecodeString(s) }

func parseJWKS(doc []byte) (keySet, []jwk, error) {
	var d struct{ Keys []jwk }
	if err := json.Unmarshal(doc, &d); err != nil {
		return nil, nil, err
	}
	ks := keySet{}
	for _, k := range d.Keys {
		if k.Kid == "" || k.Use != "sig" || ks[k.Kid] != nil {
			return nil, nil, fmt.Errorf("key %+v: bad kid or use", k)
		}
		x, e1 := b64(k.X)
		y, e2 := b64(k.Y)
		n, e3 := b64(k.N)
		e, e4 := b64(k.E)
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
			return nil, nil, fmt.Errorf("key %+v: bad base64url", k)
		}
		switch k.Kty {
		case "EC":
			// RFC 7518 6.2.1.2: the octet string is the full size of a coordinate.
			if k.Crv != "P-256" || k.Alg != "ES256" || len(x) != 32 || len(y) != 32 {
				return nil, nil, fmt.Errorf("EC key %s: crv %s alg %s, coordinates of %d and %d octets (must be 32)", k.Kid, k.Crv, k.Alg, len(x), len(y))
			}
			pub := &ecdsa.PublicKey{Curve: elliptic.P256(), X: new(big.Int).SetBytes(x), Y: new(big.Int).SetBytes(y)}
			if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
				return nil, nil, fmt.Errorf("EC key %s is not on the curve", k.Kid)
			}
			ks[k.Kid] = func(alg string, msg, sig []byte) error {
				h := sha256.Sum256(msg)
				if alg != "ES256" || len(sig) != 64 || !ecdsa.Verify(pub, h[:], new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])) {
					return fmt.Errorf("bad %s signature", alg)
				}
				return nil
			}
		case "OKP":
			if k.Crv != "Ed25519" || k.Alg != "EdDSA" || len(x) != 32 {
				return nil, nil, fmt.Errorf("OKP key %+v", k)
			}
			ks[k.Kid] = func(alg string, msg, sig []byte) error {
				if alg != "EdDSA" || !ed25519.Verify(x, msg, sig) {
					return fmt.Errorf("bad %s signature", alg)
				}
				return nil
			}
		case "RSA":
			if k.Alg != "RS256" || len(n) < 256 || n[0] == 0 || len(e) == 0 || e[0] == 0 {
				return nil, nil, fmt.Errorf("RSA key %+v", k)
			}
			pub := &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: int(new(big.Int).SetBytes(e).Int64())}
			ks[k.Kid] = func(alg string, msg, sig []byte) error {
				h := sha256.Sum256(msg)
				if alg != "RS256" {
					return fmt.Errorf("alg %s with an RSA key", alg)
				}
				return rsa.VerifyPKCS1v15(pub, crypto.SHA256, h[:], sig)
			}
		default:
			return nil, nil, fmt.Errorf("unknown key type %q", k.Kty)
		}
	}
	return ks, d.Keys, nil
}

func (ks keySet) verify(tok string) (kid string, err error) {
	p := strings.Split(tok, ".")
	if len(p) != 3 {
		return "", fmt.Errorf("not a JWT")
	}
	h, err := b64(p[0])
	if err != nil {
		return "", err
	}
	sig, err := b64(p[2])
	if err != nil {
		return "", err
	}
	var hdr struct{ Alg, Kid, Typ string }
	if err := json.Unmarshal(h, &hdr); err != nil {
		return "", err
	}
	v := ks[hdr.Kid]
	if v == nil {
		return hdr.Kid, fmt.Errorf("key %q is not published", hdr.Kid)
	}
	return hdr.Kid, v(hdr.Alg, []byte(p[0]+"."+p[1]), sig)
}

type issued struct {
	tok  string
	at   time.Time
	exp  time.Time
	kid  string
	alg  string
	life string
}

// TestP12 runs the real token manager with its rotation loop, for weeks of
// virtual time and across restarts of any length.
func TestP12(t *testing.T) {
	run := vh.New(t, "A case is one check of one live token at one moment of virtual time; distinct non-trivial = distinct (history, algorithm, hour).")
	dir := vh.Work(t)
	vh.Parallel(8, vh.N(24, 240), func(i int) { history(t, run, dir, i) })
	run.NeedAtLeast("tokens", 5000)
	run.NeedAtLeast("live_checks", 50000)
	run.NeedAtLeast("restarts", 60)
	run.NeedAtLeast("key_changes", 60)
	run.NeedAtLeast("withdrawn_keys", 60)
}

func pick[T any](r *rand.Rand, v ...T) T { return v[r.Intn(len(v))] }

func history(t *testing.T, run *vh.Run, base string, i int) {
	r := vh.Rand("P12", i)
	mk, err := skcrypto.CreateMasterKey(skcrypto.WithAlgo(skcrypto.PickFastest))
	if err != nil {
		t.Error(err)
		return
	}
	dir := filepath.Join(base, fmt.Sprint(i))
	store := func() *storage.Storage { return storage.New(dir, mk) }
	var trace []string
	synctest.Run(func() {
		start := time.Now()
		note := func(f string, a ...any) {
			trace = append(trace, fmt.Sprintf("%v ", time.Since(start).Truncate(time.Minute))+fmt.Sprintf(f, a...))
		}
		var live []issued
		published := map[string]time.Time{} // when the key was first seen in the key set
		kinds := map[string]string{}
		lastKid := map[string]string{}
		perAlg := map[string]bool{} // algorithms that had a key before
		var tm *tokenmanager.TokenManager
		var stop context.CancelFunc
		var up time.Time
		etag := ""
		var lastDoc []byte
		type snapshot struct {
			at   time.Time
			kids map[string]bool
		}
		var fetched []snapshot // the key sets published during the last hour
		fetch := func() keySet {
			w := httptest.NewRecorder()
			req := httptest.NewRequest("GET", "https://v.test/jwks", nil)
			if etag != "" && r.Intn(2) == 0 {
				req.Header.Set("If-None-Match", etag)
			}
			tm.ServeJWKS(w, req)
			doc := w.Body.Bytes()
			if w.Code == http.StatusNotModified {
				doc = lastDoc
				run.Count("not_modified", 1)
				// what a client without a cache gets must be the same
				w2 := httptest.NewRecorder()
				tm.ServeJWKS(w2, httptest.NewRequest("GET", "https://v.test/jwks", nil))
				w3 := httptest.NewRecorder()
				tm.ServeJWKS(w3, req)
				if w2.Body.String() != string(doc) && w3.Code == http.StatusNotModified {
					run.Violate("stale-304", trace, "the key set changed but a client with the previous Etag was told it had not")
				}
			}
			etag, lastDoc = w.Header().Get("Etag"), doc
			ks, keys, err := parseJWKS(doc)
			if err != nil {
				run.Violate("jwks-invalid", map[string]any{"jwks": string(doc), "history": i}, "the published key set is not valid: %v", err)
				return nil
			}
			snap := snapshot{time.Now(), map[string]bool{}}
			for _, k := range keys {
				snap.kids[k.Kid] = true
			}
			for len(fetched) > 0 && time.Since(fetched[0].at) >= time.Hour {
				fetched = fetched[1:]
			}
			fetched = append(fetched, snap)
			for _, k := range keys {
				if _, ok := published[k.Kid]; !ok {
					published[k.Kid] = time.Now()
					run.Count("keys", 1)
				}
				kinds[k.Kid] = k.Alg
			}
			for kid, at := range published {
				if ks[kid] == nil {
					delete(published, kid)
					run.Count("withdrawn_keys", 1)
					note("withdrawn %s key published %v earlier", kinds[kid], time.Since(at).Truncate(time.Hour))
				} else if age := time.Since(at); age > 9*24*time.Hour && time.Since(up) > 4*24*time.Hour {
					run.Violate("never-withdrawn", trace, "a key is still published %v after it first appeared", age)
				}
			}
			return ks
		}
		var cached keySet
		var cachedAt time.Time
		boot := func() bool {
			var err error
			if tm, err = tokenmanager.New(store(), nil, nil); err != nil {
				run.Violate("start", trace, "the token manager does not start: %v", err)
				return false
			}
			up = time.Now()
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan struct{})
			go func() {
				tm.KeyRotationLoop(ctx)
				close(done)
			}()
			stop = func() {
				cancel()
				<-done
			}
			note("started")
			return true
		}
		audit := func() {
			ks := fetch()
			if ks == nil {
				return
			}
			var keep []issued
			for _, is := range live {
				if !time.Now().Before(is.exp) {
					continue
				}
				keep = append(keep, is)
				run.Count("live_checks", 1)
				rep := map[string]any{"history": i, "trace": trace, "issued": is.at.Sub(start).String(), "now": time.Since(start).String(), "alg": is.alg, "kid": is.kid}
				if _, err := tm.ValidateToken(is.tok); err != nil {
					run.Violate("live-token-refused", rep, "an %s token issued %v ago and valid for %v more is refused by the proxy: %v", is.alg, time.Since(is.at), time.Until(is.exp), err)
				}
				if _, err := ks.verify(is.tok); err != nil {
					run.Violate("live-token-unverifiable", rep, "an %s token issued %v ago and valid for %v more does not verify with the published keys: %v", is.alg, time.Since(is.at), time.Until(is.exp), err)
				}
			}
			live = keep
			if cached == nil || time.Since(cachedAt) >= time.Hour {
				cached, cachedAt = ks, time.Now()
			}
		}
		issue := func() {
			alg := pick(r, "", "EdDSA", "ES256", "RS256", "ES256")
			lt := pick(r, 20*time.Hour, 20*time.Hour, time.Hour, 10*time.Minute)
			now := time.Now()
			tok, err := tm.CreateToken(jwt.MapClaims{"iat": now.Unix(), "exp": now.Add(lt).Unix(), "sub": fmt.Sprint(len(live))}, alg)
			if err != nil {
				run.Violate("cannot-sign", trace, "CreateToken(%q): %v", alg, err)
				return
			}
			if alg == "" {
				alg = "EdDSA"
			}
			ks := fetch()
			if ks == nil {
				return
			}
			kid, err := ks.verify(tok)
			if err != nil {
				run.Violate("new-token-unverifiable", trace, "a new %s token does not verify with the published keys: %v", alg, err)
				return
			}
			if _, err := tm.ValidateToken(tok); err != nil {
				run.Violate("new-token-refused", trace, "a new %s token is refused: %v", alg, err)
			}
			if kinds[kid] != alg {
				run.Violate("wrong-alg", trace, "asked for %s, signed with a key for %s", alg, kinds[kid])
			}
			// A relying party may keep the key set for an hour.
			for _, f := range fetched {
				if age := now.Sub(f.at); age < time.Hour && perAlg[alg] && !f.kids[kid] {
					run.Violate("unpublished-key", trace, "a new %s token is signed with a key that was not yet published %v ago", alg, age)
				}
			}
			if cached != nil && perAlg[alg] && now.Sub(start) > 2*time.Hour && now.Sub(cachedAt) < time.Hour {
				if _, err := cached.verify(tok); err != nil {
					run.Violate("cache-miss", trace, "a relying party that fetched the key set %v ago cannot verify a new %s token: %v", now.Sub(cachedAt), alg, err)
				}
				run.Count("cached_verifier_checks", 1)
			}
			// Signing keys are replaced regularly.
			if age := now.Sub(published[kid]); age > 30*time.Hour && now.Sub(up) > 30*time.Hour {
				run.Violate("not-replaced", trace, "a token is signed with a key published %v ago", age)
			}
			if lastKid[alg] != kid {
				lastKid[alg] = kid
				perAlg[alg] = true
				run.Count("key_changes", 1)
				note("%s signs with %.6s", alg, kid)
			}
			live = append(live, issued{tok: tok, at: now, exp: now.Add(lt).Truncate(time.Second), kid: kid, alg: alg})
			run.Count("tokens", 1)
			run.Eval(true, i, alg, int(now.Sub(start).Hours()))
		}
		if !boot() {
			return
		}
		// uptime phases separated by downtimes
		for phase := 0; phase < 5; phase++ {
			end := time.Now().Add(pick(r, time.Duration(r.Intn(6*60))*time.Minute, 26*time.Hour, 3*24*time.Hour, 9*24*time.Hour, 30*time.Hour))
			if phase == 0 {
				end = time.Now().Add(pick(r, 5*time.Hour, 26*time.Hour, 50*time.Hour, 9*24*time.Hour))
			}
			for time.Now().Before(end) {
				for k := r.Intn(3); k >= 0; k-- {
					issue()
				}
				audit()
				time.Sleep(pick(r, time.Duration(1+r.Intn(50))*time.Minute, time.Hour, 59*time.Minute+59*time.Second, time.Duration(1+r.Intn(4*60))*time.Minute))
			}
			stop()
			down := pick(r, time.Second, time.Hour, 5*time.Hour, 25*time.Hour, 6*24*time.Hour, 8*24*time.Hour, 6*24*time.Hour+23*time.Hour, 40*24*time.Hour)
			note("down for %v", down)
			time.Sleep(down)
			if !boot() {
				return
			}
			run.Count("restarts", 1)
			audit()
		}
		stop()
	})
	if i < 3 {
		run.Sample(map[string]any{"history": i, "trace": trace[:min(len(trace), 30)]})
	}
}

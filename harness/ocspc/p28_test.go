//go:build goexperiment.synctest

package ocspc

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"log"
	"math/big"
	mrand "math/rand"
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

type quiet struct{}

func (quiet) Errorf(string, ...any)     {}
func (quiet) Fatalf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }

type ent struct {
	cert *x509.Certificate
	key  crypto.Signer
	name string
}

var serial int64 = 1000

func newEnt(name string, parent *ent, key crypto.Signer, mod func(*x509.Certificate)) *ent {
	if key == nil {
		key, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	}
	serial++
	now := time.Now()
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: now.Add(-time.Hour), NotAfter: now.Add(1000 * 24 * time.Hour)}
	if mod != nil {
		mod(t)
	}
	p := &ent{cert: t, key: key}
	if parent != nil {
		p = parent
	}
	raw, err := x509.CreateCertificate(rand.Reader, t, p.cert, key.Public(), p.key)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(raw)
	if err != nil {
		panic(err)
	}
	return &ent{cert: c, key: key, name: name}
}

func caCert(t *x509.Certificate) {
	t.IsCA, t.BasicConstraintsValid, t.KeyUsage = true, true, x509.KeyUsageCertSign|x509.KeyUsageDigitalSignature
}

// An answer is one thing a responder says, or a staple.
type answer struct {
	Kind   string
	Status int
	Next   time.Time
	Valid  bool // correctly signed, unexpired, about that certificate
	Raw    []byte
}

type subject struct {
	*ent
	issuer  *ent
	servers int
	badURL  bool
	// seen are the valid answers the cache was given.
	seen   []answer
	cached *answer
	maybe  []answer
}

func (s *subject) named() bool { return len(s.cert.OCSPServer) > 0 }

type world struct {
	root, root2, inter, inter2 *ent
	delegates                  map[string]*ent // by issuer name and kind
	subs                       []*subject
}

func bothCert(t *x509.Certificate) { caCert(t); t.MaxPathLenZero = true }

func newWorld(url string, rnd *mrand.Rand) *world {
	w := &world{delegates: map[string]*ent{}}
	w.root = newEnt("root", nil, nil, caCert)
	w.root2 = newEnt("root2", nil, nil, caCert)
	withURL := func(n int, f func(*x509.Certificate)) func(*x509.Certificate) {
		return func(t *x509.Certificate) {
			if f != nil {
				f(t)
			}
			for i := range n {
				t.OCSPServer = append(t.OCSPServer, fmt.Sprintf("%s/%d", url, i))
			}
		}
	}
	interServers := rnd.Intn(3)
	w.inter = newEnt("inter", w.root, nil, withURL(interServers, bothCert))
	w.inter2 = newEnt("inter", w.root2, w.inter.key, withURL(rnd.Intn(2), bothCert))
	w.subs = append(w.subs, &subject{ent: w.inter, issuer: w.root, servers: len(w.inter.cert.OCSPServer)}, &subject{ent: w.inter2, issuer: w.root2, servers: len(w.inter2.cert.OCSPServer)})
	for _, is := range []*ent{w.root, w.root2, w.inter} {
		w.delegates[is.name+" ok"] = newEnt("ocsp", is, nil, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageOCSPSigning} })
		w.delegates[is.name+" expired"] = newEnt("ocsp", is, nil, func(t *x509.Certificate) {
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageOCSPSigning}
			t.NotAfter = time.Now().Add(-time.Minute)
		})
		w.delegates[is.name+" noeku"] = newEnt("not ocsp", is, nil, nil)
	}
	for i := range 6 {
		is := []*ent{w.root, w.inter}[i%2]
		n := []int{1, 1, 2, 2, 1, 0}[i]
		s := &subject{issuer: is, servers: n}
		s.ent = newEnt(fmt.Sprint("leaf", i), is, nil, withURL(n, nil))
		w.subs = append(w.subs, s)
	}
	s := &subject{issuer: w.root, badURL: true}
	s.ent = newEnt("badurl", w.root, nil, func(t *x509.Certificate) { t.OCSPServer = []string{"http://[bad"} })
	w.subs = append(w.subs, s)
	return w
}

var kinds = []string{"direct", "direct", "direct", "delegated", "wrongkey", "leaf", "noeku", "expireddelegate", "otherca", "otherserial", "expired", "corrupt", "garbage", "empty", "trylater", "drop", "nonext", "http500"}

func (w *world) make(rnd *mrand.Rand, s *subject, kind string, status int) answer {
	now := time.Now()
	a := answer{Kind: kind, Status: status, Next: now.Add(time.Duration(10+rnd.Intn(4000)) * time.Minute)}
	this := now.Add(-time.Duration(rnd.Intn(3600)) * time.Second)
	sn := s.cert.SerialNumber
	responder := s.issuer
	embed := false
	switch kind {
	case "direct", "corrupt":
	case "nonext":
		a.Next = time.Time{}
	case "delegated":
		responder, embed = w.delegates[s.issuer.name+" ok"], true
	case "wrongkey":
		responder = &ent{cert: s.issuer.cert, key: w.delegates["root2 ok"].key}
	case "leaf":
		responder, embed = s.ent, true
	case "noeku":
		responder, embed = w.delegates[s.issuer.name+" noeku"], true
	case "expireddelegate":
		responder, embed = w.delegates[s.issuer.name+" expired"], true
	case "otherca":
		o := "root2"
		if s.issuer == w.root2 {
			o = "root"
		}
		responder, embed = w.delegates[o+" ok"], true
	case "otherserial":
		sn = new(big.Int).Add(sn, big.NewInt(1+int64(rnd.Intn(3))))
	case "expired":
		a.Next = now.Add(-time.Duration(1+rnd.Intn(100000)) * time.Second)
		this = a.Next.Add(-time.Hour)
	case "garbage":
		a.Raw = make([]byte, rnd.Intn(300))
		rnd.Read(a.Raw)
		return a
	case "empty":
		return a
	case "trylater":
		a.Raw = ocsp.TryLaterErrorResponse
		return a
	case "drop", "http500":
		return a
	}
	t := ocsp.Response{Status: status, SerialNumber: sn, ThisUpdate: this, NextUpdate: a.Next, IssuerHash: []crypto.Hash{crypto.SHA1, crypto.SHA256}[rnd.Intn(2)]}
	if status == ocsp.Revoked {
		t.RevokedAt = this
	}
	if embed {
		t.Certificate = responder.cert
	}
	raw, err := ocsp.CreateResponse(s.issuer.cert, responder.cert, t, responder.key)
	if err != nil {
		panic(err)
	}
	if kind == "corrupt" {
		// in the signed part
		i := bytes.Index(raw, s.cert.SerialNumber.Bytes())
		if i < 0 {
			i = len(raw) / 2
		}
		raw[i] ^= 1 << rnd.Intn(8)
	}
	a.Raw = raw
	a.Valid = kind == "direct" || kind == "delegated" || kind == "nonext"
	a.Next = a.Next.Truncate(time.Second)
	return a
}

// responder answers with what was scripted for each certificate and server.
type responder struct {
	mu     sync.Mutex
	script map[string]answer // serial/server
	asked  []string
}

func (rs *responder) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	b, _ := io.ReadAll(req.Body)
	rq, err := ocsp.ParseRequest(b)
	if err != nil {
		w.WriteHeader(400)
		return
	}
	k := rq.SerialNumber.String() + req.URL.Path
	rs.mu.Lock()
	a, ok := rs.script[k]
	rs.asked = append(rs.asked, k)
	rs.mu.Unlock()
	if !ok || a.Kind == "drop" {
		panic(http.ErrAbortHandler)
	}
	if a.Kind == "http500" {
		w.WriteHeader(500)
		return
	}
	w.Header().Set("content-type", "application/ocsp-response")
	w.Write(a.Raw)
}

func TestP28(t *testing.T) {
	r := vh.New(t, "certificate verifications against scripted responders")
	rs := &responder{}
	srv := httptest.NewUnstartedServer(rs)
	srv.Config.SetKeepAlivesEnabled(false)
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	defer srv.Close()
	dir := vh.Work(t)
	for i := range vh.N(90, 1500) {
		if r.NumViolations() > 8 {
			break
		}
		rnd := vh.Rand("p28", i)
		d := filepath.Join(dir, fmt.Sprint(i))
		synctest.Run(func() { history(t, r, rs, srv.URL, rnd, i, d) })
	}
	for _, k := range kinds {
		r.NeedAtLeast("fetched_"+k, 10)
		if k != "drop" && k != "http500" {
			r.NeedAtLeast("stapled_"+k, 10)
		}
	}
	r.NeedAtLeast("staple_vs_revoked", 5)
	for _, k := range []string{"accepted", "rejected", "must_accept", "restarts", "responses", "expired_in_cache", "concurrent"} {
		r.NeedAtLeast(k, 20)
	}
}

func history(t *testing.T, r *vh.Run, rs *responder, url string, rnd *mrand.Rand, i int, d string) {
	w := newWorld(url, rnd)
	var trace []string
	note := func(f string, a ...any) {
		trace = append(trace, time.Now().Format("02 15:04:05 ")+fmt.Sprintf(f, a...))
	}
	fail := func(key, f string, a ...any) {
		r.Violate(key, map[string]any{"case": i, "history": trace[max(0, len(trace)-30):]}, f, a...)
	}
	flush := rnd.Intn(6) == 0 // it writes every minute
	var cancel context.CancelFunc
	var c *ocspcache.OCSPCache
	start := func() {
		c = ocspcache.New(vp.NewStore(t, d), quiet{})
		var ctx context.Context
		ctx, cancel = context.WithCancel(context.Background())
		if flush {
			go c.FlushLoop(ctx)
		}
	}
	start()
	defer func() { cancel(); synctest.Wait() }()
	sub := map[string]*subject{}
	for _, s := range w.subs {
		sub[s.cert.SerialNumber.String()] = s
	}
	honest := rnd.Intn(3) == 0
	script := func() {
		rs.mu.Lock()
		rs.script = map[string]answer{}
		rs.asked = nil
		rs.mu.Unlock()
		allgood := rnd.Intn(3) == 0
		m := map[string]answer{}
		for _, s := range w.subs {
			for j := range s.servers {
				kind, status := kinds[rnd.Intn(len(kinds))], ocsp.Good
				if honest || allgood {
					kind = []string{"direct", "delegated"}[rnd.Intn(2)]
				}
				if !honest && !allgood && kind != "leaf" && rnd.Intn(3) == 0 {
					status = []int{ocsp.Revoked, ocsp.Unknown}[rnd.Intn(2)]
				}
				m[fmt.Sprintf("%s/%d", s.cert.SerialNumber, j)] = w.make(rnd, s, kind, status)
			}
		}
		rs.mu.Lock()
		rs.script = m
		rs.mu.Unlock()
	}
	// collect records what the responders answered since the last call.
	collect := func() map[*subject][]answer {
		out := map[*subject][]answer{}
		rs.mu.Lock()
		defer rs.mu.Unlock()
		for _, k := range rs.asked {
			a := rs.script[k]
			s := sub[strings.Split(k, "/")[0]]
			if s == nil {
				continue
			}
			out[s] = append(out[s], a)
			r.Count("fetched_"+a.Kind, 1)
			if a.Valid {
				s.seen = append(s.seen, a)
			}
			note("asked about %s: %s status %d until %s", s.name, a.Kind, a.Status, a.Next.Format("02 15:04:05"))
		}
		rs.asked = nil
		return out
	}
	// confirmed says whether a valid answer that is still current says s is good.
	confirmed := func(s *subject, fresh []answer) bool {
		now := time.Now()
		for _, a := range fresh {
			if a.Valid && a.Status == ocsp.Good {
				return true
			}
		}
		for _, a := range s.seen {
			if a.Valid && a.Status == ocsp.Good && now.Before(a.Next) {
				return true
			}
		}
		return false
	}
	update := func(fresh map[*subject][]answer) {
		for s, as := range fresh {
			for _, a := range as {
				if a.Valid && !a.Next.IsZero() {
					s.cached = &a
				}
			}
		}
	}
	for range vh.N(40, 60) {
		if flush {
			time.Sleep([]time.Duration{0, time.Second, 3 * time.Minute, 20 * time.Minute}[rnd.Intn(4)])
		} else {
			time.Sleep([]time.Duration{0, time.Second, 3 * time.Minute, time.Hour, 20 * time.Hour, 80 * time.Hour}[rnd.Intn(6)])
		}
		if rnd.Intn(12) == 0 {
			cancel()
			synctest.Wait()
			start()
			note("restart")
			r.Count("restarts", 1)
			for _, s := range w.subs {
				if s.cached != nil {
					s.maybe = append(s.maybe, *s.cached) // saved, or not
				}
				s.cached = nil
			}
		}
		script()
		now := time.Now()
		leaf := w.subs[2+rnd.Intn(len(w.subs)-2)]
		for _, s := range w.subs[2:] {
			if s.cached != nil && s.cached.Status == ocsp.Revoked && now.Before(s.cached.Next) && rnd.Intn(2) == 0 {
				leaf = s
			}
		}
		var chains [][]*subject
		switch {
		case leaf.issuer == w.root:
			chains = [][]*subject{{leaf}}
		default:
			chains = [][]*subject{{leaf, w.subs[0]}}
			switch rnd.Intn(3) {
			case 0:
				chains = append(chains, []*subject{leaf, w.subs[1]})
			case 1:
				chains = [][]*subject{{leaf, w.subs[1]}, {leaf, w.subs[0]}}
			}
		}
		var in [][]*x509.Certificate
		for _, ch := range chains {
			var x []*x509.Certificate
			for _, s := range ch {
				x = append(x, s.cert)
			}
			x = append(x, ch[len(ch)-1].issuer.cert)
			in = append(in, x)
		}
		for _, s := range w.subs {
			if s.cached != nil && !now.Before(s.cached.Next) {
				r.Count("expired_in_cache", 1)
				s.cached = nil
			}
		}
		if rnd.Intn(6) == 0 && leaf.named() && !leaf.badURL {
			// what is used to staple
			margin := time.Duration(rnd.Intn(2)) * time.Hour
			resp, err := c.Response(leaf.cert, leaf.issuer.cert, margin)
			fresh := collect()
			if err == nil {
				ok := false
				for _, a := range append(append([]answer{}, leaf.seen...), fresh[leaf]...) {
					ok = ok || a.Valid && bytes.Equal(a.Raw, resp.Raw) && (a.Next.IsZero() || now.Before(a.Next)) && a.Status == resp.Status
				}
				if !ok {
					fail("response", "an answer that is not valid, current and about %s is returned: status %d until %v", leaf.name, resp.Status, resp.NextUpdate)
				}
				r.Count("responses", 1)
			}
			update(fresh)
			continue
		}
		if rnd.Intn(8) == 0 {
			// the same question at the same time
			var wg sync.WaitGroup
			errs := make([]error, 4)
			for j := range errs {
				wg.Add(1)
				go func() { defer wg.Done(); errs[j] = c.VerifyChains(in, nil) }()
			}
			wg.Wait()
			note("4 x verify %s", leaf.name)
			fresh := collect()
			ok := false
			for _, ch := range chains {
				all := true
				for _, s := range ch {
					all = all && (!s.named() || confirmed(s, fresh[s]))
				}
				ok = ok || all
			}
			for _, err := range errs {
				r.Count("concurrent", 1)
				if err == nil && !ok {
					fail("accepted", "%s is accepted without a valid answer", leaf.name)
				}
			}
			update(fresh)
			continue
		}
		var staple []byte
		var st answer
		stapled := false
		if rnd.Intn(2) == 0 {
			kind, status := kinds[rnd.Intn(len(kinds))], ocsp.Good
			if rnd.Intn(5) == 0 {
				status = []int{ocsp.Revoked, ocsp.Unknown}[rnd.Intn(2)]
			}
			if leaf.cached != nil && leaf.cached.Status == ocsp.Revoked && rnd.Intn(2) == 0 {
				kind, status = "direct", ocsp.Good
			}
			if kind != "drop" && kind != "http500" {
				st = w.make(rnd, leaf, kind, status)
				staple, stapled = st.Raw, true
				if st.Valid && !st.Next.IsZero() {
					leaf.seen = append(leaf.seen, st)
				}
				r.Count("stapled_"+kind, 1)
			}
		}
		before := leaf.cached
		note("verify %s in %d chains, staple %v %s status %d", leaf.name, len(chains), stapled, st.Kind, st.Status)
		err := c.VerifyChains(in, staple)
		fresh := collect()
		note("-> %v", err)
		r.Eval(leaf.named() || stapled, leaf.name, st.Kind, st.Status, len(chains), err == nil, fmt.Sprint(len(fresh)), i)
		if err == nil {
			r.Count("accepted", 1)
		} else {
			r.Count("rejected", 1)
		}
		if err == nil {
			ok := false
			var missing string
			for _, ch := range chains {
				all := true
				for _, s := range ch {
					if s.named() && !confirmed(s, fresh[s]) {
						all = false
						missing = s.name
					}
				}
				ok = ok || all
			}
			if !ok {
				key := "accepted"
				var how []string
				for s, as := range fresh {
					for _, a := range as {
						how = append(how, s.name+":"+a.Kind)
					}
				}
				if stapled {
					how = append(how, "staple:"+st.Kind)
				}
				if len(how) == 1 {
					key += "-" + strings.Split(how[0], ":")[1]
				}
				if missing == "badurl" {
					key = "accepted-badurl"
				}
				fail(key, "%s is accepted although no valid, current answer says that %s is good (%v)", leaf.name, missing, how)
			}
		}
		// A revocation that is known is not overridden by the client's staple.
		if before != nil && before.Status == ocsp.Revoked && stapled && st.Status == ocsp.Good {
			r.Count("staple_vs_revoked", 1)
			good := false
			for _, a := range fresh[leaf] {
				good = good || a.Valid && a.Status == ocsp.Good
			}
			if err == nil && !good {
				fail("staple-override", "%s is known to be revoked until %v, and is accepted with a staple", leaf.name, before.Next)
			}
		}
		// When everything says good, it is accepted.
		must := true
		for _, ch := range chains {
			for _, s := range ch {
				if !s.named() {
					continue
				}
				if s.badURL || s.cached != nil && s.cached.Status != ocsp.Good || slices.ContainsFunc(s.maybe, func(a answer) bool { return a.Status != ocsp.Good && now.Before(a.Next) }) {
					must = false
				}
				rs.mu.Lock()
				for j := range s.servers {
					a := rs.script[fmt.Sprintf("%s/%d", s.cert.SerialNumber, j)]
					must = must && a.Valid && a.Status == ocsp.Good
				}
				rs.mu.Unlock()
			}
		}
		if stapled && st.Valid && st.Status != ocsp.Good {
			must = false
		}
		// A staple may be refused for a certificate that was ever revoked.
		if stapled && slices.ContainsFunc(leaf.seen, func(a answer) bool { return a.Status == ocsp.Revoked }) {
			must = false
		}
		if must {
			r.Count("must_accept", 1)
			if err != nil {
				fail("rejected", "%s is rejected although every responder says it is good: %v", leaf.name, err)
			}
		}
		if stapled && st.Valid && !st.Next.IsZero() && st.Status == ocsp.Good && (leaf.cached == nil || leaf.cached.Status != ocsp.Revoked) {
			leaf.cached = &st
		}
		update(fresh)
	}
	if i < 2 {
		r.Sample(trace[:min(len(trace), 12)])
	}
}

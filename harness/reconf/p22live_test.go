package reconf

import (
	"crypto/tls"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// TestP22Live changes one thing at a time while connections of every kind, from
// every client, are established. Each one has to be closed, or has to go on.

type change struct {
	name string
	f    func(r *rand.Rand, sl slot, s *spec)
}

var changes = []change{
	{"nothing", func(*rand.Rand, slot, *spec) {}},
	{"another server", func(_ *rand.Rand, _ slot, s *spec) { s.Srv = (s.Srv + 1) % numSrv }},
	{"address denied", func(r *rand.Rand, _ slot, s *spec) { s.Deny = r.Intn(3) }},
	{"address denied, another server", func(r *rand.Rand, _ slot, s *spec) { s.Deny, s.Srv = r.Intn(3), (s.Srv+1)%numSrv }},
	{"another certificate", func(r *rand.Rand, sl slot, s *spec) {
		if s.Mode != proxy.ModeTLSPassthrough {
			s.Auth = 1 + r.Intn(2)
		}
	}},
	{"any certificate", func(_ *rand.Rand, sl slot, s *spec) {
		if s.Mode != proxy.ModeTLSPassthrough {
			s.Auth = 0
		}
	}},
	{"no certificate", func(_ *rand.Rand, _ slot, s *spec) { s.Auth = -1 }},
	{"removed", func(_ *rand.Rand, sl slot, s *spec) { s.Present = sl.sibling }},
	{"another mode", func(_ *rand.Rand, sl slot, s *spec) {
		s.Mode = sl.modes[len(sl.modes)-1]
		if s.Mode == proxy.ModeTLSPassthrough {
			s.Auth = -1
		}
	}},
	{"some of them", func(r *rand.Rand, sl slot, s *spec) {
		if r.Intn(2) == 0 {
			s.Deny = r.Intn(3)
		}
		if r.Intn(2) == 0 {
			s.Srv = r.Intn(numSrv)
		}
		if s.Mode != proxy.ModeTLSPassthrough && r.Intn(3) == 0 {
			s.Auth = r.Intn(3)
		}
	}},
}

type live struct {
	*conn
	err  chan error   // the end of the connection
	ping func() error // uses the connection
	end  func()
	gone atomic.Bool
	at   time.Time
}

// openStream opens a stream of bytes and keeps it open.
func (w *world) openStream(r *rand.Rand, i int, cl client) (*live, error) {
	c, lo, err := w.dial(r, i, cl, "none", nil)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(promptly))
	greet := make([]byte, 4)
	if _, err := c.Write([]byte{'x'}); err != nil {
		c.Close()
		return nil, err
	}
	if _, err := io.ReadFull(c, greet); err != nil {
		c.Close()
		return nil, err
	}
	c.SetDeadline(time.Time{})
	_, hi := w.now()
	l := &live{conn: &conn{w: w, slot: i, cl: cl, lo: lo, hi: hi, phase: "live"}, err: make(chan error, 1), at: time.Now()}
	got := make(chan byte, 100)
	go func() {
		b := make([]byte, 1)
		for {
			if _, err := io.ReadFull(c, b); err != nil {
				l.gone.Store(true)
				l.err <- err
				return
			}
			got <- b[0]
		}
	}()
	var n byte
	l.ping = func() error {
		n++
		if _, err := c.Write([]byte{n}); err != nil {
			return err
		}
		select {
		case v := <-got:
			if v != n {
				return fmt.Errorf("got %d instead of %d", v, n)
			}
			return nil
		case <-time.After(promptly):
			return fmt.Errorf("no echo after %v", promptly)
		}
	}
	l.end = func() { c.Close() }
	return l, nil
}

// openHTTP begins a request whose response takes longer than the test.
func (w *world) openHTTP(i int, kind string, cl client) (*live, error) {
	hc, clean := w.httpClient(kind, cl)
	lo, _ := w.now()
	resp, err := hc.Get("https://" + slots[i].name + "/get?seed=1&size=2000&ms=600000")
	if err != nil {
		clean()
		return nil, err
	}
	if resp.StatusCode != http.StatusOK {
		resp.Body.Close()
		clean()
		return nil, fmt.Errorf("status %d", resp.StatusCode)
	}
	_, hi := w.now()
	l := &live{conn: &conn{w: w, slot: i, cl: cl, lo: lo, hi: hi, phase: "live " + kind}, err: make(chan error, 1), at: time.Now()}
	go func() {
		_, err := io.Copy(io.Discard, resp.Body)
		l.gone.Store(true)
		if err == nil {
			err = io.EOF
		}
		l.err <- err
	}()
	l.ping = func() error { return nil }
	l.end = func() { resp.Body.Close(); clean() }
	return l, nil
}

func (w *world) round(r *rand.Rand, ch change, base *conf, authed bool) (ok bool) {
	ok = true
	first := &conf{n: w.begun + 1}
	for i := range slots {
		s := base.specs[i]
		s.Auth = -1
		if authed && s.Mode != proxy.ModeTLSPassthrough {
			s.Auth = 0
		}
		first.specs = append(first.specs, s)
	}
	w.apply(first)
	w.settle()

	var mu sync.Mutex
	var all []*live
	var wg sync.WaitGroup
	open := func(i int, cl client, f func() (*live, error)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if !first.specs[i].certOK(cl.Ident) {
				return
			}
			l, err := f()
			if err != nil {
				w.fail("refused", "a connection to %s %s from client %+v was refused: %v; configuration:%s", slots[i].name, slots[i].proto, cl, err, w.history(i, first.n, first.n))
				return
			}
			mu.Lock()
			all = append(all, l)
			mu.Unlock()
		}()
	}
	for i := range slots {
		for ip := 0; ip < 3; ip++ {
			i, cl := i, client{IP: ip, Ident: r.Intn(3) - 1}
			if slots[i].kind == "http" {
				k := []string{"h1", "h2", "h3"}[ip]
				open(i, cl, func() (*live, error) { return w.openHTTP(i, k, cl) })
				continue
			}
			for id := -1; id < 2; id++ {
				cl := client{IP: ip, Ident: id}
				rr := rand.New(rand.NewSource(r.Int63()))
				open(i, cl, func() (*live, error) { return w.openStream(rr, i, cl) })
			}
		}
	}
	wg.Wait()

	next := &conf{n: first.n + 1}
	changed := map[int]bool{}
	for i := range slots {
		s := first.specs[i]
		if r.Intn(4) > 0 {
			ch.f(r, slots[i], &s)
			changed[i] = true
		}
		next.specs = append(next.specs, s)
	}
	w.apply(next)

	var must, keep []*live
	for _, l := range all {
		may, mayNot := l.admits(next.specs[l.slot])
		switch {
		case !may && !slots[l.slot].sibling:
			must = append(must, l)
		case !mayNot:
			// That includes the requests in progress.
			keep = append(keep, l)
		}
	}
	var left []*live
	if !vh.Eventually(promptly, func() bool {
		left = nil
		for _, l := range must {
			if !l.gone.Load() {
				left = append(left, l)
			}
		}
		return len(left) == 0
	}) {
		ok = false
		for _, l := range left {
			w.fail("not-closed", "%v is still open after a change (%s) that doesn't allow it:%s", l, ch.name, w.history(l.slot, first.n, next.n))
		}
	}
	w.run.Count("live_closed", len(must)-len(left))
	for _, l := range keep {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if time.Since(l.at) > 20*time.Second && !ok {
				// The idle timeouts.
				return
			}
			if err := l.ping(); err != nil {
				w.fail("disturbed", "%v ended (%v) after a change (%s) that allows it:%s", l, err, ch.name, w.history(l.slot, first.n, next.n))
				return
			}
			if l.gone.Load() {
				w.fail("disturbed", "%v ended (%v) after a change (%s) that allows it:%s", l, <-l.err, ch.name, w.history(l.slot, first.n, next.n))
			}
			w.run.Count("live_kept", 1)
		}()
	}
	wg.Wait()
	for _, l := range all {
		w.run.Eval(true, "live", ch.name, l.slot, l.phase, l.cl, changed[l.slot], authed, l.gone.Load())
		l.end()
	}
	return ok
}

func TestP22Live(t *testing.T) {
	run := vh.New(t, "a case is an established connection, of every kind of backend and from every client, over one change of the configuration; distinct by connection, client, change and outcome")
	env := vp.NewEnv(t)
	ca := vp.NewCA("clients")
	var ids []tls.Certificate
	for i := 0; i < 2; i++ {
		ids = append(ids, ca.Issue(vp.CN(fmt.Sprintf("id%d", i)), vp.Email(fmt.Sprintf("id%d@v.test", i))))
	}
	vh.Parallel(4, vh.N(4, 12), func(n int) {
		w := &world{run: run, env: env, n: n, ca: ca, ids: ids, conns: map[*conn]bool{}, stop: make(chan struct{})}
		for i := 0; i < 3; i++ {
			w.ips = append(w.ips, vp.IP())
		}
		w.startUpstreams(t)
		w.base = w.env.Config(true)
		r := vh.Rand("P22/live", n)
		base := &conf{}
		for _, sl := range slots {
			base.specs = append(base.specs, spec{Present: true, Mode: sl.modes[r.Intn(len(sl.modes))], Srv: r.Intn(numSrv), Auth: -1, Deny: -1})
		}
		w.confs = []*conf{base}
		w.p = w.env.Start(w.config(base))
		defer w.p.End()
		for k := 0; k < vh.N(1, 3); k++ {
			for _, j := range r.Perm(2 * len(changes)) {
				if !w.round(r, changes[j/2], base, j%2 == 0) {
					return
				}
			}
		}
	})
	for _, p := range vp.Log.TakePanics() {
		run.Violate("panic", p, "the proxy panicked: %s", vh.Trunc(p, 300))
	}
	run.NeedAtLeast("live_closed", 100)
	run.NeedAtLeast("live_kept", 100)
}

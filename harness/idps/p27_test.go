//go:build goexperiment.synctest

package idps

import (
	"context"
	"fmt"
	"net/http/httptest"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// A fault makes writes to dir fail until the returned function is called.
func fault(t testing.TB, dir string, kind int) func() {
	if kind < 0 {
		// The directory is not a directory.
		if err := os.Rename(dir, dir+".away"); err != nil {
			t.Fatal(err)
		}
		os.WriteFile(dir, nil, 0o600)
		return func() {
			os.Remove(dir)
			if err := os.Rename(dir+".away", dir); err != nil {
				t.Fatal(err)
			}
		}
	}
	// No file can grow beyond kind bytes.
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	lim := old
	lim.Cur = uint64(kind)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		t.Fatal(err)
	}
	return func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			t.Fatal(err)
		}
	}
}

func TestP27(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	r := vh.New(t, "failed state writes")
	for _, k := range []string{"failed_issue", "failed_revoke", "failed_addkey", "failed_delkey", "failed_crl"} {
		defer r.NeedAtLeast(k, 3)
	}
	defer r.NeedAtLeast("failed_starts", 3)
	dir := vh.Work(t)
	for i := range vh.N(8, 400) {
		if r.NumViolations() > 6 {
			break
		}
		rnd := vh.Rand("p27", i)
		d := filepath.Join(dir, fmt.Sprint(i), "store")
		store := vp.NewStore(t, d)
		m := newModel()
		var log []string
		fail := func(key, f string, a ...any) {
			r.Violate(key, map[string]any{"case": i, "history": log[max(0, len(log)-40):]}, f, a...)
		}
		// The first start on a storage that does not work.
		for range rnd.Intn(3) {
			kind := rnd.Intn(400) - 50
			undo := fault(t, d, kind)
			_, err := openSys(store)
			undo()
			log = append(log, fmt.Sprintf("start with fault %d: %v", kind, err))
			if err != nil {
				r.Count("failed_starts", 1)
			}
		}
		s, err := openSys(vp.NewStore(t, d))
		if err != nil {
			fail("start", "the state cannot be opened once the storage works again: %v", err)
			continue
		}
		m.apply(s.started())
		if rnd.Intn(2) == 0 {
			s.token(m.apply)
		}
		for range vh.N(30, 40) {
			var last event
			emit := func(e event) {
				m.apply(e)
				last = e
			}
			only := ""
			if rnd.Intn(2) == 0 {
				s.step(rnd, m, only, emit)
				log = append(log, fmt.Sprintf("%s %s", last.Op, last.Phase))
				if last.Phase == "err" {
					fail("refused", "%s failed although the storage works: %s", last.Op, last.Text)
				}
				continue
			}
			// An operation while the storage fails. What the operation needs
			// beforehand (a login) happens before the fault.
			kind := -1
			if rnd.Intn(4) > 0 {
				kind = []int{0, 1, 4, 5, 50, rnd.Intn(300), rnd.Intn(3000), rnd.Intn(20000), rnd.Intn(70000)}[rnd.Intn(9)]
			}
			var undo func()
			begun := false
			femit := func(e event) {
				if e.Phase == "begin" {
					undo = fault(t, d, kind)
					begun = true
				}
				emit(e)
			}
			only = []string{"issue", "revoke", "crl", "addkey", "delkey", "login"}[rnd.Intn(6)]
			if only == "crl" || only == "login" {
				undo = fault(t, d, kind)
				begun = true
			}
			s.step(rnd, m, only, femit)
			if begun {
				undo()
			}
			if !begun && last.Op == "" {
				continue
			}
			log = append(log, fmt.Sprintf("%s with fault %d: %s %.60s", only, kind, last.Phase, strings.TrimSpace(last.Text)))
			r.Eval(true, only, kind, last.Phase, i)
			r.Count("faults", 1)
			if last.Phase == "err" {
				r.Count("failed_"+only, 1)
			}
			switch rnd.Intn(4) {
			case 0:
				s.audit(r, m, "after "+only, fail)
			case 1:
				s.step(rnd, m, []string{"issue", "addkey"}[rnd.Intn(2)], emit)
				log = append(log, fmt.Sprintf("%s %s", last.Op, last.Phase))
				if last.Phase == "err" {
					fail("refused", "%s failed although the storage works again: %s", last.Op, last.Text)
				}
				s.audit(r, m, "after "+only+" and a successful operation", fail)
			case 2:
				ns, err := openSys(vp.NewStore(t, d))
				if err != nil {
					fail("start", "restart after %s failed: %v", only, err)
					break
				}
				s = ns
				log = append(log, "restart")
				r.Count("restarts", 1)
				s.audit(r, m, "after "+only+" and a restart", fail)
			}
		}
		s.audit(r, m, "at the end", fail)
		if s, err = openSys(vp.NewStore(t, d)); err != nil {
			fail("start", "last restart: %v", err)
			continue
		}
		s.audit(r, m, "at the end, after a restart", fail)
		if left, _ := filepath.Glob(filepath.Join(d, "*.lock")); len(left) > 0 {
			fail("lock", "locks are left behind: %v", left)
		}
		if i < 2 {
			r.Sample(log[:min(len(log), 15)])
		}
	}
}

// TestP27Tokens lets the rotation of token signing keys fail for hours.
func TestP27Tokens(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	r := vh.New(t, "failed key rotations")
	defer r.NeedAtLeast("rotations_failed", 4)
	dir := vh.Work(t)
	for i := range vh.N(8, 240) {
		rnd := vh.Rand("p27t", i)
		d := filepath.Join(dir, fmt.Sprint(i))
		store := vp.NewStore(t, d)
		store2 := vp.NewStore(t, d)
		synctest.Run(func() {
			tm, err := tokenmanager.New(store, nil, silent{})
			if err != nil {
				r.Violate("start", nil, "%v", err)
				return
			}
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan struct{})
			go func() { tm.KeyRotationLoop(ctx); close(done) }()
			defer func() { cancel(); <-done }()
			var toks []string
			var log []string
			check := func(tm *tokenmanager.TokenManager, when string) {
				for _, tok := range toks {
					if _, err := tm.ValidateToken(tok); err != nil {
						r.Violate("token", log, "%s: a token issued earlier is refused: %v", when, err)
						return
					}
				}
			}
			jwks := func(tm *tokenmanager.TokenManager) string {
				rec := httptest.NewRecorder()
				tm.ServeJWKS(rec, httptest.NewRequest("GET", "https://v.test/jwks", nil))
				return rec.Body.String()
			}
			for range 6 {
				bad := rnd.Intn(2) == 0
				h := time.Duration(1+rnd.Intn(40)) * time.Hour
				log = append(log, fmt.Sprintf("%v bad=%v", h, bad))
				before := jwks(tm)
				if bad {
					undo := fault(t, d, rnd.Intn(2000)-500)
					time.Sleep(h + time.Minute)
					undo()
					if jwks(tm) != before {
						r.Violate("unsaved-keys", log, "signing keys that could not be saved are published")
					}
					if h > 26*time.Hour {
						r.Count("rotations_failed", 1)
					}
				} else {
					time.Sleep(h + time.Minute)
				}
				toks = nil
				for _, alg := range []string{"", "ES256", "RS256"} {
					tok, err := tm.CreateToken(jwt.MapClaims{"sub": "x", "exp": time.Now().Add(20 * time.Hour).Unix()}, alg)
					if err != nil {
						r.Violate("sign", log, "%v", err)
						return
					}
					toks = append(toks, tok)
				}
				check(tm, "running")
				// what another start would find
				tm2, err := tokenmanager.New(store2, nil, silent{})
				if err != nil {
					r.Violate("start", log, "restart: %v", err)
					return
				}
				check(tm2, "after a restart")
				r.Eval(true, i, bad, h)
			}
			time.Sleep(2 * time.Hour)
			check(tm, "later")
		})
	}
}

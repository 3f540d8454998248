//go:build goexperiment.synctest

package sso

import (
	"context"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/oidc"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

type nopRecorder struct{}

func (nopRecorder) Record(string) {}

type fakeRT func(*http.Request) (*http.Response, error)

func (f fakeRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// TestP14Time: states expire, under a controlled clock.
func TestP14Time(t *testing.T) {
	run := vh.New(t, "A case is one login whose callback arrives after a chosen delay on a virtual clock; distinct non-trivial = distinct (delay, other traffic).")
	tm := otherTM(t)
	cm := cookiemanager.New(tm, "prov", "v.test", issuer)
	for i := 0; i < vh.N(400, 4000); i++ {
		r := vh.Rand("P14t", i)
		delay := pick(r, time.Duration(r.Intn(240))*time.Second, time.Duration(r.Intn(240))*time.Second, 6*time.Minute+time.Duration(r.Intn(3600))*time.Second, 11*time.Minute, 48*time.Hour)
		slow := pick(r, 0, time.Duration(r.Intn(40))*time.Second)
		others := r.Intn(4)
		synctest.Run(func() {
			var claims map[string]any
			http.DefaultClient.Transport = fakeRT(func(req *http.Request) (*http.Response, error) {
				time.Sleep(slow)
				return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(`{"id_token":"` + vp.JWT(claims) + `"}`)), Request: req}, nil
			})
			p, err := oidc.New(oidc.Config{AuthEndpoint: "http://idp/a", TokenEndpoint: "http://idp/t", RedirectURL: "https://login.v.test/cb", ClientID: "cid", ClientSecret: "s"}, nopRecorder{}, cm)
			if err != nil {
				t.Fatal(err)
			}
			begin := func() url.Values {
				rec := httptest.NewRecorder()
				p.RequestLogin(rec, httptest.NewRequest("GET", "https://b.v.test/", nil), "https://b.v.test/x")
				l, _ := url.Parse(rec.Header().Get("Location"))
				return l.Query()
			}
			q := begin()
			for j := 0; j < others; j++ {
				time.Sleep(delay / time.Duration(others+1))
				begin()
			}
			time.Sleep(delay - delay/time.Duration(others+1)*time.Duration(others))
			claims = vp.Claims(q, "a@b.example")
			claims["aud"] = "cid"
			rec := httptest.NewRecorder()
			req := httptest.NewRequest("GET", "https://login.v.test/cb?code=c&state="+q.Get("state"), nil).WithContext(context.Background())
			req.AddCookie(&http.Cookie{Name: "TLSPROXYNONCE", Value: q.Get("state")})
			p.HandleCallback(rec, req)
			got := false
			for _, c := range rec.Result().Cookies() {
				got = got || c.Name == "TLSPROXYAUTH" && c.Value != ""
			}
			run.Eval(true, delay, slow, others)
			run.Count("timed-callbacks", 1)
			if got && delay > 6*time.Minute {
				run.Violate("stale-state", map[string]any{"delay": delay.String()}, "a state handed out %v earlier completed a login", delay)
			}
			if !got && delay+slow < 4*time.Minute+40*time.Second {
				run.Violate("early-expiry", map[string]any{"delay": delay.String(), "body": rec.Body.String()}, "a callback %v after the request was refused: %d %s", delay, rec.Code, rec.Body)
			}
		})
	}
	run.NeedAtLeast("timed-callbacks", 100)
}

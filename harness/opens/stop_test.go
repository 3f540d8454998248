package opens

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// TestP26Stop stops the proxy while its state is being changed, and then looks
// for what was acknowledged.
func TestP26Stop(t *testing.T) {
	run := vh.New(t, "a case is a stop of the proxy while certificates are being issued and users log in; distinct by the number of acknowledged changes since the last start")
	w := newEverything(t, run)
	type issued struct {
		cert  *tls.Certificate
		email string
	}
	var mu sync.Mutex
	var acked []issued
	rounds := vh.N(12, 80)
	for n := range rounds {
		started := make(chan *vp.P, 1)
		go func() {
			// A configuration that can't be loaded ends the test.
			defer close(started)
			p, err := w.e.TryStart(w.config(0))
			if err != nil {
				run.Violate("restart", fmt.Sprint(n), "after the proxy was stopped while it was busy, it doesn't start anymore: %v", err)
				return
			}
			started <- p
		}()
		p := <-started
		if p == nil {
			return
		}
		w.p = p
		b := w.p.Browser(vp.ClientOpt{})
		b.Timeout = promptly
		if _, err := b.Login(w.idp, "https://pki.v.test/certs", "admin@v.test"); err != nil {
			run.Violate("login", fmt.Sprint(n), "nobody can log in after the proxy was stopped while it was busy: %v", err)
			w.p.End()
			return
		}
		mu.Lock()
		sample := acked
		mu.Unlock()
		lost := 0
		for _, a := range sample[max(0, len(sample)-25):] {
			sn := serial(a.cert.Certificate[0])
			res, err := b.Get("https://pki.v.test/certs?admin=1&get=downloadCert&sn=" + url.QueryEscape(sn))
			if err != nil || res.StatusCode != 200 || !strings.Contains(res.Text, "BEGIN CERTIFICATE") {
				lost++
				run.Violate("lost certificate", sn, "a certificate that was issued before the proxy was stopped is not known anymore: %v %v", err, res)
			}
			run.Count("certificates found again", 1)
		}
		closeIdle(b.Client)
		if lost > 0 {
			w.p.End()
			return
		}
		var wg sync.WaitGroup
		stop := make(chan struct{})
		news := 0
		for k := range 6 {
			r := rand.New(rand.NewSource(vh.Seed()*100000 + int64(n*100+k)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				email := users[k%3]
				b := w.p.Browser(vp.ClientOpt{})
				b.Timeout = promptly
				defer closeIdle(b.Client)
				b.Login(w.idp, "https://pki.v.test/certs", email)
				for {
					select {
					case <-stop:
						return
					default:
					}
					c, err := w.issue(r, b)
					if err != nil {
						time.Sleep(time.Millisecond)
						continue
					}
					mu.Lock()
					acked = append(acked, issued{c, email})
					news++
					mu.Unlock()
				}
			}()
		}
		time.Sleep(time.Duration(200+vh.Rand("P26stop", n).Intn(600)) * time.Millisecond)
		w.p.End()
		close(stop)
		wg.Wait()
		mu.Lock()
		run.Eval(true, fmt.Sprint(news))
		run.Count("changes acknowledged", news)
		mu.Unlock()
	}
	run.NeedAtLeast("changes acknowledged", 10)
	run.NeedAtLeast("certificates found again", 10)
}

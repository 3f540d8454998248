package opens

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// TestP25 uses everything concurrently, with the race detector.
func TestP25(t *testing.T) {
	run := vh.New(t, "a case is an operation that overlaps others on one proxy, under the race detector; distinct by the kinds of the operations that overlap")
	worlds := vh.N(2, 5)
	for n := range worlds {
		w := newEverything(t, run)
		w.p = w.e.Start(w.config(0))
		var mu sync.Mutex
		active := map[string]int{}
		dur := time.Duration(vh.N(30, 150)) * time.Second
		end := time.Now().Add(dur)
		// It is shut down while it is still being used.
		last := end.Add(time.Duration(1000) * time.Millisecond)
		var wg sync.WaitGroup
		var ending bool
		for k := range 28 {
			r := rand.New(rand.NewSource(vh.Seed()*1000 + int64(n*100+k)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := k; time.Now().Before(last); i++ {
					which := r.Intn(14)
					name := fmt.Sprint(which)
					mu.Lock()
					for o, c := range active {
						if c > 0 {
							run.Eval(true, min(o, name), max(o, name))
						}
					}
					active[name]++
					mu.Unlock()
					what, err := w.op(r, which)
					mu.Lock()
					active[name]--
					e := ending
					mu.Unlock()
					if err == nil {
						run.Count("ok "+what, 1)
					} else if !e {
						run.Count("failed "+what, 1)
						run.Sample(map[string]any{"what": what, "err": vh.Trunc(err.Error(), 300)})
					}
				}
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := vh.Rand("P25/reconf", n)
			for i := 0; time.Now().Before(last); i++ {
				v := r.Intn(32)
				if err := w.p.Reconfigure(w.config(v)); err != nil {
					mu.Lock()
					if !ending {
						run.Violate("reconfigure", v, "a valid configuration was refused: %v", err)
					}
					mu.Unlock()
				}
				run.Count("reconfigurations", 1)
				time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
			}
		}()
		time.Sleep(time.Until(end))
		mu.Lock()
		ending = true
		mu.Unlock()
		done := make(chan struct{})
		go func() {
			defer close(done)
			if n%2 == 0 {
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				defer cancel()
				w.p.Shutdown(ctx)
			}
			w.p.End()
		}()
		select {
		case <-done:
		case <-time.After(3 * time.Minute):
			run.Violate("stuck", nil, "the proxy did not stop:\n%s", strings.Join(vh.Stacks("tlsproxy/proxy.(*Proxy)"), "\n\n"))
			return
		}
		wg.Wait()
		for _, p := range vp.Log.TakePanics() {
			run.Violate("panic", p, "the proxy panicked: %s", vh.Trunc(p, 300))
		}
	}
	run.NeedAtLeast("ok console", 1)
	run.NeedAtLeast("ok pki", 1)
	run.NeedAtLeast("reconfigurations", 5)
}

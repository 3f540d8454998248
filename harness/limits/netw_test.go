//go:build goexperiment.synctest

package limits

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"net"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"golang.org/x/time/rate"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
)

// TestP24Conn checks connections that share limiters, on a virtual clock, with
// which the bound is exact, and being slower than needed is noticed too.
func TestP24Conn(t *testing.T) {
	run := vh.New(t, "a case is a set of connections that share limiters, with random rates, bursts, and operation sizes, on a virtual clock")
	cases := vh.N(400, 8000)
	vh.Parallel(8, cases, func(n int) {
		if run.NumViolations() > 6 {
			return
		}
		r := vh.Rand("P24conn", n)
		rt := math.Pow(10, 1+r.Float64()*6)
		burst := 1 + int(math.Pow(10, r.Float64()*6))
		if r.Intn(2) == 0 {
			burst = int(max(rt, minBurst))
		}
		conns := 1 + r.Intn(4)
		total := int(min(float64(burst)*(0.5+3*r.Float64())+10, 600000))
		reads := r.Intn(2) == 0
		desc := fmt.Sprintf("%d connections, %.1f bytes/s, burst %d, %d bytes each, limited reads=%v", conns, rt, burst, total, reads)
		fail := func(key, f string, a ...any) {
			run.Violate(key, map[string]any{"case": n, "seed": vh.Seed()}, "%s: %s", desc, fmt.Sprintf(f, a...))
		}
		synctest.Run(func() {
			t0 := time.Now()
			l := rate.NewLimiter(rate.Limit(rt), burst)
			var mu sync.Mutex
			var seen float64
			arrived := func(k int) {
				mu.Lock()
				defer mu.Unlock()
				seen += float64(k)
				if bound := float64(burst) + rt*time.Since(t0).Seconds(); seen > bound*(1+1e-6)+2 {
					fail("bound", "%.0f bytes came through in %v, the limit allows %.1f", seen, time.Since(t0), bound)
				}
				run.Count("virtual_arrivals", 1)
			}
			var wg sync.WaitGroup
			for c := 0; c < conns; c++ {
				a, b := net.Pipe()
				cc := netw.NewConnForTest(a)
				if reads {
					cc.SetLimiters(l, nil)
				} else {
					cc.SetLimiters(nil, l)
				}
				data := make([]byte, total)
				payload(uint64(n*10+c), 0, data)
				sr, rr := vh.Rand("P24w", n*10+c), vh.Rand("P24r", n*10+c)
				var w io.WriteCloser = cc
				var rd io.Reader = b
				if reads {
					w, rd = b, cc
				}
				peek := 0
				if reads && r.Intn(2) == 0 {
					peek = 1 + r.Intn(min(total, 2000))
				}
				wg.Add(2)
				go func() {
					defer wg.Done()
					maxOp := 1 + sr.Intn(200000)
					for pos := 0; pos < total; {
						k := min(1+sr.Intn(maxOp), total-pos)
						m, err := w.Write(data[pos : pos+k])
						if err != nil || m != k {
							fail("write", "Write of %d bytes at %d returned %d, %v", k, pos, m, err)
							break
						}
						pos += k
					}
					w.Close()
				}()
				go func() {
					defer wg.Done()
					var got []byte
					if peek > 0 {
						p := make([]byte, peek)
						if m, err := cc.Peek(p); m != peek || err != nil || !bytes.Equal(p, data[:peek]) {
							fail("peek", "Peek(%d) = %d, %v", peek, m, err)
						}
					}
					buf := make([]byte, 1+rr.Intn(100000))
					for {
						m, err := rd.Read(buf[:1+rr.Intn(len(buf))])
						if m > 0 {
							arrived(m)
						}
						got = append(got, buf[:m]...)
						if err != nil {
							if err != io.EOF {
								fail("read", "Read after %d bytes of %d: %v", len(got), total, err)
							}
							break
						}
					}
					if !bytes.Equal(got, data) {
						fail("corrupt", "%d bytes were received, %d were sent, and they differ", len(got), total)
					}
				}()
			}
			wg.Wait()
			need := max(0, float64(conns*total)-float64(burst)) / rt
			if d := time.Since(t0).Seconds(); d > 2*need+5 {
				fail("slow", "the transfers needed %.1fs, the limit requires only %.1fs", d, need)
			}
			run.Eval(need > 0, conns, reads, int(math.Log10(rt)), int(math.Log10(float64(burst))))
		})
	})
	run.NeedAtLeast("virtual_arrivals", 1000)
}

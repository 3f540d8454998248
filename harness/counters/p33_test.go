//go:build goexperiment.synctest

package counters

import (
	"crypto/tls"
	"fmt"
	"html"
	"io"
	"math"
	"net"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/counter"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// TestP33Counter compares counters with the list of everything that was counted.
func TestP33Counter(t *testing.T) {
	r := vh.New(t, "counter histories")
	defer r.NeedAtLeast("rates", 1000)
	defer r.NeedAtLeast("zero_rates", 50)
	defer r.NeedAtLeast("concurrent_incr", 10000)
	for i := range vh.N(1500, 40000) {
		if r.NumViolations() > 6 {
			return
		}
		rnd := vh.Rand("p33", i)
		synctest.Run(func() {
			time.Sleep(time.Duration(rnd.Intn(3_000_000)) * time.Microsecond)
			rez := []time.Duration{time.Second, time.Second, 10 * time.Millisecond * 10, 7 * time.Second}[rnd.Intn(4)]
			maxP := []time.Duration{time.Minute, time.Minute, 10 * time.Second}[rnd.Intn(3)]
			c := counter.New(maxP, rez)
			born := time.Now()
			type inc struct {
				at time.Time
				n  int64
			}
			var incs []inc
			var total int64
			var trace []string
			fail := func(key, f string, a ...any) {
				r.Violate(key, map[string]any{"case": i, "history": trace[max(0, len(trace)-40):]}, f, a...)
			}
			check := func() {
				if v := c.Value(); v != total {
					fail("value", "the total is %d, %d was counted", v, total)
				}
				period := time.Duration(1+rnd.Intn(int(maxP/rez))) * rez
				if rnd.Intn(3) == 0 {
					period = maxP.Truncate(rez) // the rate is over whole steps
				}
				now := time.Now()
				got := c.Rate(period)
				if v := c.Value(); v != total {
					fail("value", "after reading the rate, the total is %d, %d was counted", v, total)
				}
				// The window's edges are known up to one time step.
				w := min(period, now.Sub(born))
				var lo, hi int64
				for _, x := range incs {
					if age := now.Sub(x.at); age <= w-rez {
						lo += x.n
					}
					if age := now.Sub(x.at); age < w+2*rez {
						hi += x.n
					}
				}
				d := period
				dlo, dhi := d.Seconds(), d.Seconds()
				if now.Sub(born) < period+2*rez {
					// a younger counter averages over its lifetime
					dlo = max((w - 2*rez).Seconds(), rez.Seconds())
					dhi = (w + 2*rez).Seconds()
				}
				min, max := float64(lo)/dhi, float64(hi)/dlo
				if now.Sub(born) < 2*rez {
					min = 0
				}
				trace = append(trace, fmt.Sprintf("%v rate(%v)=%.4f total=%d", now.Sub(born), period, got, total))
				r.Count("rates", 1)
				r.Eval(len(incs) > 0, i, len(trace))
				if math.IsNaN(got) || got < min-1e-9 || got > max+1e-9 {
					fail("rate", "age %v: the rate over %v is %f; what was counted in it gives %f to %f", now.Sub(born), period, got, min, max)
				}
				if hi == 0 {
					r.Count("zero_rates", 1)
					if got != 0 {
						fail("rate-zero", "age %v: nothing was counted for %v and the rate is %f", now.Sub(born), w, got)
					}
				}
			}
			for range 40 {
				switch rnd.Intn(6) {
				case 0, 1:
					n := int64(rnd.Intn(1000))
					if rnd.Intn(3) == 0 {
						n = int64(rnd.Intn(1 << 30))
					}
					total += n
					incs = append(incs, inc{time.Now(), n})
					if v := c.Incr(n); v != total {
						fail("incr", "Incr returns %d, %d was counted", v, total)
					}
					trace = append(trace, fmt.Sprintf("%v incr %d", time.Since(born), n))
				case 2:
					// many at once
					var wg sync.WaitGroup
					k := 2 + rnd.Intn(6)
					for range k {
						wg.Add(1)
						go func() {
							defer wg.Done()
							last := int64(-1)
							for j := range 40 {
								v := c.Incr(3)
								if v <= last {
									fail("decrease", "the total went from %d to %d", last, v)
								}
								last = v
								if j%8 == 0 {
									if v := c.Value(); v < last {
										fail("decrease", "the total went from %d to %d", last, v)
									}
									c.Rate(maxP)
								}
							}
						}()
					}
					wg.Wait()
					total += int64(k) * 120
					incs = append(incs, inc{time.Now(), int64(k) * 120})
					r.Count("concurrent_incr", k*40)
					trace = append(trace, fmt.Sprintf("%v %d x 120", time.Since(born), k))
				case 3:
					time.Sleep(time.Duration(rnd.Intn(int(3 * rez))))
				case 4:
					d := []time.Duration{rez, rez - 1, rez + 1, maxP, maxP - 1, maxP + 1, maxP + rez, 3*maxP + rez/2, time.Duration(rnd.Intn(int(2 * maxP)))}[rnd.Intn(9)]
					time.Sleep(d)
				}
				check()
			}
			if i < 2 {
				r.Sample(trace[:min(len(trace), 12)])
			}
		})
	}
}

type wire struct{ up, down atomic.Int64 }

type countConn struct {
	net.Conn
	w *wire
}

func (c countConn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	c.w.down.Add(int64(n))
	return n, err
}

func (c countConn) Write(b []byte) (int, error) {
	n, err := c.Conn.Write(b)
	c.w.up.Add(int64(n))
	return n, err
}

var rowRE = regexp.MustCompile(`(?s)<div style="text-align: left">([^<]*)</div>\s*<div[^>]*>(\d+)</div>\s*<div[^>]*>([^<]*)</div>\s*<div>\(([^<]*)\)</div>\s*<div[^>]*>([^<]*)</div>\s*<div>\(([^<]*)\)</div>`)

type row struct {
	conns           int64
	egress, ingress string
	erate, irate    string
}

func readMetrics(p *vp.P) (map[string]row, error) {
	b := p.Browser(vp.ClientOpt{})
	res, err := b.Get("https://console.v.test/")
	if err != nil {
		return nil, err
	}
	out := map[string]row{}
	for _, m := range rowRE.FindAllStringSubmatch(res.Text, -1) {
		n, _ := strconv.ParseInt(m[2], 10, 64)
		out[html.UnescapeString(m[1])] = row{n, html.UnescapeString(m[3]), html.UnescapeString(m[5]), html.UnescapeString(m[4]), html.UnescapeString(m[6])}
	}
	return out, nil
}

// shown says whether text is how n would be shown.
func shown(text string, n int64) bool {
	f := strings.Fields(strings.ReplaceAll(text, "\u00a0", " "))
	if len(f) != 2 {
		return false
	}
	v, err := strconv.ParseFloat(f[0], 64)
	if err != nil {
		return false
	}
	unit := map[string]float64{"B": 1, "KB": 1e3, "MB": 1e6, "GB": 1e9}[f[1]]
	if unit == 1 {
		return int64(v) == n
	}
	return math.Abs(v*unit-float64(n)) <= 0.051*unit
}

// TestP33E2E compares the metrics page with what clients sent and received.
func TestP33E2E(t *testing.T) {
	r := vh.New(t, "server names on the metrics page")
	e := vp.NewEnv(t)
	// The server reads everything, then sends as many bytes as it was told to.
	serve := func(c net.Conn) {
		defer c.Close()
		hdr := make([]byte, 4)
		if _, err := io.ReadFull(c, hdr); err != nil {
			return
		}
		down := int(hdr[0])<<16 | int(hdr[1])<<8 | int(hdr[2])
		done := make(chan bool)
		go func() { c.Write(make([]byte, down)); close(done) }()
		io.Copy(io.Discard, c)
		<-done
		if cw, ok := c.(interface{ CloseWrite() error }); ok {
			cw.CloseWrite()
		}
	}
	plain := vp.NewTCPServer(t, serve)
	secure := vp.NewTCPServer(t, vp.TLSServe(e.ServerTLS(nil, "p0.v.test", "p1.v.test", "t2.v.test"), func(c *tls.Conn) { serve(c) }))
	for round := range vh.N(3, 30) {
		rnd := vh.Rand("p33e", round)
		cfg := e.Config(true,
			&proxy.Backend{ServerNames: []string{"console.v.test"}, Mode: "CONSOLE"},
			&proxy.Backend{ServerNames: []string{"p0.v.test", "p1.v.test"}, Mode: "TLSPASSTHROUGH", Addresses: []string{secure.Addr}},
			&proxy.Backend{ServerNames: []string{"t0.v.test", "t1.v.test"}, Mode: "TCP", Addresses: []string{plain.Addr}, ALPNProtos: &[]string{"foo"}},
			&proxy.Backend{ServerNames: []string{"q0.v.test"}, Mode: "TCP", Addresses: []string{plain.Addr}, ALPNProtos: &[]string{"foo"}},
			&proxy.Backend{ServerNames: []string{"t2.v.test"}, Mode: "TLS", Addresses: []string{secure.Addr}, ForwardRootCAs: []string{e.CA.PEM}, ForwardServerName: "t2.v.test"},
			&proxy.Backend{ServerNames: []string{"idle.v.test"}, Mode: "TCP", Addresses: []string{plain.Addr}},
		)
		p := e.Start(cfg)
		names := []string{"p0.v.test", "p1.v.test", "t0.v.test", "t1.v.test", "t2.v.test", "q0.v.test"}
		w := map[string]*wire{}
		conns := map[string]*atomic.Int64{}
		for _, n := range names {
			w[n], conns[n] = &wire{}, &atomic.Int64{}
		}
		type job struct {
			name     string
			up, down int
			abort    bool
		}
		var jobs []job
		per := []int{12, 40, 25}[round%3]
		for _, n := range names {
			size := []int{0, 2000, 40000, 400000}[rnd.Intn(4)] + 1
			for range per {
				jobs = append(jobs, job{n, rnd.Intn(size), rnd.Intn(size), rnd.Intn(8) == 0 && n[0] != 'q'})
			}
		}
		rnd.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
		stop := make(chan bool)
		var prev map[string]row
		watched := make(chan bool)
		go func() {
			defer close(watched)
			for {
				select {
				case <-stop:
					return
				case <-time.After(30 * time.Millisecond):
				}
				m, err := readMetrics(p)
				if err != nil {
					continue
				}
				for n, x := range prev {
					if y, ok := m[n]; !ok || y.conns < x.conns {
						r.Violate("decrease", nil, "%s: from %+v to %+v", n, x, y)
					}
				}
				prev = m
				r.Count("reads_during", 1)
			}
		}()
		vh.Parallel(8, len(jobs), func(i int) {
			j := jobs[i]
			hdr := []byte{byte(j.down >> 16), byte(j.down >> 8), byte(j.down), 0}
			conns[j.name].Add(1)
			r.Eval(true, j.name, j.up/1000, j.down/1000)
			if j.name[0] == 'q' {
				qc, cleanup, err := p.DialQUIC(j.name, vp.ClientOpt{Protos: []string{"foo"}})
				if err != nil {
					r.Inconclusive("quic: %v", err)
					return
				}
				defer cleanup()
				st, err := qc.OpenStream()
				if err != nil {
					r.Inconclusive("quic stream: %v", err)
					return
				}
				n, _ := st.Write(append(hdr, make([]byte, j.up)...))
				st.Close()
				m, err := io.Copy(io.Discard, st)
				if err != nil || int(m) != j.down {
					r.Inconclusive("quic stream: got %d of %d: %v", m, j.down, err)
				}
				w[j.name].up.Add(int64(n))
				w[j.name].down.Add(m)
				qc.CloseWithError(0, "")
				r.Count("quic_conns", 1)
				return
			}
			raw, err := p.TCP("")
			if err != nil {
				r.Inconclusive("dial: %v", err)
				return
			}
			raw.SetDeadline(time.Now().Add(100 * time.Second))
			cc := countConn{raw, w[j.name]}
			if j.abort {
				// only the ClientHello
				cc.Write(vp.ClientHello(j.name, "foo"))
				raw.CloseWrite()
				io.Copy(io.Discard, cc)
				raw.Close()
				r.Count("aborted_conns", 1)
				return
			}
			tc := tls.Client(cc, p.TLSConfig(j.name, vp.ClientOpt{}))
			if err := tc.Handshake(); err != nil {
				r.Inconclusive("%s handshake: %v", j.name, err)
				raw.Close()
				return
			}
			got := make(chan int64)
			go func() { n, _ := io.Copy(io.Discard, tc); got <- n }()
			tc.Write(append(hdr, make([]byte, j.up)...))
			tc.CloseWrite()
			if n := <-got; int(n) != j.down {
				r.Inconclusive("%s: got %d of %d", j.name, n, j.down)
			}
			io.Copy(io.Discard, cc)
			raw.Close()
			r.Count("tcp_conns", 1)
		})
		close(stop)
		<-watched
		var m map[string]row
		var err error
		bad := ""
		ok := vh.Eventually(20*time.Second, func() bool {
			bad = ""
			if m, err = readMetrics(p); err != nil {
				bad = err.Error()
				return false
			}
			for _, n := range names {
				x := m[n]
				if x.conns != conns[n].Load() || !shown(x.egress, w[n].down.Load()) || !shown(x.ingress, w[n].up.Load()) {
					bad = fmt.Sprintf("%s: the page shows %+v; the clients made %d connections, sent %d bytes and received %d", n, x, conns[n].Load(), w[n].up.Load(), w[n].down.Load())
					return false
				}
			}
			return true
		})
		if !ok {
			r.Violate("totals", nil, "round %d: %s", round, bad)
		}
		if x, ok := m["idle.v.test"]; ok && (x.conns != 0) {
			r.Violate("idle", nil, "a name nobody connected to has %+v", x)
		}
		for range names {
			r.Count("names_checked", 1)
		}
		p.End()
	}
	r.NeedAtLeast("names_checked", 12)
	r.NeedAtLeast("tcp_conns", 100)
	r.NeedAtLeast("quic_conns", 20)
	r.NeedAtLeast("reads_during", 3)
}

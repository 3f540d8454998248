// Package limits monitors what the proxy's rate and bandwidth limits let
// through.
package limits

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/quic-go/quic-go"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// Bursts are never smaller than this.
const minBurst = 1 << 17

func payload(seed uint64, from int, b []byte) {
	for i := range b {
		o := from + i
		x := (uint64(o/8) + seed) * 0x9E3779B97F4A7C15
		x ^= x >> 31
		b[i] = byte(x >> (uint(o%8) * 8))
	}
}

// meter checks that the bytes that came through a limit, in one direction, are
// within its bound at all times since t0, when nothing was in flight.
//
// Arrivals are recorded after the limit let them through. So, delays can only
// make the measured amounts smaller.
type meter struct {
	run   *vh.Run
	desc  string
	rate  float64
	burst float64

	mu    sync.Mutex
	t0    time.Time
	n     float64
	total int
	worst float64
	late  bool // some bytes had to wait
}

func newMeter(run *vh.Run, desc string, rate float64) *meter {
	return &meter{run: run, desc: desc, rate: rate, burst: max(rate, minBurst), t0: time.Now()}
}

func (m *meter) restart() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.t0, m.n = time.Now(), 0
}

func (m *meter) add(n int) {
	if m == nil || n <= 0 {
		return
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.n += float64(n)
	m.total += n
	d := time.Since(m.t0).Seconds()
	bound := m.burst + m.rate*d
	if m.n > bound+1 {
		m.run.Violate("bandwidth:"+m.desc, nil, "%s: %.0f bytes came through in %.3fs, the limit allows %.0f (%.0f + %.0f per second)", m.desc, m.n, d, bound, m.burst, m.rate)
	}
	m.worst = max(m.worst, m.n/bound)
	if m.n > m.burst {
		m.late = true
	}
	m.run.Count("arrivals", 1)
}

// limit is a bandwidth limit with its meters.
type limit struct {
	name    string
	in, out *meter // nil when not limited
	ri, ro  float64
}

// kinds of transfers.
var kinds = []string{"tcp", "tls", "passthrough", "quic", "quic-uni", "quic-tcp", "http1", "http2", "h3", "https2", "ws", "static", "static-h3"}

type group struct {
	limit *limit
	kinds []string
}

type env struct {
	run  *vh.Run
	e    *vp.Env
	p    *vp.P
	rnd  *rand.Rand
	docs string
	// Transfers by id.
	mu  sync.Mutex
	ids map[uint64]*transfer
	n   uint64
}

// transfer is what one client and its server exchange.
type transfer struct {
	id   uint64
	kind string
	name string
	l    *limit
	up   int // bytes from the client to the server
	down int // bytes from the server to the client
	got  chan error
}

func (e *env) newTransfer(kind, name string, l *limit, up, down int) *transfer {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.n++
	t := &transfer{id: e.n, kind: kind, name: name, l: l, up: up, down: down, got: make(chan error, 1)}
	e.ids[t.id] = t
	return t
}

func (e *env) find(id uint64) *transfer {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.ids[id]
}

// receive reads and checks n bytes.
func receive(r io.Reader, seed uint64, n int, m *meter) error {
	b := make([]byte, 16384)
	want := make([]byte, len(b))
	for pos := 0; pos < n; {
		k, err := r.Read(b[:min(len(b), n-pos)])
		m.add(k)
		payload(seed, pos, want[:k])
		if !bytes.Equal(want[:k], b[:k]) {
			return fmt.Errorf("corrupt: the bytes in [%d,%d) differ", pos, pos+k)
		}
		pos += k
		if err == io.EOF && pos == n {
			return nil
		}
		if err != nil {
			return fmt.Errorf("after %d bytes of %d: %w", pos, n, err)
		}
	}
	return nil
}

func atEnd(r io.Reader) error {
	b := make([]byte, 16)
	n, err := io.ReadFull(r, b)
	if n > 0 {
		return fmt.Errorf("corrupt: bytes after the end: %q", b[:n])
	}
	if err != io.EOF {
		return fmt.Errorf("at the end: %w", err)
	}
	return nil
}

type source struct {
	seed   uint64
	pos, n int
	step   int
}

func (s *source) Read(b []byte) (int, error) {
	if s.pos >= s.n {
		return 0, io.EOF
	}
	k := min(len(b), s.n-s.pos, s.step)
	payload(s.seed, s.pos, b[:k])
	s.pos += k
	return k, nil
}

func send(w io.Writer, seed uint64, n, step int) error {
	b := make([]byte, step)
	for pos := 0; pos < n; {
		k := min(n-pos, step)
		payload(seed, pos, b[:k])
		if _, err := w.Write(b[:k]); err != nil {
			return fmt.Errorf("write after %d bytes of %d: %w", pos, n, err)
		}
		pos += k
	}
	return nil
}

func upSeed(id uint64) uint64   { return id<<1 | 1 }
func downSeed(id uint64) uint64 { return id << 1 }

// serve handles one stream on the server side.
func (e *env) serve(c io.ReadWriter, closeWrite func()) {
	var hdr [8]byte
	if _, err := io.ReadFull(c, hdr[:]); err != nil {
		return
	}
	t := e.find(binary.BigEndian.Uint64(hdr[:]))
	if t == nil {
		e.run.Violate("corrupt", nil, "a server received an unknown transfer number %x", hdr)
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		if t.down > 0 {
			send(c, downSeed(t.id), t.down, 30000)
		}
	}()
	t.l.in.add(8)
	err := receive(c, upSeed(t.id), t.up, t.l.in)
	if err == nil {
		err = atEnd(c)
	}
	// By default, the end of the server's stream ends the connection.
	<-done
	closeWrite()
	t.got <- err
}

func (e *env) handler() http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		id, _ := strconv.ParseUint(req.Header.Get("X-Id"), 10, 64)
		t := e.find(id)
		if t == nil {
			return
		}
		rc := http.NewResponseController(w)
		rc.EnableFullDuplex()
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := receive(req.Body, upSeed(id), t.up, t.l.in)
			if err == nil {
				err = atEnd(req.Body)
			}
			t.got <- err
		}()
		if t.up == 0 || t.kind == "http2" || t.kind == "https2" || t.kind == "h3" {
			w.Header().Set("Content-Length", strconv.Itoa(t.down))
			w.WriteHeader(200)
			rc.Flush()
		} else {
			wg.Wait()
		}
		// The end of the response ends the request.
		b := make([]byte, t.down)
		payload(downSeed(id), 0, b)
		for len(b) > 1 {
			n := min(len(b)-1, 20000)
			if _, err := w.Write(b[:n]); err != nil {
				break
			}
			b = b[n:]
		}
		wg.Wait()
		w.Write(b)
	})
}

// client runs the client side of a transfer.
func (e *env) client(t *transfer, ip string, timeout time.Duration, step int) error {
	o := vp.ClientOpt{LocalIP: ip}
	deadline := time.Now().Add(timeout)
	stream := func(c io.ReadWriter, closeWrite func() error) error {
		ch := make(chan error, 1)
		go func() {
			var hdr [8]byte
			binary.BigEndian.PutUint64(hdr[:], t.id)
			_, err := c.Write(hdr[:])
			if err == nil {
				err = send(c, upSeed(t.id), t.up, step)
			}
			if err == nil {
				err = closeWrite()
			}
			ch <- err
		}()
		err := receive(c, downSeed(t.id), t.down, t.l.out)
		if err == nil {
			err = atEnd(c)
		}
		if e := <-ch; err == nil && e != nil {
			err = e
		}
		if err == nil {
			err = t.received(timeout)
		}
		return err
	}
	switch t.kind {
	case "tcp", "tls", "passthrough":
		c, err := e.p.Dial(t.name, o)
		if err != nil {
			return err
		}
		defer c.Close()
		c.SetDeadline(deadline)
		return stream(c, c.CloseWrite)
	case "quic", "quic-tcp":
		o.Protos = []string{"qq"}
		c, clean, err := e.p.DialQUIC(t.name, o)
		if err != nil {
			return err
		}
		defer clean()
		s, err := c.OpenStreamSync(context.Background())
		if err != nil {
			return err
		}
		s.SetDeadline(deadline)
		return stream(s, s.Close)
	case "quic-uni":
		o.Protos = []string{"qq"}
		c, clean, err := e.p.DialQUIC(t.name, o)
		if err != nil {
			return err
		}
		defer clean()
		s, err := c.OpenUniStream()
		if err != nil {
			return err
		}
		s.SetWriteDeadline(deadline)
		var hdr [8]byte
		binary.BigEndian.PutUint64(hdr[:], t.id)
		if _, err := s.Write(hdr[:]); err != nil {
			return err
		}
		if err := send(s, upSeed(t.id), t.up, step); err != nil {
			return err
		}
		if err := s.Close(); err != nil {
			return err
		}
		// The server answers on a stream of its own.
		rs, err := c.AcceptUniStream(context.Background())
		if err != nil {
			return err
		}
		rs.SetReadDeadline(deadline)
		if err := receive(rs, downSeed(t.id), t.down, t.l.out); err != nil {
			return err
		}
		if err := atEnd(rs); err != nil {
			return err
		}
		return t.received(timeout)
	case "ws":
		d := &websocket.Dialer{HandshakeTimeout: timeout, NetDialTLSContext: func(context.Context, string, string) (net.Conn, error) { return e.p.Dial(t.name, o) }}
		c, _, err := d.Dial("wss://"+t.name+"/socket", nil)
		if err != nil {
			return err
		}
		defer c.Close()
		c.SetReadDeadline(deadline)
		c.SetWriteDeadline(deadline)
		w := &wsStream{Conn: c}
		// The server ends its side when it has everything.
		return stream(w, func() error {
			return t.received(timeout)
		})
	}
	var c *http.Client
	switch t.kind {
	case "http2", "https2":
		o.Protos = []string{"h2"}
		c = e.p.HTTPClient(o)
	case "h3", "static-h3":
		var clean func()
		c, clean = e.p.H3Client(o)
		defer clean()
	default:
		c = e.p.HTTPClient(o)
	}
	defer c.CloseIdleConnections()
	c.Timeout = timeout
	u := "https://" + t.name + "/x"
	if strings.HasPrefix(t.kind, "static") {
		u = "https://" + t.name + "/files/f" + strconv.Itoa(int(t.id))
	}
	var body io.Reader
	method := "GET"
	if t.up > 0 {
		body = &source{seed: upSeed(t.id), n: t.up, step: step}
		method = "POST"
	}
	req, _ := http.NewRequest(method, u, body)
	req.Header.Set("X-Id", strconv.FormatUint(t.id, 10))
	resp, err := c.Do(req)
	if err != nil {
		return err
	}
	defer resp.Body.Close()
	if resp.StatusCode != 200 {
		b, _ := io.ReadAll(resp.Body)
		return fmt.Errorf("status %d %.100q", resp.StatusCode, b)
	}
	if err := receive(resp.Body, downSeed(t.id), t.down, t.l.out); err != nil {
		return err
	}
	if err := atEnd(resp.Body); err != nil {
		return err
	}
	return t.received(timeout)
}

// received waits until the server has received everything.
func (t *transfer) received(timeout time.Duration) error {
	select {
	case err := <-t.got:
		t.got <- err
		return err
	case <-time.After(timeout):
		return fmt.Errorf("the server did not see the end")
	}
}

type wsStream struct {
	*websocket.Conn
	buf []byte
}

func (s *wsStream) Read(b []byte) (int, error) {
	for len(s.buf) == 0 {
		_, m, err := s.Conn.ReadMessage()
		if websocket.IsCloseError(err, websocket.CloseNormalClosure) {
			return 0, io.EOF
		}
		if err != nil {
			return 0, err
		}
		s.buf = m
	}
	n := copy(b, s.buf)
	s.buf = s.buf[n:]
	return n, nil
}

func (s *wsStream) Write(b []byte) (int, error) {
	return len(b), s.Conn.WriteMessage(websocket.BinaryMessage, b)
}

func name(k string, l *limit) string {
	return k + "-" + strings.ToLower(l.name) + ".v.test"
}

// backends returns the backends of all kinds for one limit.
func (e *env) backends(t testing.TB, cfg *proxy.Config, l *limit, ks []string) {
	up := "up.v.test"
	for _, k := range ks {
		n := name(k, l)
		be := &proxy.Backend{ServerNames: []string{n}, BWLimit: l.name, ForwardRateLimit: 100000, ForwardTimeout: 30 * time.Second}
		secure := func() { be.ForwardRootCAs, be.ForwardServerName = []string{e.e.CA.PEM}, up }
		plain := func(c net.Conn) {
			defer c.Close()
			cw := c.(interface{ CloseWrite() error })
			e.serve(c, func() { cw.CloseWrite() })
		}
		switch k {
		case "tcp":
			be.Mode = proxy.ModeTCP
			be.Addresses = []string{vp.NewTCPServer(t, plain).Addr}
		case "tls", "passthrough":
			be.Mode = proxy.ModeTLS
			if k == "passthrough" {
				be.Mode = proxy.ModeTLSPassthrough
			} else {
				secure()
			}
			be.Addresses = []string{vp.NewTCPServer(t, vp.TLSServe(e.e.ServerTLS(nil, up, n), func(c *tls.Conn) { plain(c) })).Addr}
		case "quic", "quic-uni":
			be.Mode = proxy.ModeQUIC
			be.ALPNProtos = &[]string{"qq"}
			secure()
			be.Addresses = []string{vp.NewQUICServer(t, e.e.ServerTLS([]string{"qq"}, up), func(c quic.Connection) {
				go func() {
					for {
						s, err := c.AcceptUniStream(context.Background())
						if err != nil {
							return
						}
						go e.serveUni(c, s)
					}
				}()
				for {
					s, err := c.AcceptStream(context.Background())
					if err != nil {
						return
					}
					go e.serve(s, func() { s.Close() })
				}
			}).Addr}
		case "quic-tcp":
			be.Mode = proxy.ModeTCP
			be.ALPNProtos = &[]string{"qq"}
			be.Addresses = []string{vp.NewTCPServer(t, plain).Addr}
		case "http1", "http2", "h3":
			be.Mode = proxy.ModeHTTP
			be.Addresses = []string{vp.NewHTTPServer(t, nil, e.handler()).Addr}
		case "https2":
			be.Mode = proxy.ModeHTTPS
			secure()
			be.Addresses = []string{vp.NewHTTPServer(t, e.e.ServerTLS([]string{"h2", "http/1.1"}, up), e.handler()).Addr}
		case "static", "static-h3":
			be.Mode = proxy.ModeHTTP
			be.Addresses = []string{vp.NewHTTPServer(t, nil, e.handler()).Addr}
			be.PathOverrides = []*proxy.PathOverride{{Paths: []string{"/files/"}, DocumentRoot: e.docs}}
		case "ws":
			be.Mode = proxy.ModeLocal
			addr := vp.NewTCPServer(t, func(c net.Conn) {
				defer c.Close()
				var hdr [8]byte
				if _, err := io.ReadFull(c, hdr[:]); err != nil {
					return
				}
				t := e.find(binary.BigEndian.Uint64(hdr[:]))
				if t == nil {
					e.run.Violate("corrupt", nil, "a server received an unknown transfer number %x", hdr)
					return
				}
				done := make(chan struct{})
				go func() {
					defer close(done)
					send(c, downSeed(t.id), t.down, 30000)
				}()
				t.got <- receive(c, upSeed(t.id), t.up, t.l.in)
				<-done
			}).Addr
			cfg.WebSockets = append(cfg.WebSockets, &proxy.WebSocketConfig{Endpoint: "wss://" + n + "/socket", Address: addr})
		}
		cfg.Backends = append(cfg.Backends, be)
	}
}

func (e *env) serveUni(c quic.Connection, s quic.ReceiveStream) {
	var hdr [8]byte
	if _, err := io.ReadFull(s, hdr[:]); err != nil {
		return
	}
	t := e.find(binary.BigEndian.Uint64(hdr[:]))
	if t == nil {
		e.run.Violate("corrupt", nil, "a server received an unknown transfer number %x", hdr)
		return
	}
	go func() {
		o, err := c.OpenUniStream()
		if err != nil {
			return
		}
		send(o, downSeed(t.id), t.down, 30000)
		o.Close()
	}()
	err := receive(s, upSeed(t.id), t.up, t.l.in)
	if err == nil {
		err = atEnd(s)
	}
	t.got <- err
}

// run does one transfer and checks that it is complete.
func (e *env) transfer(kind string, l *limit, up, down, step int, timeout time.Duration) {
	if strings.HasPrefix(kind, "static") {
		up = 0
	}
	t := e.newTransfer(kind, name(kind, l), l, up, down)
	if strings.HasPrefix(kind, "static") {
		b := make([]byte, down)
		payload(downSeed(t.id), 0, b)
		if err := os.WriteFile(filepath.Join(e.docs, "f"+strconv.Itoa(int(t.id))), b, 0o644); err != nil {
			panic(err)
		}
		t.got <- nil
	}
	begin := time.Now()
	err := e.client(t, "", timeout, step)
	if err != nil {
		key := "aborted:"
		if strings.HasPrefix(err.Error(), "corrupt") {
			key = "corrupt:"
		} else if time.Since(begin) >= timeout {
			key = "starved:"
		}
		e.run.Violate(key+kind, nil, "a %s transfer of %d bytes up and %d bytes down, in steps of %d, with limit %s (%.0f, %.0f bytes/s), failed after %v: %v", kind, up, down, step, l.name, l.ri, l.ro, time.Since(begin).Truncate(time.Millisecond), err)
	}
	e.run.Count("transfers:"+kind, 1)
	e.run.Count("bytes", up+down)
	e.run.Eval(true, kind, l.name, up > minBurst, down > minBurst, step < 100)
}

const patience = 100 * time.Second

// TestP24Bandwidth runs transfers of all kinds through bandwidth limits.
func TestP24Bandwidth(t *testing.T) {
	run := vh.New(t, "a case is a transfer through a bandwidth limit; distinct by kind, limit, and whether it exceeds the burst size in each direction")
	ve := vp.NewEnv(t)
	worlds := vh.N(3, 10)
	vh.Parallel(3, worlds, func(n int) {
		e := &env{run: run, e: ve, rnd: vh.Rand("P24", n), docs: vh.Work(t), ids: map[uint64]*transfer{}}
		r := e.rnd
		mk := func(name string, in, out float64) *limit {
			l := &limit{name: name, ri: in, ro: out}
			if in < 1e9 {
				l.in = newMeter(run, name+" in", in)
			}
			if out < 1e9 {
				l.out = newMeter(run, name+" out", out)
			}
			return l
		}
		limits := []*limit{
			mk([]string{"shared", "Shared", "SHARED"}[n%3], float64(100000+r.Intn(300000)), float64(100000+r.Intn(300000))),
			mk([]string{"up-Only", "other", "Shared2"}[n%3], float64(100000+r.Intn(300000)), 1e12),
			mk([]string{"down", "DOWN", "Down"}[n%3], 1e12, float64(100000+r.Intn(300000))),
			mk([]string{"Free", "free", "x"}[n%3], 1e12, 1e12),
		}
		cfg := e.e.Config(true)
		for _, l := range limits {
			cfg.BWLimits = append(cfg.BWLimits, &proxy.BWLimit{Name: l.name, Ingress: l.ri, Egress: l.ro})
		}
		rand.New(rand.NewSource(r.Int63())).Shuffle(len(cfg.BWLimits), func(i, j int) {
			cfg.BWLimits[i], cfg.BWLimits[j] = cfg.BWLimits[j], cfg.BWLimits[i]
		})
		for _, l := range limits {
			e.backends(t, cfg, l, kinds)
		}
		// t0 precedes everything.
		for _, l := range limits {
			if l.in != nil {
				l.in.restart()
			}
			if l.out != nil {
				l.out.restart()
			}
		}
		e.p = e.e.Start(cfg)
		defer e.p.End()
		for phase := 0; phase < vh.N(2, 4); phase++ {
			if phase > 0 {
				// Nothing is in flight. The limits can have changed.
				time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
				if r.Intn(2) == 0 {
					e.change(t, r, limits)
				}
				for _, l := range limits {
					if l.in != nil {
						l.in.restart()
					}
					if l.out != nil {
						l.out.restart()
					}
				}
			}
			var wg sync.WaitGroup
			for _, l := range limits {
				total := map[bool]int{true: int(3 * max(l.ri, minBurst)), false: int(3 * max(l.ro, minBurst))}
				ks := append([]string(nil), kinds...)
				r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
				if r.Intn(2) == 0 {
					ks = ks[:1+r.Intn(5)]
				}
				for _, k := range ks {
					up, down := total[true]/len(ks), total[false]/len(ks)
					if l.ri > 1e9 {
						up = 100 + r.Intn(2000000)
					}
					if l.ro > 1e9 {
						down = 100 + r.Intn(2000000)
					}
					switch r.Intn(4) {
					case 0:
						up = r.Intn(300)
					case 1:
						down = r.Intn(300)
					}
					step := []int{10 + r.Intn(1000), 4000, 30000, 500000}[r.Intn(4)]
					wg.Add(1)
					go func() {
						defer wg.Done()
						e.transfer(k, l, up, down, step, patience)
					}()
				}
			}
			wg.Wait()
			if run.NumViolations() > 6 {
				return
			}
		}
		for _, l := range limits {
			for _, m := range []*meter{l.in, l.out} {
				if m != nil && m.late {
					run.Count("limits_that_delayed", 1)
					if m.worst > 0.7 {
						run.Count("limits_near_bound", 1)
					}
				}
			}
		}
		// Many small messages aren't worth much.
		for _, k := range []string{"tcp", "tls", "passthrough", "quic", "quic-tcp"} {
			e.pingPong(t, k, limits[0], 300)
		}
	})
	for _, p := range vp.Log.TakePanics() {
		run.Violate("panic", p, "the proxy panicked: %s", vh.Trunc(p, 300))
	}
	run.NeedAtLeast("limits_that_delayed", 2)
	run.NeedAtLeast("bytes", 1000000)
}

// change gives the limits new values.
func (e *env) change(t testing.TB, r *rand.Rand, limits []*limit) {
	cfg := *e.p.Cfg
	cfg.BWLimits = nil
	for _, l := range limits {
		for _, x := range []struct {
			m *meter
			v *float64
		}{{l.in, &l.ri}, {l.out, &l.ro}} {
			if x.m != nil {
				*x.v = float64(100000 + r.Intn(300000))
				x.m.mu.Lock()
				x.m.rate, x.m.burst = *x.v, max(*x.v, minBurst)
				x.m.mu.Unlock()
			}
		}
		cfg.BWLimits = append(cfg.BWLimits, &proxy.BWLimit{Name: l.name, Ingress: l.ri, Egress: l.ro})
	}
	if err := e.p.Reconfigure(&cfg); err != nil {
		e.run.Violate("refused-valid", nil, "changing the bandwidth limits failed: %v", err)
	}
	e.p.Cfg = &cfg
	e.run.Count("limit_changes", 1)
}

// pingPong sends one byte at a time, and waits for the answer.
func (e *env) pingPong(t testing.TB, kind string, l *limit, n int) {
	tr := e.newTransfer(kind, name(kind, l), l, n, n)
	_ = tr
	o := vp.ClientOpt{}
	var c io.ReadWriteCloser
	begin := time.Now()
	var dl func(time.Time) error
	if strings.HasPrefix(kind, "quic") {
		o.Protos = []string{"qq"}
		qc, clean, err := e.p.DialQUIC(tr.name, o)
		if err != nil {
			e.run.Violate("aborted:"+kind, nil, "dial: %v", err)
			return
		}
		defer clean()
		s, err := qc.OpenStreamSync(context.Background())
		if err != nil {
			e.run.Violate("aborted:"+kind, nil, "open: %v", err)
			return
		}
		c, dl = s, s.SetDeadline
	} else {
		tc, err := e.p.Dial(tr.name, o)
		if err != nil {
			e.run.Violate("aborted:"+kind, nil, "dial: %v", err)
			return
		}
		defer tc.Close()
		c, dl = tc, tc.SetDeadline
	}
	dl(time.Now().Add(patience))
	var hdr [8]byte
	binary.BigEndian.PutUint64(hdr[:], tr.id)
	_, err := c.Write(hdr[:])
	b := make([]byte, 1)
	i := 0
	for ; i < n && err == nil; i++ {
		payload(upSeed(tr.id), i, b)
		if _, err = c.Write(b); err == nil {
			time.Sleep(time.Millisecond)
		}
	}
	if err == nil {
		if cw, ok := c.(interface{ CloseWrite() error }); ok {
			err = cw.CloseWrite()
		} else {
			err = c.Close()
		}
	}
	if err == nil {
		err = receive(c, downSeed(tr.id), n, nil)
	}
	if err == nil {
		err = tr.received(patience)
	}
	if err != nil || time.Since(begin) > patience/3 {
		e.run.Violate("small:"+kind, nil, "%d bytes sent one by one through a limit of %.0f bytes/s needed %v: %v", n, l.ri, time.Since(begin), err)
	}
	e.run.Count("small", 1)
}

// ---------------------------------------------------------------- connections

// flow counts what is forwarded to one backend.
type flow struct {
	run  *vh.Run
	desc string
	rate int
	t0   time.Time
	n    atomic.Int64
}

func (f *flow) hit() {
	n := f.n.Add(1)
	d := time.Since(f.t0).Seconds()
	if bound := float64(f.rate) * (1 + d); float64(n) > bound+0.01 {
		f.run.Violate("rate:"+f.desc, nil, "%s: %d were forwarded in %.3fs, the limit allows %.1f (%d + %d per second)", f.desc, n, d, bound, f.rate, f.rate)
	}
	f.run.Count("forwarded:"+f.desc, 1)
}

// TestP24Rate floods backends with connections and requests.
func TestP24Rate(t *testing.T) {
	run := vh.New(t, "a case is a flood of connections or requests of one kind to one backend; distinct by kind and rate")
	ve := vp.NewEnv(t)
	type kind struct {
		desc string
		mode string
		alpn []string
		do   func(p *vp.P, name string, stop func() bool) // one client
	}
	one := func(p *vp.P, name string) {
		c, err := p.Dial(name, vp.ClientOpt{})
		if err != nil {
			return
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(patience))
		c.Write([]byte("x"))
		io.ReadFull(c, make([]byte, 1))
	}
	stream := func(p *vp.P, name string, stop func() bool) {
		for !stop() {
			one(p, name)
		}
	}
	quicConns := func(p *vp.P, name string, stop func() bool) {
		for !stop() {
			c, clean, err := p.DialQUIC(name, vp.ClientOpt{Protos: []string{"qq"}})
			if err != nil {
				continue
			}
			if s, err := c.OpenStreamSync(context.Background()); err == nil {
				s.SetDeadline(time.Now().Add(10 * time.Second))
				s.Write([]byte("x"))
				io.ReadFull(s, make([]byte, 1))
			}
			clean()
		}
	}
	quicStreams := func(p *vp.P, name string, stop func() bool) {
		c, clean, err := p.DialQUIC(name, vp.ClientOpt{Protos: []string{"qq"}})
		if err != nil {
			return
		}
		defer clean()
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !stop() {
					s, err := c.OpenStreamSync(context.Background())
					if err != nil {
						return
					}
					s.SetDeadline(time.Now().Add(10 * time.Second))
					s.Write([]byte("x"))
					s.Close()
					io.Copy(io.Discard, s)
				}
			}()
		}
		wg.Wait()
	}
	requests := func(proto string) func(p *vp.P, name string, stop func() bool) {
		return func(p *vp.P, name string, stop func() bool) {
			for !stop() {
				var c *http.Client
				clean := func() {}
				switch proto {
				case "h1":
					c = p.HTTPClient(vp.ClientOpt{})
				case "h2":
					c = p.HTTPClient(vp.ClientOpt{Protos: []string{"h2"}})
				case "h3":
					c, clean = p.H3Client(vp.ClientOpt{})
				}
				// The requests of one client share a connection, with h2
				// and h3, and begin together.
				var wg sync.WaitGroup
				par := map[string]int{"h1": 1, "h2": 10, "h3": 10}[proto]
				for i := 0; i < par; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < 6 && !stop(); k++ {
							resp, err := c.Get("https://" + name + "/")
							if err != nil {
								return
							}
							io.Copy(io.Discard, resp.Body)
							resp.Body.Close()
						}
					}()
				}
				wg.Wait()
				c.CloseIdleConnections()
				clean()
			}
		}
	}
	ks := []kind{
		{"tcp", proxy.ModeTCP, nil, stream},
		{"tls", proxy.ModeTLS, nil, stream},
		{"passthrough", proxy.ModeTLSPassthrough, nil, stream},
		{"quic", proxy.ModeQUIC, []string{"qq"}, quicConns},
		{"quic-conns-tcp", proxy.ModeTCP, []string{"qq"}, quicConns},
		{"quic-streams-tcp", proxy.ModeTCP, []string{"qq"}, quicStreams},
		{"quic-streams-tls", proxy.ModeTLS, []string{"qq"}, quicStreams},
		{"http1", proxy.ModeHTTP, nil, requests("h1")},
		{"http2", proxy.ModeHTTP, nil, requests("h2")},
		{"https2", proxy.ModeHTTPS, nil, requests("h2")},
		{"h3", proxy.ModeHTTP, nil, requests("h3")},
	}
	rounds := vh.N(1, 6)
	for round := 0; round < rounds; round++ {
		r := vh.Rand("P24rate", round)
		cfg := ve.Config(true)
		var flows []*flow
		var names []string
		for _, k := range ks {
			f := &flow{run: run, desc: k.desc, rate: []int{1, 5, 20, 50}[r.Intn(4)]}
			if round == 0 && f.rate == 1 {
				f.rate = 10
			}
			n := k.desc + ".v.test"
			be := &proxy.Backend{ServerNames: []string{n}, Mode: k.mode, ForwardRateLimit: f.rate, ForwardTimeout: 30 * time.Second}
			if k.alpn != nil {
				be.ALPNProtos = &k.alpn
			}
			secure := func() { be.ForwardRootCAs, be.ForwardServerName = []string{ve.CA.PEM}, "up.v.test" }
			echo := func(c net.Conn) {
				defer c.Close()
				f.hit()
				io.ReadFull(c, make([]byte, 1))
				c.Write([]byte("y"))
			}
			h := http.HandlerFunc(func(http.ResponseWriter, *http.Request) { f.hit() })
			stc := ve.ServerTLS(k.alpn, "up.v.test", n)
			for range 1 + r.Intn(2) {
				switch k.mode {
				case proxy.ModeTCP:
					be.Addresses = append(be.Addresses, vp.NewTCPServer(t, echo).Addr)
				case proxy.ModeTLS:
					secure()
					be.Addresses = append(be.Addresses, vp.NewTCPServer(t, vp.TLSServe(stc, func(c *tls.Conn) { echo(c) })).Addr)
				case proxy.ModeTLSPassthrough:
					be.Addresses = append(be.Addresses, vp.NewTCPServer(t, vp.TLSServe(stc, func(c *tls.Conn) { echo(c) })).Addr)
				case proxy.ModeQUIC:
					secure()
					be.Addresses = append(be.Addresses, vp.NewQUICServer(t, stc, func(c quic.Connection) {
						f.hit()
						for {
							s, err := c.AcceptStream(context.Background())
							if err != nil {
								return
							}
							s.Write([]byte("y"))
							s.Close()
						}
					}).Addr)
				case proxy.ModeHTTP:
					be.Addresses = append(be.Addresses, vp.NewHTTPServer(t, nil, h).Addr)
				case proxy.ModeHTTPS:
					secure()
					be.Addresses = append(be.Addresses, vp.NewHTTPServer(t, ve.ServerTLS([]string{"h2", "http/1.1"}, "up.v.test"), h).Addr)
				}
			}
			cfg.Backends = append(cfg.Backends, be)
			flows = append(flows, f)
			names = append(names, n)
		}
		cfg.Backends = append(cfg.Backends, &proxy.Backend{ServerNames: []string{"quiet.v.test"}, Mode: proxy.ModeTCP, ForwardRateLimit: 1000, Addresses: []string{vp.NewTCPServer(t, func(c net.Conn) {
			defer c.Close()
			io.ReadFull(c, make([]byte, 1))
			c.Write([]byte("y"))
		}).Addr}})
		for _, f := range flows {
			f.t0 = time.Now()
		}
		p := ve.Start(cfg)
		end := time.Now().Add(time.Duration(vh.N(4000, 8000)) * time.Millisecond)
		stop := func() bool { return time.Now().After(end) || run.NumViolations() > 6 }
		done := make(chan struct{})
		var wg sync.WaitGroup
		for i, k := range ks {
			for range 12 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					k.do(p, names[i], stop)
				}()
			}
		}
		go func() { wg.Wait(); close(done) }()
		// A backend that is not flooded isn't delayed.
		for !stop() {
			begin := time.Now()
			one(p, "quiet.v.test")
			if d := time.Since(begin); d > 40*time.Second {
				run.Violate("delayed", nil, "a connection to a quiet backend needed %v while others were flooded", d)
			}
			run.Count("quiet", 1)
			time.Sleep(50 * time.Millisecond)
		}
		ended := make(chan struct{})
		go func() { p.End(); close(ended) }()
		<-ended
		select {
		case <-done:
		case <-time.After(patience):
			run.Inconclusive("clients did not end")
		}
		for i, f := range flows {
			run.Eval(f.n.Load() >= int64(f.rate), ks[i].desc, f.rate)
			if f.n.Load() >= int64(f.rate) {
				run.Count("exhausted", 1)
			}
		}
	}
	for _, p := range vp.Log.TakePanics() {
		run.Violate("panic", p, "the proxy panicked: %s", vh.Trunc(p, 300))
	}
	run.NeedAtLeast("exhausted", 3)
}

// Package reconf changes the proxy's configuration while it serves clients.
package reconf

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/quic-go/quic-go"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// A generous bound on everything that must happen "promptly".
const promptly = 40 * time.Second

// ---------------------------------------------------------------- model

// spec is what one configuration says about one slot.
type spec struct {
	Present bool
	Mode    string
	Srv     int
	Auth    int // -1: no client certificate, 0: any valid certificate, n: only identity n-1
	Deny    int // the client address that is refused, or -1
}

// slot is one server name (and protocol) that clients connect to.
type slot struct {
	name    string
	proto   string
	kind    string // stream, quic, http, ws
	modes   []string
	sibling bool // another slot has the same name
}

var slots = []slot{
	{"pair.v.test", "pa", "stream", []string{proxy.ModeTCP, proxy.ModeTLS}, true},
	{"pair.v.test", "pb", "stream", []string{proxy.ModeTLS, proxy.ModeTCP}, true},
	{"both.v.test", "pc", "stream", []string{proxy.ModeTLSPassthrough}, true},
	{"both.v.test", "pd", "stream", []string{proxy.ModeTLSPassthrough}, true},
	{"s0.v.test", "", "stream", []string{proxy.ModeTCP, proxy.ModeTLS}, false},
	{"s1.v.test", "", "stream", []string{proxy.ModeTCP, proxy.ModeTLSPassthrough}, false},
	{"s2.v.test", "", "stream", []string{proxy.ModeTLSPassthrough}, false},
	{"s3.v.test", "", "stream", []string{proxy.ModeTLS}, false},
	{"q0.v.test", "qq", "quic", []string{proxy.ModeQUIC, proxy.ModeTCP}, false},
	{"q1.v.test", "qq", "quic", []string{proxy.ModeQUIC}, false},
	{"h0.v.test", "", "http", []string{proxy.ModeHTTP, proxy.ModeHTTPS}, false},
	{"h1.v.test", "", "http", []string{proxy.ModeHTTP}, false},
	{"h2.v.test", "", "http", []string{proxy.ModeHTTPS}, false},
	{"ws.v.test", "", "ws", []string{proxy.ModeLocal}, false},
}

const auxName = "aux.v.test"

// conf is one configuration.
type conf struct {
	n     int
	specs []spec
}

// client is what a client can show.
type client struct {
	IP    int
	Ident int // -1: no certificate
}

func (s spec) addrOK(c client) bool { return s.Present && s.Deny != c.IP }

func (s spec) certOK(ident int) bool {
	return s.Auth < 0 || ident >= 0 && (s.Auth == 0 || s.Auth-1 == ident)
}

// ---------------------------------------------------------------- world

type world struct {
	run  *vh.Run
	env  *vp.Env
	n    int
	p    *vp.P
	base *proxy.Config
	ca   *vp.CA
	ids  []tls.Certificate
	ips  []string

	tcp, tls, http, https, quic []string // upstream addresses, by server number

	mu      sync.Mutex
	confs   []*conf
	applied int // the last configuration that is completely in effect
	begun   int // the last configuration that could be in effect
	conns   map[*conn]bool
	stop    chan struct{}
}

const numSrv = 3

// conn is an established stream, from the client's point of view.
type conn struct {
	w      *world
	slot   int
	cl     client
	id     int64
	lo, hi int // the configurations that could have admitted it
	phase  string
	dead   atomic.Bool // the client saw it end
	ending atomic.Bool // the client is ending it
}

func (c *conn) String() string {
	return fmt.Sprintf("%s stream to %s %s from client %+v, admitted by a configuration in [%d,%d] (%s)", slots[c.slot].kind, slots[c.slot].name, slots[c.slot].proto, c.cl, c.lo, c.hi, c.phase)
}

func (w *world) now() (applied, begun int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.applied, w.begun
}

// specs returns what the configurations in [lo,hi] say about slot i.
func (w *world) specs(i, lo, hi int) []spec {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []spec
	for _, c := range w.confs[lo : hi+1] {
		out = append(out, c.specs[i])
	}
	return out
}

func (w *world) history(i, lo, hi int) string {
	var b strings.Builder
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, c := range w.confs[lo : hi+1] {
		fmt.Fprintf(&b, " %d:%+v;", c.n, c.specs[i])
	}
	return b.String()
}

// idents are the identities that the proxy could have seen on c.
func (c *conn) idents() []int {
	var with, without bool
	for _, s := range c.w.specs(c.slot, c.lo, c.hi) {
		if s.Auth >= 0 {
			with = true
		} else {
			without = true
		}
	}
	switch {
	case with && without:
		return []int{-1, c.cl.Ident}
	case with:
		return []int{c.cl.Ident}
	}
	return []int{-1}
}

// admits returns whether s allows c to continue: whether it may, and whether it
// may not.
func (c *conn) admits(s spec) (may, mayNot bool) {
	if !s.addrOK(c.cl) {
		return false, true
	}
	sl := slots[c.slot]
	if sl.sibling {
		// Without this slot's backend, the one with the same name could
		// be used.
		may, mayNot = true, false
	}
	modeMay, modeMayNot := false, false
	for _, o := range c.w.specs(c.slot, c.lo, c.hi) {
		if o.Mode == s.Mode || !o.Present {
			modeMay = true
		}
		if o.Mode != s.Mode || !o.Present {
			modeMayNot = true
		}
	}
	certMay, certMayNot := false, false
	for _, id := range c.idents() {
		if s.Mode == proxy.ModeTLSPassthrough || s.certOK(id) {
			certMay = true
		} else {
			certMayNot = true
		}
	}
	return modeMay && certMay, modeMayNot || certMayNot
}

func (w *world) fail(key, f string, a ...any) {
	w.run.Violate(key, map[string]any{"world": w.n, "seed": vh.Seed()}, f, a...)
}

// ---------------------------------------------------------------- upstreams

func serve(id int, c io.ReadWriter) {
	if _, err := fmt.Fprintf(c, "S%d\n", id); err != nil {
		return
	}
	io.Copy(struct{ io.Writer }{c}, struct{ io.Reader }{c})
}

func payload(seed uint64, from int, b []byte) {
	for i := range b {
		o := from + i
		x := (uint64(o/8) + seed) * 0x9E3779B97F4A7C15
		x ^= x >> 31
		b[i] = byte(x >> (uint(o%8) * 8))
	}
}

// handler answers GET /get?seed=&size=&ms= with size bytes over ms milliseconds,
// and POST /put with what it received.
func handler(id int) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		w.Header().Set("X-Srv", strconv.Itoa(id))
		q := req.URL.Query()
		if req.Method == "POST" {
			n, sum := 0, byte(0)
			b := make([]byte, 8192)
			for {
				m, err := req.Body.Read(b)
				for _, v := range b[:m] {
					sum = sum*31 + v
				}
				n += m
				if err == io.EOF {
					break
				}
				if err != nil {
					panic(http.ErrAbortHandler)
				}
			}
			fmt.Fprintf(w, "%d %d", n, sum)
			return
		}
		seed, _ := strconv.ParseUint(q.Get("seed"), 10, 64)
		size, _ := strconv.Atoi(q.Get("size"))
		ms, _ := strconv.Atoi(q.Get("ms"))
		const parts = 10
		for i := 0; i < parts; i++ {
			from, to := size*i/parts, size*(i+1)/parts
			b := make([]byte, to-from)
			payload(seed, from, b)
			if _, err := w.Write(b); err != nil {
				return
			}
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
			time.Sleep(time.Duration(ms/parts) * time.Millisecond)
		}
	})
}

func (w *world) startUpstreams(t testing.TB) {
	names := []string{"pair.v.test", "both.v.test", "up.v.test"}
	for _, s := range slots {
		names = append(names, s.name)
	}
	for i := 0; i < numSrv; i++ {
		plain := func(c net.Conn) {
			defer c.Close()
			serve(i, c)
			if cw, ok := c.(interface{ CloseWrite() error }); ok {
				cw.CloseWrite()
			}
			io.Copy(io.Discard, c)
		}
		w.tcp = append(w.tcp, vp.NewTCPServer(t, plain).Addr)
		w.tls = append(w.tls, vp.NewTCPServer(t, vp.TLSServe(w.env.ServerTLS([]string{"pa", "pb", "pc", "pd"}, names...), func(c *tls.Conn) {
			plain(c)
		})).Addr)
		w.http = append(w.http, vp.NewHTTPServer(t, nil, handler(i)).Addr)
		w.https = append(w.https, vp.NewHTTPServer(t, w.env.ServerTLS([]string{"h2", "http/1.1"}, names...), handler(i)).Addr)
		w.quic = append(w.quic, vp.NewQUICServer(t, w.env.ServerTLS([]string{"qq"}, names...), func(c quic.Connection) {
			for {
				s, err := c.AcceptStream(context.Background())
				if err != nil {
					return
				}
				go func() {
					serve(i, s)
					s.Close()
				}()
			}
		}).Addr)
	}
}

// ---------------------------------------------------------------- configurations

func (w *world) config(c *conf) *proxy.Config {
	cfg := *w.base
	cfg.Backends = nil
	cfg.WebSockets = nil
	for i, s := range c.specs {
		if !s.Present {
			continue
		}
		sl := slots[i]
		be := &proxy.Backend{
			ServerNames: []string{sl.name}, Mode: s.Mode, ForwardRateLimit: 100000, BWLimit: "Big",
			ForwardRootCAs: []string{w.env.CA.PEM}, ForwardServerName: "up.v.test",
			ForwardTimeout: 30 * time.Second,
		}
		if sl.proto != "" {
			be.ALPNProtos = &[]string{sl.proto}
		}
		switch s.Mode {
		case proxy.ModeTCP:
			be.Addresses = []string{w.tcp[s.Srv]}
			be.ForwardRootCAs, be.ForwardServerName = nil, ""
		case proxy.ModeTLS:
			be.Addresses = []string{w.tls[s.Srv]}
		case proxy.ModeTLSPassthrough:
			be.Addresses = []string{w.tls[s.Srv]}
			be.ForwardRootCAs, be.ForwardServerName = nil, ""
		case proxy.ModeQUIC:
			be.Addresses = []string{w.quic[s.Srv]}
		case proxy.ModeHTTP:
			be.Addresses = []string{w.http[s.Srv]}
			be.ForwardRootCAs, be.ForwardServerName = nil, ""
		case proxy.ModeHTTPS:
			be.Addresses = []string{w.https[s.Srv]}
		case proxy.ModeLocal:
			be.ForwardRootCAs, be.ForwardServerName = nil, ""
			cfg.WebSockets = append(cfg.WebSockets, &proxy.WebSocketConfig{Endpoint: "wss://" + sl.name + "/socket", Address: w.tcp[s.Srv]})
		}
		if s.Auth >= 0 {
			be.ClientAuth = &proxy.ClientAuth{RootCAs: []string{w.ca.PEM}}
			if s.Auth > 0 {
				be.ClientAuth.ACL = &[]string{fmt.Sprintf("EMAIL:id%d@v.test", s.Auth-1)}
			}
		}
		if s.Deny >= 0 {
			be.DenyIPs = &[]string{w.ips[s.Deny] + "/32"}
		}
		cfg.Backends = append(cfg.Backends, be)
	}
	cfg.Backends = append(cfg.Backends, &proxy.Backend{ServerNames: []string{auxName}, Mode: proxy.ModeLocal, ForwardRateLimit: 100000 + c.n})
	cfg.BWLimits = []*proxy.BWLimit{{Name: "Big", Ingress: 1e12, Egress: 1e12}}
	return &cfg
}

func randSpec(r *rand.Rand, i int) spec {
	sl := slots[i]
	s := spec{Present: sl.sibling || r.Intn(6) > 0, Mode: sl.modes[0], Srv: r.Intn(numSrv), Auth: -1, Deny: -1}
	if r.Intn(4) == 0 {
		s.Mode = sl.modes[r.Intn(len(sl.modes))]
	}
	if s.Mode != proxy.ModeTLSPassthrough && r.Intn(3) == 0 {
		s.Auth = r.Intn(3)
	}
	if r.Intn(5) == 0 {
		s.Deny = r.Intn(3)
	}
	return s
}

// next derives a configuration from the last one.
func (w *world) next(r *rand.Rand) *conf {
	w.mu.Lock()
	defer w.mu.Unlock()
	last := w.confs[len(w.confs)-1]
	c := &conf{n: len(w.confs), specs: append([]spec(nil), last.specs...)}
	for i := range c.specs {
		switch r.Intn(9) {
		case 0:
			c.specs[i] = randSpec(r, i)
		case 1:
			c.specs[i].Srv = r.Intn(numSrv)
		}
	}
	return c
}

// begin makes c one that can be in effect.
func (w *world) begin(c *conf) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.confs = append(w.confs, c)
	w.begun = c.n
}

func (w *world) finish(c *conf) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.applied = c.n
}

func (w *world) apply(c *conf) {
	w.begin(c)
	if err := w.p.Reconfigure(w.config(c)); err != nil {
		w.fail("refused-valid", "a valid configuration was refused: %v", err)
	}
	w.finish(c)
	w.run.Count("valid", 1)
}

// ---------------------------------------------------------------- stream clients

// gate is a client connection whose opening bytes are held at some point.
type gate struct {
	net.Conn
	phase  string
	cut    int
	hold   func()
	writes int
}

func (g *gate) Write(b []byte) (int, error) {
	g.writes++
	switch {
	case g.phase == "before-hello" && g.writes == 1, g.phase == "after-hello" && g.writes == 2:
		g.hold()
	case g.phase == "mid-hello" && g.writes == 1:
		n := 1 + g.cut%(len(b)-1)
		if _, err := g.Conn.Write(b[:n]); err != nil {
			return 0, err
		}
		g.hold()
		m, err := g.Conn.Write(b[n:])
		return n + m, err
	}
	return g.Conn.Write(b)
}

type closeWriter interface{ CloseWrite() error }

type quicStream struct {
	quic.Stream
	c     quic.Connection
	clean func()
}

func (s quicStream) CloseWrite() error { return s.Stream.Close() }
func (s quicStream) Close() error      { s.clean(); return nil }

type wsStream struct {
	*websocket.Conn
	buf []byte
}

func (s *wsStream) Read(b []byte) (int, error) {
	for len(s.buf) == 0 {
		_, m, err := s.Conn.ReadMessage()
		if err != nil {
			return 0, err
		}
		s.buf = m
	}
	n := copy(b, s.buf)
	s.buf = s.buf[n:]
	return n, nil
}

func (s *wsStream) Write(b []byte) (int, error) {
	return len(b), s.Conn.WriteMessage(websocket.BinaryMessage, b)
}

func (s *wsStream) SetDeadline(t time.Time) error {
	s.Conn.SetReadDeadline(t)
	return s.Conn.SetWriteDeadline(t)
}

type bidi interface {
	io.ReadWriteCloser
	SetDeadline(time.Time) error
}

// dial opens a stream. lo is the oldest configuration that could be used.
func (w *world) dial(r *rand.Rand, i int, cl client, phase string, wait func()) (c bidi, lo int, err error) {
	sl := slots[i]
	o := vp.ClientOpt{LocalIP: w.ips[cl.IP]}
	if cl.Ident >= 0 {
		o.Certs = []tls.Certificate{w.ids[cl.Ident]}
	}
	if sl.proto != "" {
		o.Protos = []string{sl.proto}
	}
	lo, _ = w.now()
	switch sl.kind {
	case "quic":
		qc, clean, err := w.p.DialQUIC(sl.name, o)
		if err != nil {
			return nil, lo, err
		}
		s, err := qc.OpenStreamSync(context.Background())
		if err != nil {
			clean()
			return nil, lo, err
		}
		return quicStream{s, qc, clean}, lo, nil
	case "ws":
		d := &websocket.Dialer{HandshakeTimeout: promptly, NetDialTLSContext: func(context.Context, string, string) (net.Conn, error) { return w.p.Dial(sl.name, o) }}
		wc, _, err := d.Dial("wss://"+sl.name+"/socket", nil)
		if err != nil {
			return nil, lo, err
		}
		return &wsStream{Conn: wc}, lo, nil
	}
	tc, err := w.p.TCP(o.LocalIP)
	if err != nil {
		return nil, lo, err
	}
	g := &gate{Conn: tc, phase: phase, cut: r.Intn(1 << 20), hold: func() {
		wait()
		if phase != "after-hello" {
			lo, _ = w.now()
		}
	}}
	cfg := w.p.TLSConfig(sl.name, o)
	c2 := tls.Client(g, cfg)
	c2.SetDeadline(time.Now().Add(promptly))
	if err := c2.Handshake(); err != nil {
		tc.Close()
		return nil, lo, err
	}
	return c2, lo, nil
}

// stuck tells timeouts from connections that were closed.
func stuck(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout() || errors.Is(err, os.ErrDeadlineExceeded)
}

// session runs one stream from beginning to end.
func (w *world) session(r *rand.Rand, i int) {
	sl := slots[i]
	cl := client{IP: r.Intn(3), Ident: r.Intn(3) - 1}
	phase := "none"
	if sl.kind == "stream" && r.Intn(3) == 0 {
		phase = []string{"before-hello", "mid-hello", "after-hello"}[r.Intn(3)]
	}
	wait := func() {
		// Wait for a configuration change, or not.
		a, _ := w.now()
		d := time.Duration(200+r.Intn(2500)) * time.Millisecond
		vh.Eventually(d, func() bool { b, _ := w.now(); return b > a+1 })
		if b, _ := w.now(); b > a {
			w.run.Count("held_over_change", 1)
		}
	}
	c, lo, err := w.dial(r, i, cl, phase, wait)
	var id int
	if err == nil {
		defer c.Close()
		c.SetDeadline(time.Now().Add(promptly))
		_, err = c.Write([]byte{'x'})
		greet := make([]byte, 4)
		if err == nil {
			if _, err = io.ReadFull(c, greet); err == nil {
				if greet[0] != 'S' || greet[2] != '\n' || greet[3] != 'x' {
					w.fail("corrupt", "%s: the first bytes of the server are %q", sl.name, greet)
					return
				}
				id = int(greet[1] - '0')
			}
		}
	}
	_, hi := w.now()
	cn := &conn{w: w, slot: i, cl: cl, lo: lo, hi: hi, phase: phase}
	specs := w.specs(i, lo, hi)
	if err != nil {
		if stuck(err) {
			w.fail("new-stuck", "%v was neither answered nor closed: %v; history:%s", cn, err, w.history(i, lo, hi))
			return
		}
		// It can be refused when any of the configurations refuses it, or
		// when the mode changes.
		may := false
		for _, s := range specs {
			if !s.addrOK(cl) || s.Mode != specs[0].Mode || s.Auth >= 0 != (specs[0].Auth >= 0) ||
				s.Mode != proxy.ModeTLSPassthrough && !s.certOK(cl.Ident) {
				may = true
			}
		}
		if (sl.kind == "ws" || sl.kind == "quic") && hi > lo {
			may = true
		}
		if !may {
			w.fail("refused", "%v was refused: %v; history:%s", cn, err, w.history(i, lo, hi))
		}
		w.run.Count("refused", 1)
		w.run.Eval(true, "refused", i, len(specs) > 1, cl, specs[0])
		time.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
		return
	}
	// It must have been served by the old or the new configuration.
	ok := false
	for _, s := range specs {
		if s.addrOK(cl) && s.Srv == id && (s.Mode == proxy.ModeTLSPassthrough || s.certOK(cl.Ident)) {
			ok = true
		}
	}
	if !ok {
		w.fail("wrong-config", "%v was served by server %d, which none of the configurations in effect allows:%s", cn, id, w.history(i, lo, hi))
	}
	w.run.Count("streams", 1)
	w.run.Eval(len(specs) > 1 || specs[0].Auth >= 0, "stream", i, phase, len(specs) > 1, cl, specs[0])

	w.mu.Lock()
	w.conns[cn] = true
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		delete(w.conns, cn)
		w.mu.Unlock()
	}()
	err = w.traffic(r, c, cn)
	cn.dead.Store(true)
	if err == nil {
		w.run.Count("ended", 1)
		return
	}
	_, end := w.now()
	if strings.HasPrefix(err.Error(), "corrupt") {
		w.fail("corrupt", "%v: %v", cn, err)
		return
	}
	if stuck(err) {
		w.fail("stream-stuck", "%v: the echo stopped without an end: %v; history:%s", cn, err, w.history(i, lo, end))
		return
	}
	for _, s := range w.specs(i, lo, end) {
		if _, mayNot := cn.admits(s); mayNot {
			w.run.Count("closed_by_change", 1)
			w.run.Eval(true, "closed", i, phase, cl, s)
			return
		}
	}
	w.fail("disturbed", "%v was closed (%v) although every configuration since allows it:%s", cn, err, w.history(i, lo, end))
}

// traffic exchanges data until the stream ends or is ended.
func (w *world) traffic(r *rand.Rand, c bidi, cn *conn) error {
	deadline := time.Now().Add(time.Duration(50+r.Intn(6000)) * time.Millisecond)
	if r.Intn(4) == 0 {
		deadline = time.Now().Add(time.Hour)
	}
	seed := r.Uint64()
	pos := 0
	exchange := func(last bool) error {
		n := 1 + r.Intn(3000)
		if r.Intn(8) == 0 {
			n = 1 + r.Intn(90000)
		}
		b := make([]byte, n)
		payload(seed, pos, b)
		c.SetDeadline(time.Now().Add(promptly))
		werr := make(chan error, 1)
		go func() {
			_, err := c.Write(b)
			if err == nil && last {
				if cw, ok := c.(closeWriter); ok {
					err = cw.CloseWrite()
				}
			}
			werr <- err
		}()
		got := make([]byte, n)
		_, err := io.ReadFull(c, got)
		if e := <-werr; e != nil && err == nil {
			err = e
		}
		if err != nil {
			return err
		}
		if !bytes.Equal(got, b) {
			return fmt.Errorf("corrupt: echo differs in [%d,%d)", pos, pos+n)
		}
		pos += n
		w.run.Count("bytes", n)
		return nil
	}
	for time.Now().Before(deadline) {
		select {
		case <-w.stop:
			deadline = time.Time{}
		default:
		}
		if err := exchange(false); err != nil {
			return err
		}
		time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
	}
	if slots[cn.slot].kind == "ws" {
		return nil
	}
	if err := exchange(true); err != nil {
		return err
	}
	n, err := io.Copy(io.Discard, c)
	if n != 0 {
		return fmt.Errorf("corrupt: %d more bytes than were sent", n)
	}
	return err
}

// settle waits until the streams that the last configuration doesn't allow are
// closed.
func (w *world) settle() {
	a, _ := w.now()
	var left []*conn
	ok := vh.Eventually(promptly, func() bool {
		left = nil
		w.mu.Lock()
		var all []*conn
		for c := range w.conns {
			all = append(all, c)
		}
		w.mu.Unlock()
		for _, c := range all {
			if may, _ := c.admits(w.specs(c.slot, a, a)[0]); !may && !c.dead.Load() && !slots[c.slot].sibling {
				left = append(left, c)
			}
		}
		return len(left) == 0
	})
	if !ok {
		for _, c := range left {
			w.fail("not-closed", "%v is still open, although it is not allowed anymore:%s", c, w.history(c.slot, c.lo, a))
		}
	}
	w.run.Count("settled", 1)
}

// ---------------------------------------------------------------- HTTP clients

func (w *world) httpClient(kind string, cl client) (*http.Client, func()) {
	o := vp.ClientOpt{LocalIP: w.ips[cl.IP]}
	if cl.Ident >= 0 {
		o.Certs = []tls.Certificate{w.ids[cl.Ident]}
	}
	switch kind {
	case "h2":
		o.Protos = []string{"h2"}
	case "h3":
		return w.p.H3Client(o)
	}
	c := w.p.HTTPClient(o)
	return c, c.CloseIdleConnections
}

type slowBody struct {
	r    *rand.Rand
	seed uint64
	pos  int
	size int
	ms   int
}

func (b *slowBody) Read(p []byte) (int, error) {
	if b.pos >= b.size {
		return 0, io.EOF
	}
	time.Sleep(time.Duration(b.ms/10) * time.Millisecond)
	n := min(len(p), max(1, b.size/10), b.size-b.pos)
	payload(b.seed, b.pos, p[:n])
	b.pos += n
	return n, nil
}

// request makes one request. It returns the number of the server, whether the
// response had begun, and how it ended.
func (w *world) request(r *rand.Rand, c *http.Client, i int) (id int, begun bool, err error) {
	u := "https://" + slots[i].name + "/"
	seed, size, ms := r.Uint64(), r.Intn(300000), r.Intn(1200)
	if r.Intn(4) == 0 {
		sum := byte(0)
		all := make([]byte, size)
		payload(seed, 0, all)
		for _, v := range all {
			sum = sum*31 + v
		}
		req, _ := http.NewRequest("POST", u+"put", &slowBody{r: r, seed: seed, size: size, ms: ms})
		resp, err := c.Do(req)
		if err != nil {
			return 0, false, err
		}
		defer resp.Body.Close()
		id, _ = strconv.Atoi(resp.Header.Get("X-Srv"))
		b, err := io.ReadAll(resp.Body)
		if err != nil {
			return id, true, err
		}
		if resp.StatusCode == 200 && string(b) != fmt.Sprintf("%d %d", size, sum) {
			return id, true, fmt.Errorf("corrupt: the server got %q, want %d bytes with sum %d", b, size, sum)
		}
		if resp.StatusCode != 200 {
			return id, false, fmt.Errorf("status %d %q", resp.StatusCode, b)
		}
		return id, true, nil
	}
	resp, err := c.Get(fmt.Sprintf("%sget?seed=%d&size=%d&ms=%d", u, seed, size, ms))
	if err != nil {
		return 0, false, err
	}
	defer resp.Body.Close()
	if resp.StatusCode != 200 {
		b, _ := io.ReadAll(resp.Body)
		return 0, false, fmt.Errorf("status %d %q", resp.StatusCode, b)
	}
	id, _ = strconv.Atoi(resp.Header.Get("X-Srv"))
	b, err := io.ReadAll(resp.Body)
	want := make([]byte, size)
	payload(seed, 0, want)
	if !bytes.HasPrefix(want, b) {
		return id, true, fmt.Errorf("corrupt: the response body differs")
	}
	if err == nil && len(b) != size {
		return id, true, fmt.Errorf("corrupt: the response ended cleanly after %d bytes of %d", len(b), size)
	}
	w.run.Count("http_bytes", len(b))
	return id, true, err
}

func (w *world) refusable(i int, cl client, lo, hi int) bool {
	specs := w.specs(i, lo, hi)
	for _, s := range specs {
		if !s.addrOK(cl) || s.Mode != specs[0].Mode || s.Auth >= 0 != (specs[0].Auth >= 0) || !s.certOK(cl.Ident) {
			return true
		}
	}
	return false
}

func (w *world) httpWorker(r *rand.Rand, i int, kind string) {
	cl := client{IP: r.Intn(3), Ident: r.Intn(3) - 1}
	c, clean := w.httpClient(kind, cl)
	connLo, _ := w.now() // the oldest configuration a connection of c can have
	for {
		select {
		case <-w.stop:
			w.fresh(r, i, kind, cl, c)
			clean()
			return
		default:
		}
		if r.Intn(3) == 0 {
			clean()
			cl = client{IP: r.Intn(3), Ident: r.Intn(3) - 1}
			connLo, _ = w.now()
			c, clean = w.httpClient(kind, cl)
		}
		lo, _ := w.now()
		id, begun, err := w.request(r, c, i)
		_, hi := w.now()
		w.run.Count("requests", 1)
		desc := fmt.Sprintf("%s request to %s from client %+v, connection of [%d..], in [%d,%d]", kind, slots[i].name, cl, connLo, lo, hi)
		switch {
		case err == nil:
			ok := false
			for _, s := range w.specs(i, connLo, hi) {
				if s.addrOK(cl) && s.Srv == id && s.certOK(cl.Ident) {
					ok = true
				}
			}
			if !ok {
				w.fail("wrong-config", "%s was answered by server %d, which none of the configurations allows:%s", desc, id, w.history(i, connLo, hi))
			}
			if hi > lo {
				w.run.Count("requests_over_change", 1)
			}
			w.run.Eval(hi > lo, "request", i, kind, cl, hi > lo)
		case strings.HasPrefix(err.Error(), "corrupt"):
			w.fail("corrupt", "%s: %v", desc, err)
		case stuck(err):
			w.fail("request-stuck", "%s was neither answered nor refused: %v; history:%s", desc, err, w.history(i, connLo, hi))
		case begun:
			if !w.refusable(i, cl, connLo, hi) {
				w.fail("response-cut", "%s: the response was cut (%v) although every configuration since allows it:%s", desc, err, w.history(i, connLo, hi))
			}
		default:
			// Connections that are being closed can refuse new requests.
			clean()
			connLo, _ = w.now()
			c, clean = w.httpClient(kind, cl)
			if r.Intn(2) == 0 {
				w.fresh(r, i, kind, cl, nil)
			}
		}
		time.Sleep(time.Duration(r.Intn(100)) * time.Millisecond)
	}
}

// fresh makes a request with a new client when c is nil, and checks the answer.
func (w *world) fresh(r *rand.Rand, i int, kind string, cl client, c *http.Client) {
	if c == nil {
		lo, _ := w.now()
		c, clean := w.httpClient(kind, cl)
		id, _, err := w.request(r, c, i)
		clean()
		_, hi := w.now()
		if lo != hi {
			return
		}
		s := w.specs(i, lo, hi)
		if len(s) != 1 {
			return
		}
		if want := s[0].addrOK(cl) && s[0].certOK(cl.Ident); want != (err == nil) || want && s[0].Srv != id {
			w.fail("fresh-request", "a %s request to %s from client %+v got server %d, %v; configuration:%s", kind, slots[i].name, cl, id, err, w.history(i, lo, hi))
		}
		w.run.Count("fresh_requests", 1)
		return
	}
	// With an existing client, the new configuration must be used promptly.
	a, _ := w.now()
	s := w.specs(i, a, a)[0]
	want := s.addrOK(cl) && s.certOK(cl.Ident)
	var id int
	var err error
	if !vh.Eventually(promptly, func() bool {
		if b, _ := w.now(); b != a {
			return true
		}
		id, _, err = w.request(r, c, i)
		return want == (err == nil) && (!want || id == s.Srv)
	}) {
		w.fail("stale", "long after the last configuration change, %s requests to %s from client %+v over its existing connections still get server %d, %v; configuration:%s", kind, slots[i].name, cl, id, err, w.history(i, max(0, a-3), a))
	}
	w.run.Count("final_requests", 1)
}

// ---------------------------------------------------------------- configuration changes

// badConfig changes cfg so that it must be refused.
func (w *world) badConfig(r *rand.Rand, cfg *proxy.Config, disc *discovery) string {
	// If this was applied, no transfer would ever end.
	cfg.BWLimits = []*proxy.BWLimit{{Name: "Big", Ingress: 1, Egress: 1}}
	last := cfg.Backends[len(cfg.Backends)-1]
	kinds := []string{"duplicate-name", "bwlimit", "mode", "cidr", "sso", "root-ca", "forward-root-ca", "discovery", "passkey", "saml"}
	kind := kinds[r.Intn(len(kinds))]
	switch kind {
	case "duplicate-name":
		cfg.Backends = append(cfg.Backends, &proxy.Backend{ServerNames: []string{auxName}, Mode: proxy.ModeLocal})
	case "bwlimit":
		last.BWLimit = "other"
	case "mode":
		last.Mode = "NOPE"
	case "cidr":
		last.DenyIPs = &[]string{"127.0.0.1/33"}
	case "sso":
		last.SSO = &proxy.BackendSSO{Provider: "missing"}
	case "root-ca":
		last.ClientAuth = &proxy.ClientAuth{RootCAs: []string{"/nonexistent/ca.pem"}}
	case "forward-root-ca":
		last.ForwardRootCAs = []string{"/nonexistent/ca.pem"}
	case "discovery":
		cfg.OIDCProviders = append(cfg.OIDCProviders, disc.provider())
		disc.fail.Store(true)
	case "passkey":
		cfg.PasskeyProviders = append(cfg.PasskeyProviders, &proxy.ConfigPasskey{Name: "pk", IdentityProvider: "missing", Endpoint: "https://" + auxName + "/pk"})
	case "saml":
		cfg.SAMLProviders = append(cfg.SAMLProviders, &proxy.ConfigSAML{Name: "saml", SSOURL: "https://idp.v.test/", EntityID: "x", Certs: "not a certificate", ACSURL: "https://" + auxName + "/acs"})
	}
	return kind
}

// discovery is an identity provider whose discovery document can be slow, or
// missing.
type discovery struct {
	addr  string
	fail  atomic.Bool
	mu    sync.Mutex
	hold  chan struct{}
	calls atomic.Int32
}

func newDiscovery(t testing.TB) *discovery {
	d := &discovery{}
	s := vp.NewHTTPServer(t, nil, http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		d.calls.Add(1)
		d.mu.Lock()
		h := d.hold
		d.mu.Unlock()
		if h != nil {
			<-h
		}
		if d.fail.Load() {
			http.Error(w, "no", 500)
			return
		}
		fmt.Fprintf(w, `{"authorization_endpoint":"https://idp.v.test/a","token_endpoint":"https://idp.v.test/t","userinfo_endpoint":"https://idp.v.test/u","code_challenge_methods_supported":["S256"],"scopes_supported":["openid","email"]}`)
	}))
	d.addr = s.Addr
	return d
}

func (d *discovery) provider() *proxy.ConfigOIDC {
	return &proxy.ConfigOIDC{Name: "slow", DiscoveryURL: "http://" + d.addr + "/.well-known/openid-configuration", RedirectURL: "https://" + auxName + "/cb", ClientID: "x", ClientSecret: "y"}
}

// probe makes one new connection of each kind. With the current configuration
// in effect, all of them have to be answered.
func (w *world) probe(r *rand.Rand, what string) {
	var wg sync.WaitGroup
	for i := range slots {
		i, r := i, rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			if slots[i].kind == "http" {
				w.fresh(r, i, []string{"h1", "h2", "h3"}[r.Intn(3)], client{IP: r.Intn(3), Ident: r.Intn(3) - 1}, nil)
				return
			}
			cl := client{IP: r.Intn(3), Ident: r.Intn(3) - 1}
			c, lo, err := w.dial(r, i, cl, "none", nil)
			if err == nil {
				c.SetDeadline(time.Now().Add(promptly))
				b := make([]byte, 4)
				if _, err = c.Write([]byte{'x'}); err == nil {
					_, err = io.ReadFull(c, b)
				}
				c.Close()
			}
			_, hi := w.now()
			s := w.specs(i, lo, hi)
			if len(s) != 1 {
				return
			}
			want := s[0].addrOK(cl) && (s[0].Mode == proxy.ModeTLSPassthrough || s[0].certOK(cl.Ident))
			if want != (err == nil) {
				w.fail("probe:"+what, "%s: a new connection to %s %s from client %+v got %v; configuration:%s", what, slots[i].name, slots[i].proto, cl, err, w.history(i, lo, hi))
			}
			w.run.Count("probes", 1)
		}()
	}
	wg.Wait()
}

func (w *world) controller(r *rand.Rand, disc *discovery, steps int) {
	for k := 0; k < steps; k++ {
		switch x := r.Intn(20); {
		case x < 9:
			w.apply(w.next(r))
		case x < 12:
			for j := 0; j < 2+r.Intn(4); j++ {
				w.apply(w.next(r))
				time.Sleep(time.Duration(r.Intn(15)) * time.Millisecond)
			}
		case x < 16:
			// An invalid configuration has no effect.
			cfg := w.config(w.next(r))
			kind := w.badConfig(r, cfg, disc)
			err := w.p.Reconfigure(cfg)
			disc.fail.Store(false)
			if err == nil {
				w.fail("accepted-invalid", "an invalid configuration (%s) was accepted", kind)
			}
			w.run.Count("invalid", 1)
			w.run.Eval(true, "invalid", kind)
			if r.Intn(3) == 0 {
				w.probe(r, "after an invalid configuration ("+kind+")")
			}
		default:
			// While the discovery document is fetched, nothing may be
			// affected.
			c := w.next(r)
			bad := r.Intn(2) == 0
			cfg := w.config(c)
			cfg.OIDCProviders = append(cfg.OIDCProviders, disc.provider())
			h := make(chan struct{})
			disc.mu.Lock()
			disc.hold = h
			disc.mu.Unlock()
			disc.fail.Store(bad)
			n := disc.calls.Load()
			done := make(chan error, 1)
			go func() { done <- w.p.Reconfigure(cfg) }()
			if vh.Eventually(promptly, func() bool { return disc.calls.Load() > n }) {
				w.probe(r, "during a slow configuration change")
				w.run.Count("slow_changes", 1)
			}
			if !bad {
				w.begin(c)
			}
			disc.mu.Lock()
			disc.hold = nil
			disc.mu.Unlock()
			close(h)
			if err := <-done; (err != nil) != bad {
				w.fail("discovery", "Reconfigure with a discovery document (bad=%v) returned %v", bad, err)
			}
			disc.fail.Store(false)
			if !bad {
				w.finish(c)
			}
		}
		if r.Intn(2) == 0 {
			w.settle()
		}
		time.Sleep(time.Duration(r.Intn(700)) * time.Millisecond)
	}
}

func (w *world) start(t testing.TB, disc *discovery) {
	w.startUpstreams(t)
	w.base = w.env.Config(true)
	c := &conf{n: 0}
	r := vh.Rand("P22/first", w.n)
	for i := range slots {
		c.specs = append(c.specs, randSpec(r, i))
	}
	w.confs = []*conf{c}
	w.p = w.env.Start(w.config(c))
}

func TestP22(t *testing.T) {
	run := vh.New(t, "a case is a stream, a request or a refusal during configuration changes, or an invalid configuration; distinct by kind, phase, client and configuration of the slot")
	env := vp.NewEnv(t)
	ca := vp.NewCA("clients")
	var ids []tls.Certificate
	for i := 0; i < 2; i++ {
		ids = append(ids, ca.Issue(vp.CN(fmt.Sprintf("id%d", i)), vp.Email(fmt.Sprintf("id%d@v.test", i))))
	}
	worlds, steps := vh.N(4, 12), vh.N(24, 80)
	vh.Parallel(4, worlds, func(n int) {
		w := &world{run: run, env: env, n: n, ca: ca, ids: ids, conns: map[*conn]bool{}, stop: make(chan struct{})}
		for i := 0; i < 3; i++ {
			w.ips = append(w.ips, vp.IP())
		}
		disc := newDiscovery(t)
		w.start(t, disc)
		defer w.p.End()
		var wg sync.WaitGroup
		for i := range slots {
			for k := 0; k < 3; k++ {
				i, k := i, k
				r := vh.Rand(fmt.Sprintf("P22/%d/%d", n, i), k)
				wg.Add(1)
				go func() {
					defer wg.Done()
					if slots[i].kind == "http" {
						w.httpWorker(r, i, []string{"h1", "h2", "h3"}[k])
						return
					}
					for {
						select {
						case <-w.stop:
							return
						default:
						}
						w.session(r, i)
						time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
					}
				}()
			}
		}
		w.controller(vh.Rand("P22/controller", n), disc, steps)
		w.settle()
		close(w.stop)
		wg.Wait()
		w.probe(vh.Rand("P22/last", n), "at the end")
	})
	for _, p := range vp.Log.TakePanics() {
		run.Violate("panic", p, "the proxy panicked: %s", vh.Trunc(p, 300))
	}
	// The servers of the previous and of the refused configurations are gone.
	var left []string
	if !vh.Eventually(promptly, func() bool {
		left = vh.Stacks("tlsproxy/proxy.serveHTTP")
		return len(left) == 0
	}) {
		run.Violate("leaked-servers", left[0], "%d HTTP servers of previous or refused configurations are still running after the proxies stopped", len(left))
	}
	run.NeedAtLeast("streams", 100)
	run.NeedAtLeast("closed_by_change", 5)
	run.NeedAtLeast("requests_over_change", 5)
	run.NeedAtLeast("invalid", 2)
}

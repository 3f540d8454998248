// Package opens monitors the connections that the proxy keeps open.
package opens

import (
	"bufio"
	"context"
	"crypto/tls"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/quic-go/quic-go"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// A generous bound on what must happen promptly.
const promptly = 40 * time.Second

// ---------------------------------------------------------------- upstreams

// ups are the servers behind the proxy. Streams get one byte, and then an echo.
type ups struct {
	tcp, tls, http, https, quic, mute string
	down                              string
	stop                              chan struct{}
	begun                             atomic.Int64 // HTTP requests that reached a server
	all                               []string
}

// handler answers GET /hold with one byte, and waits for the client to leave;
// GET /slow?ms=&size= with size bytes over ms milliseconds; POST /slow with the
// number of bytes received.
func (u *ups) handler() http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		u.begun.Add(1)
		rc := http.NewResponseController(w)
		ms, _ := strconv.Atoi(req.URL.Query().Get("ms"))
		size, _ := strconv.Atoi(req.URL.Query().Get("size"))
		switch {
		case req.URL.Path == "/hold":
			w.Write([]byte("S"))
			rc.Flush()
			select {
			case <-req.Context().Done():
			case <-u.stop:
			}
		case req.Method == "POST":
			n, _ := io.Copy(io.Discard, req.Body)
			fmt.Fprintf(w, "%d", n)
		default:
			const parts = 20
			for i := range parts {
				w.Write([]byte(strings.Repeat(string(rune('a'+i)), size/parts)))
				rc.Flush()
				time.Sleep(time.Duration(ms/parts) * time.Millisecond)
			}
		}
	})
}

func slowBody(size int) string {
	var b strings.Builder
	for i := range 20 {
		b.WriteString(strings.Repeat(string(rune('a'+i)), size/20))
	}
	return b.String()
}

func newUps(t testing.TB, e *vp.Env) *ups {
	u := &ups{stop: make(chan struct{})}
	echo := func(c net.Conn) {
		defer c.Close()
		c.Write([]byte("S"))
		io.Copy(c, c)
	}
	u.tcp = vp.NewTCPServer(t, echo).Addr
	u.tls = vp.NewTCPServer(t, vp.TLSServe(e.ServerTLS(nil, "up.v.test", "pass.v.test"), func(c *tls.Conn) { echo(c) })).Addr
	u.mute = vp.NewTCPServer(t, func(c net.Conn) { io.Copy(io.Discard, c) }).Addr
	u.http = vp.NewHTTPServer(t, nil, u.handler()).Addr
	u.https = vp.NewHTTPServer(t, e.ServerTLS([]string{"h2", "http/1.1"}, "up.v.test"), u.handler()).Addr
	u.quic = vp.NewQUICServer(t, e.ServerTLS([]string{"qq"}, "up.v.test"), func(c quic.Connection) {
		for {
			s, err := c.AcceptStream(context.Background())
			if err != nil {
				return
			}
			go func() {
				s.Write([]byte("S"))
				io.Copy(s, s)
				s.Close()
			}()
		}
	}).Addr
	l, err := net.Listen("tcp", vp.IP()+":7009")
	if err != nil {
		t.Fatal(err)
	}
	u.down = l.Addr().String()
	l.Close()
	u.all = []string{u.tcp, u.tls, u.mute, u.http, u.https}
	t.Cleanup(func() { close(u.stop) })
	return u
}

func config(e *vp.Env, u *ups, denied string) *proxy.Config {
	ca := []string{e.CA.PEM}
	up := "up.v.test"
	qq := &[]string{"qq"}
	cfg := e.Config(true,
		&proxy.Backend{ServerNames: []string{"tcp.v.test"}, Mode: proxy.ModeTCP, Addresses: []string{u.tcp}, DenyIPs: &[]string{denied + "/32"}},
		&proxy.Backend{ServerNames: []string{"tls.v.test"}, Mode: proxy.ModeTLS, Addresses: []string{u.tls}, ForwardServerName: up, ForwardRootCAs: ca},
		&proxy.Backend{ServerNames: []string{"pass.v.test"}, Mode: proxy.ModeTLSPassthrough, Addresses: []string{u.tls}, DenyIPs: &[]string{denied + "/32"}},
		&proxy.Backend{ServerNames: []string{"http.v.test"}, Mode: proxy.ModeHTTP, Addresses: []string{u.http}},
		&proxy.Backend{ServerNames: []string{"https.v.test"}, Mode: proxy.ModeHTTPS, Addresses: []string{u.https}, ForwardServerName: up, ForwardRootCAs: ca},
		&proxy.Backend{ServerNames: []string{"quic.v.test"}, Mode: proxy.ModeQUIC, ALPNProtos: qq, Addresses: []string{u.quic}, ForwardServerName: up, ForwardRootCAs: ca},
		&proxy.Backend{ServerNames: []string{"qtcp.v.test"}, Mode: proxy.ModeTCP, ALPNProtos: qq, Addresses: []string{u.tcp}},
		&proxy.Backend{ServerNames: []string{"local.v.test"}, Mode: proxy.ModeLocal},
		&proxy.Backend{ServerNames: []string{"down.v.test"}, Mode: proxy.ModeTCP, Addresses: []string{u.down}},
		&proxy.Backend{ServerNames: []string{"mute.v.test"}, Mode: proxy.ModeTLS, Addresses: []string{u.mute}, ForwardServerName: up, ForwardRootCAs: ca, ForwardTimeout: 30 * time.Second},
		&proxy.Backend{ServerNames: []string{"mutehttp.v.test"}, Mode: proxy.ModeHTTP, Addresses: []string{u.mute}, ForwardTimeout: 60 * time.Second},
		&proxy.Backend{ServerNames: []string{"auth.v.test"}, Mode: proxy.ModeTCP, Addresses: []string{u.tcp}, ClientAuth: &proxy.ClientAuth{RootCAs: ca, ACL: &[]string{"EMAIL:nobody@v.test"}}},
		&proxy.Backend{ServerNames: []string{"rate.v.test"}, Mode: proxy.ModeTCP, Addresses: []string{u.tcp}, ForwardRateLimit: 1},
		&proxy.Backend{ServerNames: []string{"bw.v.test"}, Mode: proxy.ModeTCP, Addresses: []string{u.tcp}, BWLimit: "slow"},
	)
	cfg.BWLimits = []*proxy.BWLimit{{Name: "slow", Ingress: 2000, Egress: 2000}}
	cfg.WebSockets = []*proxy.WebSocketConfig{{Endpoint: "wss://local.v.test/ws", Address: u.tcp}}
	return cfg
}

// ---------------------------------------------------------------- clients

// closeIdle closes the connections of a client that was used.
func closeIdle(c *http.Client) {
	c.CloseIdleConnections()
	go func() {
		for range 60 {
			time.Sleep(100 * time.Millisecond)
			c.CloseIdleConnections()
		}
	}()
}

// held is an established connection: data came through it.
type held struct {
	kind  string
	born  time.Time
	close func(r *rand.Rand)
	alive func() error
	wait  func(d time.Duration) bool // whether it ends within d
}

var heldKinds = []string{"tcp", "tls", "pass", "h1", "h2", "h3", "quic", "qtcp", "ws"}

// establish opens a connection and waits for a byte from the server.
func establish(p *vp.P, kind string) (*held, error) {
	fresh := func(c net.Conn) (*held, error) {
		c.SetDeadline(time.Now().Add(promptly))
		b := make([]byte, 1)
		if _, err := io.ReadFull(c, b); err != nil {
			c.Close()
			return nil, err
		}
		c.SetDeadline(time.Time{})
		return &held{kind: kind, born: time.Now(),
			close: func(r *rand.Rand) {
				switch r.Intn(4) {
				case 0:
					if t, ok := c.(*tls.Conn); ok {
						t.NetConn().(*net.TCPConn).SetLinger(0)
						t.NetConn().Close()
					}
				case 1:
					if t, ok := c.(*tls.Conn); ok {
						t.CloseWrite()
						io.Copy(io.Discard, c)
					}
				}
				c.Close()
			},
			alive: func() error {
				c.SetDeadline(time.Now().Add(promptly))
				defer c.SetDeadline(time.Time{})
				if _, err := c.Write([]byte("x")); err != nil {
					return err
				}
				_, err := io.ReadFull(c, b)
				return err
			},
			wait: func(d time.Duration) bool {
				c.SetReadDeadline(time.Now().Add(d))
				_, err := io.Copy(io.Discard, c)
				var ne net.Error
				return !(errors.As(err, &ne) && ne.Timeout())
			},
		}, nil
	}
	switch kind {
	case "tcp", "tls", "pass":
		c, err := p.Dial(kind+".v.test", vp.ClientOpt{})
		if err != nil {
			return nil, err
		}
		return fresh(c)
	case "ws":
		d := &websocket.Dialer{HandshakeTimeout: promptly, NetDialTLSContext: func(context.Context, string, string) (net.Conn, error) {
			return p.Dial("local.v.test", vp.ClientOpt{})
		}}
		c, _, err := d.Dial("wss://local.v.test/ws", nil)
		if err != nil {
			return nil, err
		}
		c.SetReadDeadline(time.Now().Add(promptly))
		if _, _, err := c.ReadMessage(); err != nil {
			c.Close()
			return nil, err
		}
		return &held{kind: kind, born: time.Now(),
			close: func(r *rand.Rand) {
				if r.Intn(2) == 0 {
					c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(promptly))
				}
				c.Close()
			},
			alive: func() error {
				c.SetReadDeadline(time.Now().Add(promptly))
				if err := c.WriteMessage(websocket.BinaryMessage, []byte("x")); err != nil {
					return err
				}
				_, _, err := c.ReadMessage()
				return err
			},
			wait: func(d time.Duration) bool {
				c.SetReadDeadline(time.Now().Add(d))
				for {
					if _, _, err := c.ReadMessage(); err != nil {
						var ne net.Error
						return !(errors.As(err, &ne) && ne.Timeout())
					}
				}
			},
		}, nil
	case "quic", "qtcp":
		qc, clean, err := p.DialQUIC(kind+".v.test", vp.ClientOpt{Protos: []string{"qq"}})
		if err != nil {
			return nil, err
		}
		ctx, cancel := context.WithTimeout(context.Background(), promptly)
		defer cancel()
		s, err := qc.OpenStreamSync(ctx)
		if err != nil {
			clean()
			return nil, err
		}
		s.SetDeadline(time.Now().Add(promptly))
		b := make([]byte, 1)
		s.Write([]byte("x"))
		for range 2 {
			if _, err := io.ReadFull(s, b); err != nil {
				clean()
				return nil, err
			}
		}
		return &held{kind: kind, born: time.Now(),
			close: func(r *rand.Rand) {
				if r.Intn(2) == 0 {
					s.Close()
				}
				clean()
			},
			alive: func() error {
				s.SetDeadline(time.Now().Add(promptly))
				if _, err := s.Write([]byte("x")); err != nil {
					return err
				}
				_, err := io.ReadFull(s, b)
				return err
			},
			wait: func(d time.Duration) bool {
				select {
				case <-qc.Context().Done():
					return true
				case <-time.After(d):
					return false
				}
			},
		}, nil
	}
	var c *http.Client
	clean := func() {}
	switch kind {
	case "h1":
		c = p.HTTPClient(vp.ClientOpt{})
	case "h2":
		c = p.HTTPClient(vp.ClientOpt{Protos: []string{"h2"}})
	case "h3":
		c, clean = p.H3Client(vp.ClientOpt{})
	}
	c.Timeout = 0
	ctx, cancel := context.WithCancel(context.Background())
	timer := time.AfterFunc(promptly, cancel)
	host := []string{"http", "https"}[rand.Intn(2)]
	req, _ := http.NewRequestWithContext(ctx, "GET", "https://"+host+".v.test/hold", nil)
	end := func() {
		cancel()
		clean()
		// The connection isn't idle until the cancellation was processed.
		closeIdle(c)
	}
	resp, err := c.Do(req)
	if err != nil {
		end()
		return nil, err
	}
	b := make([]byte, 1)
	if _, err := io.ReadFull(resp.Body, b); err != nil || resp.StatusCode != 200 {
		resp.Body.Close()
		end()
		return nil, fmt.Errorf("status %d %w", resp.StatusCode, err)
	}
	timer.Stop()
	ended := make(chan struct{})
	go func() { defer close(ended); io.Copy(io.Discard, resp.Body); resp.Body.Close() }()
	isEnded := func(d time.Duration) bool {
		select {
		case <-ended:
			return true
		case <-time.After(d):
			return false
		}
	}
	return &held{kind: kind, born: time.Now(),
		close: func(*rand.Rand) { end() },
		alive: func() error {
			if isEnded(10 * time.Millisecond) {
				return io.ErrUnexpectedEOF
			}
			return nil
		},
		wait: func(d time.Duration) bool { r := isEnded(d); end(); return r },
	}, nil
}

// failing are connections that end in other ways.
var failing = []string{"idle", "partial-hello", "garbage", "no-hello-close", "unknown-name", "abort-handshake", "dial-error", "denied", "auth", "local", "acme", "bad-alpn", "quic-unknown", "quic-no-stream", "keepalive", "upload-abort", "http-garbage"}

func fail(p *vp.P, r *rand.Rand, kind string, denied string, e *vp.Env) {
	raw := func(b []byte, wait bool) {
		c, err := p.TCP("")
		if err != nil {
			return
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(promptly))
		c.Write(b)
		if wait {
			io.Copy(io.Discard, c)
		} else {
			time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
			if r.Intn(2) == 0 {
				c.SetLinger(0)
			}
		}
	}
	full := func(name string, o vp.ClientOpt) {
		c, err := p.Dial(name, o)
		if err != nil {
			return
		}
		c.SetDeadline(time.Now().Add(promptly))
		io.Copy(io.Discard, c)
		c.Close()
	}
	switch kind {
	case "idle", "no-hello-close":
		raw(nil, false)
	case "partial-hello":
		h := vp.ClientHello("tcp.v.test")
		raw(h[:1+r.Intn(len(h)-1)], false)
	case "garbage":
		raw([]byte("GET / HTTP/1.0\r\n\r\n"), true)
	case "unknown-name":
		raw(vp.ClientHello("unknown.example.org"), true)
	case "abort-handshake":
		raw(vp.ClientHello([]string{"tcp.v.test", "http.v.test", "tls.v.test", "pass.v.test", "auth.v.test"}[r.Intn(5)]), false)
	case "dial-error":
		full("down.v.test", vp.ClientOpt{})
	case "denied":
		full([]string{"tcp.v.test", "pass.v.test"}[r.Intn(2)], vp.ClientOpt{LocalIP: denied})
	case "auth":
		full("auth.v.test", vp.ClientOpt{Certs: []tls.Certificate{e.CA.Issue(vp.CN("x"), vp.Email("x@v.test"))}})
	case "acme":
		full("tcp.v.test", vp.ClientOpt{Protos: []string{"acme-tls/1"}})
	case "bad-alpn":
		full("quic.v.test", vp.ClientOpt{Protos: []string{"nope"}})
	case "quic-unknown":
		if _, clean, err := p.DialQUIC("unknown.v.test", vp.ClientOpt{Protos: []string{"qq"}}); err == nil {
			clean()
		}
	case "quic-no-stream":
		if _, clean, err := p.DialQUIC("quic.v.test", vp.ClientOpt{Protos: []string{"qq"}}); err == nil {
			time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
			clean()
		}
	case "local", "keepalive":
		c := p.HTTPClient(vp.ClientOpt{Protos: [][]string{nil, {"h2"}}[r.Intn(2)]})
		for range 3 {
			resp, err := c.Get("https://" + []string{"local", "http", "https"}[r.Intn(3)] + ".v.test/slow?size=20")
			if err != nil {
				break
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
		closeIdle(c)
	case "upload-abort":
		c, err := p.Dial("http.v.test", vp.ClientOpt{})
		if err != nil {
			return
		}
		fmt.Fprintf(c, "POST /slow HTTP/1.1\r\nHost: http.v.test\r\nContent-Length: 100000\r\n\r\nabc")
		time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
		c.NetConn().Close()
	case "http-garbage":
		c, err := p.Dial("http.v.test", vp.ClientOpt{})
		if err != nil {
			return
		}
		c.SetDeadline(time.Now().Add(promptly))
		fmt.Fprintf(c, "garbage\r\n\r\n")
		io.Copy(io.Discard, c)
		c.Close()
	}
}

// ---------------------------------------------------------------- the limit

// TestP23Open fills the proxy with connections, over and over.
func TestP23Open(t *testing.T) {
	run := vh.New(t, "a case is a client connection at or below the limit; distinct by kind, ending, and whether the limit was reached")
	env := vp.NewEnv(t)
	u := newUps(t, env)
	worlds, rounds := vh.N(4, 12), vh.N(10, 40)
	vh.Parallel(3, worlds, func(n int) {
		r := vh.Rand("P23", n)
		denied := vp.IP()
		cfg := config(env, u, denied)
		limit := 8 + r.Intn(15)
		cfg.MaxOpen = limit
		p := env.Start(cfg)
		defer p.End()
		viol := func(key, f string, a ...any) {
			run.Violate(key, map[string]any{"world": n, "seed": vh.Seed(), "limit": limit}, "with a limit of %d: %s", limit, fmt.Sprintf(f, a...))
		}
		for round := range rounds {
			if run.NumViolations() > 6 {
				return
			}
			// Connections that end in many ways, several at once.
			vh.Parallel(4, 60, func(i int) {
				r := vh.Rand(fmt.Sprintf("P23/%d/%d", n, round), i)
				if r.Intn(3) > 0 {
					k := failing[r.Intn(len(failing))]
					fail(p, r, k, denied, env)
					run.Eval(false, "ending", k)
					return
				}
				k := heldKinds[r.Intn(len(heldKinds))]
				h, err := establish(p, k)
				if err != nil {
					run.Count("churn_refused", 1)
					return
				}
				time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
				h.close(r)
				run.Eval(false, "ending", k)
			})
			// The limit can change.
			if round > 0 && r.Intn(2) == 0 {
				limit = 8 + r.Intn(15)
				c2 := *cfg
				c2.MaxOpen = limit
				if err := p.Reconfigure(&c2); err != nil {
					viol("refused-valid", "Reconfigure: %v", err)
				}
				run.Count("limit_changes", 1)
			}
			// All slots can be used again, but no more than that.
			var mu sync.Mutex
			var hs []*held
			if r.Intn(2) == 0 {
				// A storm. Connections that are refused don't count for long.
				vh.Parallel(40, 60, func(i int) {
					h, err := establish(p, heldKinds[i%len(heldKinds)])
					if err != nil {
						run.Count("refused", 1)
						return
					}
					mu.Lock()
					hs = append(hs, h)
					mu.Unlock()
				})
				run.Count("storms", 1)
			}
			var last error
			full := vh.Eventually(promptly, func() bool {
				if len(hs) >= limit-1 {
					return true
				}
				k := heldKinds[r.Intn(len(heldKinds))]
				var h *held
				if h, last = establish(p, k); last == nil {
					hs = append(hs, h)
					run.Eval(true, "held", k)
				}
				return len(hs) >= limit-1
			})
			if !full {
				viol("lost-slots", "only %d connections could be open after all the others had ended: %v", len(hs), last)
			}
			// No more than the limit.
			for range 5 {
				k := heldKinds[r.Intn(len(heldKinds))]
				if h, err := establish(p, k); err == nil {
					hs = append(hs, h)
				} else {
					var ne net.Error
					if errors.As(err, &ne) && ne.Timeout() || errors.Is(err, context.Canceled) {
						viol("not-refused", "a %s connection beyond the limit was neither served nor closed: %v", k, err)
					}
					run.Count("refused", 1)
					run.Eval(true, "beyond", k)
				}
			}
			alive := 0
			for _, h := range hs {
				old := time.Since(h.born) > 15*time.Second
				err := h.alive()
				if old {
					// QUIC and WebSocket connections don't stay open for more
					// than 30 seconds without any traffic.
					run.Count("too_old", 1)
					continue
				}
				if err != nil {
					viol("disturbed:"+h.kind, "an established %s connection ended while others were refused: %v", h.kind, err)
				} else {
					alive++
				}
			}
			if alive > limit {
				viol("exceeded", "%d connections are open at the same time", alive)
			}
			run.Count("held", alive)
			run.Count("audits", 1)
			for _, h := range hs {
				h.close(r)
			}
		}
	})
	for _, p := range vp.Log.TakePanics() {
		run.Violate("panic", p, "the proxy panicked: %s", vh.Trunc(p, 300))
	}
	run.NeedAtLeast("audits", 2)
	run.NeedAtLeast("refused", 10)
}

// ---------------------------------------------------------------- shutdown

// sockets returns the open sockets of this kind that match.
func sockets(proto string, local, remote string) []string {
	b, err := os.ReadFile("/proc/net/" + proto)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n")[1:] {
		f := strings.Fields(l)
		if len(f) < 10 || f[9] == "0" {
			continue
		}
		if local != "" && f[1] == hexAddr(local) || remote != "" && f[2] == hexAddr(remote) {
			out = append(out, l)
		}
	}
	return out
}

func hexAddr(a string) string {
	h, p, _ := net.SplitHostPort(a)
	ip := net.ParseIP(h).To4()
	port, _ := strconv.Atoi(p)
	return strings.ToUpper(hex.EncodeToString([]byte{ip[3], ip[2], ip[1], ip[0]})) + fmt.Sprintf(":%04X", port)
}

// proxyStacks returns the goroutines of the proxy.
func proxyStacks() []string {
	buf := make([]byte, 16<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		mine, theirs := false, false
		for _, l := range strings.Split(g, "\n") {
			if strings.Contains(l, "/zzverif/") {
				mine = true
			} else if strings.Contains(l, "c2FmZQ/tlsproxy/") && !strings.HasPrefix(l, "\t") {
				theirs = true
			}
		}
		if theirs && !mine {
			out = append(out, g)
		}
	}
	return out
}

// limbo are clients that are in the middle of something. They report how long
// the proxy took to close them.
var limbo = []string{"idle", "partial-hello", "half-handshake", "proxy-header", "h1-idle", "h1-new", "h1-partial-request", "h1-upload", "h2-idle", "h3-idle", "quic-idle", "mute", "mutehttp", "rate", "bw", "half-closed", "flood", "flood-h1"}

// enter puts one client in limbo. The function it returns waits until the proxy
// closes the connection.
func enter(p *vp.P, kind string) func(time.Duration) bool {
	none := func(time.Duration) bool { return true }
	ends := func(c net.Conn) func(time.Duration) bool {
		return func(d time.Duration) bool {
			defer c.Close()
			c.SetReadDeadline(time.Now().Add(d))
			_, err := io.Copy(io.Discard, c)
			var ne net.Error
			return !(errors.As(err, &ne) && ne.Timeout())
		}
	}
	raw := func(b []byte) func(time.Duration) bool {
		c, err := p.TCP("")
		if err != nil {
			return none
		}
		c.Write(b)
		return ends(c)
	}
	dial := func(name string, write string) func(time.Duration) bool {
		c, err := p.Dial(name, vp.ClientOpt{})
		if err != nil {
			return none
		}
		io.WriteString(c, write)
		return ends(c)
	}
	client := func(c *http.Client, clean func()) func(time.Duration) bool {
		if resp, err := c.Get("https://http.v.test/slow?size=20"); err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
		return func(time.Duration) bool { c.CloseIdleConnections(); clean(); return true }
	}
	switch kind {
	case "idle":
		return raw(nil)
	case "partial-hello":
		return raw(vp.ClientHello("tcp.v.test")[:30])
	case "half-handshake":
		return raw(vp.ClientHello("http.v.test"))
	case "proxy-header":
		return raw([]byte("PROXY TCP4 1.2.3"))
	case "h1-idle":
		c, err := p.Dial("http.v.test", vp.ClientOpt{})
		if err != nil {
			return none
		}
		fmt.Fprintf(c, "GET /slow?size=20 HTTP/1.1\r\nHost: http.v.test\r\n\r\n")
		c.SetReadDeadline(time.Now().Add(promptly))
		if resp, err := http.ReadResponse(bufio.NewReader(c), nil); err == nil {
			io.Copy(io.Discard, resp.Body)
		}
		return ends(c)
	case "h1-new":
		return dial("http.v.test", "")
	case "h1-partial-request":
		return dial("http.v.test", "GET /slow HTT")
	case "h1-upload":
		return dial("http.v.test", "POST /slow HTTP/1.1\r\nHost: http.v.test\r\nContent-Length: 1000\r\n\r\nabc")
	case "h2-idle":
		return client(p.HTTPClient(vp.ClientOpt{Protos: []string{"h2"}}), func() {})
	case "h3-idle":
		return client(p.H3Client(vp.ClientOpt{}))
	case "quic-idle":
		_, clean, err := p.DialQUIC("quic.v.test", vp.ClientOpt{Protos: []string{"qq"}})
		if err != nil {
			return none
		}
		return func(time.Duration) bool { clean(); return true }
	case "mute":
		return dial("mute.v.test", "x")
	case "mutehttp":
		return dial("mutehttp.v.test", "GET / HTTP/1.1\r\nHost: mutehttp.v.test\r\n\r\n")
	case "rate":
		for range 3 {
			go dial("rate.v.test", "x")
		}
		return dial("rate.v.test", "x")
	case "bw", "flood", "flood-h1":
		c, err := p.Dial(map[string]string{"bw": "bw.v.test", "flood": "tcp.v.test", "flood-h1": "http.v.test"}[kind], vp.ClientOpt{})
		if err != nil {
			return none
		}
		if kind == "flood-h1" {
			fmt.Fprintf(c, "GET /slow?ms=1000&size=400000000 HTTP/1.1\r\nHost: http.v.test\r\n\r\n")
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			// Without reading what comes back.
			b := make([]byte, 100000)
			for {
				if _, err := c.Write(b); err != nil {
					return
				}
			}
		}()
		return func(d time.Duration) bool {
			// The writes fail when the proxy closes the connection.
			defer c.Close()
			select {
			case <-done:
				return true
			case <-time.After(d):
				return false
			}
		}
	case "half-closed":
		c, err := p.Dial("tcp.v.test", vp.ClientOpt{})
		if err != nil {
			return none
		}
		c.CloseWrite()
		return ends(c)
	}
	return none
}

// TestP23Shutdown ends proxies that are busy.
func TestP23Shutdown(t *testing.T) {
	run := vh.New(t, "a case is a client at the time a proxy is shut down; distinct by what it was doing and how the proxy was shut down")
	env := vp.NewEnv(t)
	u := newUps(t, env)
	hows := strings.Fields(os.Getenv("P23_HOW"))
	if len(hows) == 0 {
		hows = []string{"grace", "short-grace", "stop", "cancel", "shutdown+stop", "reconfigure+stop", "reconfigure+grace", "idle-grace", "early-stop", "early-stop", "early-stop"}
	}
	vh.Parallel(5, vh.N(2*len(hows), 8*len(hows)), func(n int) {
		how := hows[n%len(hows)]
		r := vh.Rand("P23shutdown", n)
		viol := func(key, f string, a ...any) {
			run.Violate(key+":"+how, map[string]any{"world": n, "seed": vh.Seed()}, "%s: %s", how, fmt.Sprintf(f, a...))
		}
		cfg := config(env, u, vp.IP())
		hdrIP := vp.IP()
		cfg.AcceptProxyHeaderFrom = []string{hdrIP + "/32"}
		if r.Intn(2) == 0 {
			h, _, _ := net.SplitHostPort(cfg.TLSAddr)
			cfg.HTTPAddr = h + ":10080"
		}
		px, err := env.New(cfg)
		if err != nil {
			t.Errorf("New: %v", err)
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if err := px.Proxy.Start(ctx); err != nil {
			t.Errorf("Start: %v", err)
			return
		}
		if how == "early-stop" {
			// Clients come while it stops.
			var wg sync.WaitGroup
			for i := range 30 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					w := enter(px, limbo[i%len(limbo)])
					if !w(promptly) {
						viol("not-closed", "a %s client that came while the proxy stopped is still connected; sockets %q, goroutines\n%s", limbo[i%len(limbo)],
							sockets("tcp", cfg.TLSAddr, ""), strings.Join(proxyStacks(), "\n\n"))
					}
				}()
			}
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
			stopped := make(chan struct{})
			go func() { defer close(stopped); px.Stop() }()
			select {
			case <-stopped:
			case <-time.After(2 * promptly):
				viol("stuck", "Stop did not return after %v:\n%s", 2*promptly, strings.Join(vh.Stacks("tlsproxy/proxy.(*Proxy)"), "\n\n"))
				return
			}
			wg.Wait()
			run.Eval(true, how)
			check(run, viol, px, cfg)
			return
		}
		// Clients that will not end on their own.
		type client struct {
			what string
			wait func(time.Duration) bool
		}
		var cs []client
		if how != "grace" && how != "idle-grace" && how != "reconfigure+grace" {
			for range 14 {
				k := limbo[r.Intn(len(limbo))]
				cs = append(cs, client{k, enter(px, k)})
			}
			for _, k := range heldKinds {
				if h, err := establish(px, k); err == nil {
					cs = append(cs, client{"established " + k, h.wait})
				} else {
					viol("not-established", "%s: %v", k, err)
				}
			}
		} else {
			for _, k := range []string{"h1-idle", "h2-idle", "h3-idle", "h1-new"} {
				cs = append(cs, client{k, enter(px, k)})
			}
			for _, k := range []string{"tcp", "tls", "pass", "quic", "qtcp"} {
				// They don't delay the shutdown.
				if h, err := establish(px, k); err == nil {
					cs = append(cs, client{"established " + k, h.wait})
				} else {
					viol("not-established", "%s: %v", k, err)
				}
			}
		}
		var wg sync.WaitGroup
		var ended atomic.Bool
		if how == "grace" || how == "reconfigure+grace" {
			// Requests that end within the grace period.
			before := u.begun.Load()
			const per = 4
			for _, k := range []string{"h1", "h2", "h3"} {
				var c *http.Client
				clean := func() {}
				switch k {
				case "h1":
					c = px.HTTPClient(vp.ClientOpt{})
				case "h2":
					c = px.HTTPClient(vp.ClientOpt{Protos: []string{"h2"}})
				case "h3":
					c, clean = px.H3Client(vp.ClientOpt{})
				}
				c.Timeout = 0
				var cw sync.WaitGroup
				for i := range per {
					ms, size := 800+r.Intn(6000), 20*(1+r.Intn(20000))
					if i == 0 {
						ms = 7000
					}
					host := []string{"http", "https"}[r.Intn(2)]
					cw.Add(1)
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer cw.Done()
						what := fmt.Sprintf("a %s request to %s that takes %d ms for %d bytes", k, host, ms, size)
						var err error
						if i == 1 {
							pr, pw := io.Pipe()
							go func() {
								for j := range 20 {
									if _, err := pw.Write(make([]byte, size/20)); err != nil {
										return
									}
									_ = j
									time.Sleep(time.Duration(ms/20) * time.Millisecond)
								}
								pw.Close()
							}()
							var resp *http.Response
							if resp, err = c.Post("https://"+host+".v.test/slow", "x/y", pr); err == nil {
								b, e := io.ReadAll(resp.Body)
								resp.Body.Close()
								if err = e; err == nil && string(b) != strconv.Itoa(size) {
									err = fmt.Errorf("the server received %q bytes (%d)", b, resp.StatusCode)
								}
							}
						} else {
							var resp *http.Response
							if resp, err = c.Get(fmt.Sprintf("https://%s.v.test/slow?ms=%d&size=%d", host, ms, size)); err == nil {
								b, e := io.ReadAll(resp.Body)
								resp.Body.Close()
								if err = e; err == nil && string(b) != slowBody(size) {
									err = fmt.Errorf("the response has %d bytes (%d)", len(b), resp.StatusCode)
								}
							}
						}
						if err != nil {
							viol("cut-request:"+k, "%s was in progress when Shutdown was called, and ended with: %v (Shutdown returned: %v)", what, err, ended.Load())
						}
						run.Count("in_flight_requests", 1)
						run.Eval(true, how, k, i)
					}()
				}
				go func() { cw.Wait(); c.CloseIdleConnections(); clean() }()
			}
			if !vh.Eventually(promptly, func() bool { return u.begun.Load()-before >= 3*per }) {
				viol("not-begun", "the requests did not reach the servers")
			}
		}
		if strings.HasPrefix(how, "reconfigure") {
			c2 := *cfg
			c2.MaxOpen++
			c2.Backends = append(append([]*proxy.Backend(nil), cfg.Backends...), &proxy.Backend{ServerNames: []string{"new.v.test"}, Mode: proxy.ModeLocal})
			if how == "reconfigure+grace" {
				px.Reconfigure(&c2)
				time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
			} else {
				wg.Add(1)
				go func() { defer wg.Done(); px.Reconfigure(&c2) }()
				time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
			}
		}
		begin := time.Now()
		grace := 90 * time.Second
		switch how {
		case "short-grace", "shutdown+stop":
			grace = time.Duration(300+r.Intn(1500)) * time.Millisecond
		}
		sctx, scancel := context.WithTimeout(context.Background(), grace)
		defer scancel()
		returned := make(chan struct{})
		go func() {
			defer close(returned)
			switch how {
			case "stop", "reconfigure+stop":
				px.Stop()
				if r.Intn(2) == 0 {
					px.Stop()
				}
			case "cancel":
				cancel()
			case "shutdown+stop":
				go px.Stop()
				px.Shutdown(sctx)
			default:
				px.Shutdown(sctx)
			}
			ended.Store(true)
		}()
		if how == "grace" || how == "reconfigure+grace" {
			// Nothing is accepted anymore, long before the requests end.
			select {
			case <-time.After(5 * time.Second):
				for _, k := range []string{"tcp", "qtcp", "h1", "pass"} {
					if !ended.Load() {
						if h, err := establish(px, k); err == nil {
							viol("accepting", "a new %s connection was served %v after Shutdown was called", k, time.Since(begin))
							h.close(r)
						}
						run.Count("late_clients", 1)
					}
				}
			case <-returned:
			}
		}
		select {
		case <-returned:
		case <-time.After(grace + promptly):
			viol("stuck", "the shutdown did not return %v after the end of the grace period:\n%s", promptly, strings.Join(vh.Stacks("tlsproxy/proxy.(*Proxy)"), "\n\n"))
			return
		}
		took := time.Since(begin)
		if (how == "grace" || how == "idle-grace" || how == "reconfigure+grace") && took > grace*2/3 {
			viol("late", "Shutdown needed %v although all the requests had ended long before", took)
		}
		run.Count("shutdowns", 1)
		for _, c := range cs {
			if !c.wait(promptly) {
				viol("not-closed", "%s is still connected", c.what)
			}
			run.Eval(true, how, c.what)
		}
		wg.Wait()
		check(run, viol, px, cfg)
	})
	// Nothing of the proxies is left.
	var left []string
	if !vh.Eventually(promptly, func() bool {
		left = proxyStacks()
		return len(left) == 0
	}) {
		run.Violate("leaked-goroutine", left[0], "%d goroutines are left after all the proxies were shut down, e.g.\n%s", len(left), vh.Trunc(left[0], 1500))
	}
	var conns []string
	if !vh.Eventually(promptly, func() bool {
		conns = nil
		for _, a := range u.all {
			conns = append(conns, sockets("tcp", "", a)...)
		}
		return len(conns) == 0
	}) {
		run.Violate("leaked-upstream", conns, "%d connections to servers are still open after all the proxies were shut down", len(conns))
	}
	for _, p := range vp.Log.TakePanics() {
		run.Violate("panic", p, "the proxy panicked: %s", vh.Trunc(p, 300))
	}
	run.NeedAtLeast("shutdowns", 4)
	run.NeedAtLeast("in_flight_requests", 4)
}

// check verifies that nothing listens, and that no client connection is left.
func check(run *vh.Run, viol func(string, string, ...any), px *vp.P, cfg *proxy.Config) {
	if c, err := net.DialTimeout("tcp", cfg.TLSAddr, time.Second); err == nil {
		c.Close()
		viol("listening", "connections to %s are still accepted", cfg.TLSAddr)
	}
	if cfg.HTTPAddr != "" {
		if !vh.Eventually(promptly, func() bool {
			c, err := net.DialTimeout("tcp", cfg.HTTPAddr, time.Second)
			if err == nil {
				c.Close()
			}
			return err != nil
		}) {
			viol("listening", "connections to %s are still accepted", cfg.HTTPAddr)
		}
	}
	var left []string
	if !vh.Eventually(promptly, func() bool {
		left = append(sockets("tcp", cfg.TLSAddr, ""), sockets("udp", cfg.TLSAddr, "")...)
		return len(left) == 0
	}) {
		viol("sockets", "%d sockets of the proxy are still open: %q", len(left), left[0])
	}
	run.Count("checked", 1)
}

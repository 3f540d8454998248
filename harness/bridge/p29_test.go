package bridge

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gorilla/websocket"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// wsReader is the concatenation of the binary messages that arrive.
type wsReader struct {
	c     *websocket.Conn
	r     io.Reader
	other atomic.Int32
}

func (w *wsReader) Read(b []byte) (int, error) {
	for {
		if w.r == nil {
			typ, r, err := w.c.NextReader()
			if err != nil {
				return 0, err
			}
			if typ != websocket.BinaryMessage {
				w.other.Add(1)
			}
			w.r = r
		}
		n, err := w.r.Read(b)
		if err == io.EOF {
			w.r = nil
			if n == 0 {
				continue
			}
			err = nil
		}
		return n, err
	}
}

// wsSend writes s as messages of all kinds of sizes, among messages that are
// not part of the stream.
func wsSend(c *websocket.Conn, s stream, rnd *rand.Rand) error {
	style := rnd.Intn(3)
	for off := 0; off < s.size || s.size == 0; {
		n := 0
		switch style {
		case 0:
			n = rnd.Intn(300)
			if s.size > 20000 {
				n = rnd.Intn(9000)
			}
		case 1:
			n = rnd.Intn(70000)
		case 2:
			n = []int{0, 1, 125, 126, 127, 1024, 8191, 8192, 8193, 65535, 65536}[rnd.Intn(11)]
		}
		n = min(n, s.size-off)
		b := make([]byte, n)
		s.fill(b, off)
		off += n
		if rnd.Intn(4) == 0 {
			// in fragments
			w, err := c.NextWriter(websocket.BinaryMessage)
			if err != nil {
				return err
			}
			for len(b) > 0 {
				k := 1 + rnd.Intn(len(b))
				if _, err := w.Write(b[:k]); err != nil {
					return err
				}
				b = b[k:]
			}
			if err := w.Close(); err != nil {
				return err
			}
		} else if err := c.WriteMessage(websocket.BinaryMessage, b); err != nil {
			return err
		}
		switch rnd.Intn(25) {
		case 0:
			c.WriteMessage(websocket.TextMessage, []byte("not for the server"))
		case 1:
			c.WriteControl(websocket.PingMessage, []byte("x"), time.Now().Add(time.Minute))
		case 2:
			time.Sleep(time.Duration(rnd.Intn(3)) * time.Millisecond)
		}
		if s.size == 0 {
			return nil
		}
	}
	return nil
}

type wsSession struct {
	run      *vh.Run
	id       int
	scen     string
	up, down stream
	rnd      *rand.Rand
	history  string
	srv      chan net.Conn
}

func (w *wsSession) fail(key, f string, a ...any) {
	w.run.Violate(key, map[string]any{"session": w.id, "scenario": w.scen, "up": w.up.size, "down": w.down.size}, f, a...)
}

// ends reports whether ch is closed soon.
func ends(ch chan struct{}) bool {
	select {
	case <-ch:
		return true
	case <-time.After(80 * time.Second):
		return false
	}
}

func TestP29(t *testing.T) {
	run := vh.New(t, "A case is one WebSocket session: its sizes, message boundaries and the way it ends. Distinct = distinct (scenario, size classes).")
	e := vp.NewEnv(t)
	idp := vp.NewIDP(t)
	var sessions sync.Map
	var accepted atomic.Int64
	up := vp.NewTCPServer(t, func(c net.Conn) {
		accepted.Add(1)
		// The first 8 bytes tell which session this is.
		var id [8]byte
		c.SetReadDeadline(time.Now().Add(80 * time.Second))
		if _, err := io.ReadFull(c, id[:]); err != nil {
			return
		}
		c.SetReadDeadline(time.Time{})
		s, ok := sessions.Load(int(binary.BigEndian.Uint64(id[:])))
		if !ok {
			return
		}
		done := make(chan struct{})
		s.(*wsSession).srv <- &closedConn{Conn: c, done: done}
		<-done
	})
	cfg := e.Config(true,
		&proxy.Backend{ServerNames: []string{"ws.v.test"}, Mode: "LOCAL"},
		&proxy.Backend{ServerNames: []string{"app.v.test"}, Mode: "HTTP", Addresses: []string{vp.NewHTTPServer(t, nil, http.NotFoundHandler()).Addr}},
		&proxy.Backend{ServerNames: []string{"sso.v.test"}, Mode: "LOCAL", SSO: &proxy.BackendSSO{Provider: "op", ACL: &[]string{"alice@v.test"}}},
		&proxy.Backend{ServerNames: []string{"cert.v.test"}, Mode: "LOCAL", ClientAuth: &proxy.ClientAuth{RootCAs: []string{e.CA.PEM}}},
		&proxy.Backend{ServerNames: []string{"deny.v.test"}, Mode: "LOCAL", DenyIPs: &[]string{"127.0.0.0/8"}},
		&proxy.Backend{ServerNames: []string{"login.v.test"}, Mode: "LOCAL"},
	)
	cfg.OIDCProviders = []*proxy.ConfigOIDC{idp.Config("op", "login.v.test", "v.test")}
	for _, n := range []string{"ws", "app", "sso", "cert", "deny"} {
		cfg.WebSockets = append(cfg.WebSockets, &proxy.WebSocketConfig{Endpoint: "wss://" + n + ".v.test/socket", Address: up.Addr})
	}
	cfg.WebSockets = append(cfg.WebSockets, &proxy.WebSocketConfig{Endpoint: "wss://ws.v.test/dead", Address: vp.IP() + ":1"})
	p := e.Start(cfg)
	defer p.End()

	dial := func(u string, o vp.ClientOpt, hdr http.Header) (*websocket.Conn, *http.Response, error) {
		o.Protos = []string{"http/1.1"}
		d := &websocket.Dialer{HandshakeTimeout: 60 * time.Second, ReadBufferSize: 4096, WriteBufferSize: 3000,
			NetDialTLSContext: func(ctx context.Context, _, addr string) (net.Conn, error) {
				host, _, _ := net.SplitHostPort(addr)
				return p.Dial(host, o)
			}}
		return d.Dial(u, hdr)
	}

	alice := p.Browser(vp.ClientOpt{})
	if _, err := alice.Login(idp, "https://sso.v.test/", "alice@v.test"); err != nil {
		t.Fatal(err)
	}
	bob := p.Browser(vp.ClientOpt{})
	bob.Login(idp, "https://sso.v.test/", "bob@v.test")
	cookie := func(b *vp.Browser) http.Header {
		h := http.Header{}
		for _, n := range []string{"TLSPROXYAUTH", "__tlsproxyAuth", "TLSPROXYIDTOKEN"} {
			if v := b.Cookie("https://sso.v.test/", n); v != "" {
				h.Add("Cookie", n+"="+v)
			}
		}
		return h
	}
	cert := e.CA.Issue(vp.CN("x"))

	var expected atomic.Int64 // connections the server may see
	open := func(s *wsSession) (*websocket.Conn, net.Conn) {
		u, o, h := "wss://ws.v.test/socket", vp.ClientOpt{}, http.Header{}
		switch s.rnd.Intn(6) {
		case 0:
			u = "wss://app.v.test/socket"
		case 1:
			u, h = "wss://sso.v.test/socket", cookie(alice)
		case 2:
			u, o.Certs = "wss://cert.v.test/socket", append(o.Certs, cert)
		case 3:
			h.Set("Origin", "https://ws.v.test")
		}
		if s.rnd.Intn(2) == 0 {
			o.Max = 0x0303
		}
		expected.Add(1)
		c, resp, err := dial(u, o, h)
		if err != nil {
			code := 0
			if resp != nil {
				code = resp.StatusCode
			}
			s.fail("refused", "an authorized WebSocket client is refused at %s: %v (status %d)", u, err, code)
			return nil, nil
		}
		s.srv = make(chan net.Conn, 1)
		sessions.Store(s.id, s)
		b := binary.BigEndian.AppendUint64(nil, uint64(s.id))
		if err := c.WriteMessage(websocket.BinaryMessage, b); err != nil {
			s.fail("write", "cannot send: %v", err)
			return nil, nil
		}
		select {
		case srv := <-s.srv:
			return c, srv
		case <-time.After(80 * time.Second):
			s.fail("first-message", "the first message did not arrive at the server")
			return nil, nil
		}
	}
	class := func(n int) int {
		c := 0
		for ; n > 0; n /= 8 {
			c++
		}
		return c
	}
	session := func(s *wsSession) {
		c, srv := open(s)
		if c == nil {
			return
		}
		defer c.Close()
		defer srv.Close()
		rd := &wsReader{c: c}
		var upN, upBad, downN, downBad int
		var upErr, downErr error
		upEnd, downEnd := make(chan struct{}), make(chan struct{})
		allUp, allDown := make(chan struct{}), make(chan struct{})
		var o1, o2 sync.Once
		got := func(ch chan struct{}, o *sync.Once, want int) func(int) {
			return func(n int) {
				if n >= want {
					o.Do(func() { close(ch) })
				}
			}
		}
		g1, g2 := got(allUp, &o1, s.up.size), got(allDown, &o2, s.down.size)
		g1(0)
		g2(0)
		r1, r2, r3, r4 := rand.New(rand.NewSource(s.rnd.Int63())), rand.New(rand.NewSource(s.rnd.Int63())), rand.New(rand.NewSource(s.rnd.Int63())), rand.New(rand.NewSource(s.rnd.Int63()))
		slow := s.rnd.Intn(3) == 0
		go func() {
			defer close(upEnd)
			if slow && s.scen == "client closes first" {
				time.Sleep(300 * time.Millisecond)
			}
			upN, upBad, upErr = s.up.check(srv, r1, g1)
			o1.Do(func() { close(allUp) })
		}()
		go func() {
			defer close(downEnd)
			if slow && s.scen == "server closes first" {
				time.Sleep(300 * time.Millisecond)
			}
			downN, downBad, downErr = s.down.check(rd, r2, g2)
			o2.Do(func() { close(allDown) })
		}()
		checkUp, checkDown := true, true // whole streams are expected
		switch s.scen {
		case "both, then client":
			go s.down.send(srv, r3, 0, s.down.size)
			if err := wsSend(c, s.up, r4); err != nil {
				s.fail("client-write", "the client cannot send: %v", err)
			}
			ends(allDown)
			c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""), time.Now().Add(time.Minute))
		case "both, then server":
			go wsSend(c, s.up, r4)
			if err := s.down.send(srv, r3, 0, s.down.size); err != nil {
				s.fail("server-write", "the server cannot send: %v", err)
			}
			ends(allUp)
			srv.Close()
		case "client closes first":
			// The server is still sending.
			go s.down.send(srv, r3, 0, s.down.size)
			if err := wsSend(c, s.up, r4); err != nil {
				s.fail("client-write", "the client cannot send: %v", err)
			}
			c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""), time.Now().Add(time.Minute))
			checkDown = false
		case "server closes first":
			// The client is still sending.
			go wsSend(c, s.up, r4)
			if err := s.down.send(srv, r3, 0, s.down.size); err != nil {
				s.fail("server-write", "the server cannot send: %v", err)
			}
			srv.(*closedConn).Conn.(*net.TCPConn).CloseWrite()
			checkUp = false
		case "client vanishes":
			go s.down.send(srv, r3, 0, s.down.size)
			wsSend(c, s.up, r4)
			if tc, ok := c.NetConn().(interface{ NetConn() net.Conn }); ok {
				tc.NetConn().(*net.TCPConn).SetLinger(0)
				tc.NetConn().Close()
			}
			checkUp, checkDown = false, false
		case "server vanishes":
			go wsSend(c, s.up, r4)
			s.down.send(srv, r3, 0, s.down.size)
			srv.(*closedConn).Conn.(*net.TCPConn).SetLinger(0)
			srv.Close()
			checkUp, checkDown = false, false
		}
		e1, e2 := ends(upEnd), ends(downEnd)
		switch {
		case !e1:
			s.fail("server-open", "the client is done and the server's connection is still open")
			return
		case !e2:
			s.fail("client-open", "the server is done and the client's connection is still open")
			return
		}
		run.Count("sessions", 1)
		run.Count("bytes", upN+downN)
		run.Eval(true, s.scen, class(s.up.size), class(s.down.size), slow)
		if upBad >= 0 {
			s.fail("corrupt-up", "wrong byte at offset %d of the client's stream (%d of %d read)", upBad, upN, s.up.size)
		}
		if downBad >= 0 {
			s.fail("corrupt-down", "wrong byte at offset %d of the server's stream (%d of %d read)", downBad, downN, s.down.size)
		}
		if checkUp && upN != s.up.size {
			s.fail("lost-up", "the server read %d of the %d bytes that the client sent before closing (%v)", upN, s.up.size, upErr)
		}
		if checkDown && downN != s.down.size {
			s.fail("lost-down", "the client received %d of the %d bytes that the server sent before closing (%v)", downN, s.down.size, downErr)
		}
		if n := rd.other.Load(); n > 0 {
			s.fail("message-type", "%d messages are not binary", n)
		}
	}

	var bg sync.WaitGroup
	longSession := func(i int, answers bool) {
		defer bg.Done()
		rnd := vh.Rand("p29long", i)
		s := &wsSession{run: run, id: 1_000_000 + i, scen: "idle", up: stream{rnd.Uint64(), 5000}, down: stream{rnd.Uint64(), 5000}, rnd: rnd}
		c, srv := open(s)
		if c == nil {
			return
		}
		defer c.Close()
		defer srv.Close()
		if answers {
			// Answers the pings, and is otherwise idle for long.
			first := make(chan error, 1)
			rd := &wsReader{c: c}
			b := make([]byte, s.down.size)
			go func() {
				_, err := io.ReadFull(rd, b)
				first <- err
				rd.Read(make([]byte, 1))
			}()
			time.Sleep(47 * time.Second)
			s.down.send(srv, rnd, 0, s.down.size)
			if err := <-first; err != nil {
				s.fail("idle-closed", "an idle session whose client answers pings was closed: %v", err)
				return
			}
			run.Count("idle_kept", 1)
			return
		}
		// Reads nothing and answers nothing.
		done := make(chan struct{})
		go func() { io.Copy(io.Discard, srv); close(done) }()
		if !ends(done) {
			s.fail("unresponsive", "the server's connection is still open although the client has not answered for a long time")
			return
		}
		run.Count("unresponsive_closed", 1)
	}
	for i := range 4 {
		bg.Add(1)
		go longSession(i, i%2 == 0)
	}

	scens := []string{"both, then client", "both, then server", "client closes first", "server closes first", "client vanishes", "server vanishes"}
	vh.Parallel(12, vh.N(900, 12000), func(i int) {
		if run.NumViolations() > 8 {
			return
		}
		rnd := vh.Rand("p29", i)
		pick := func() int {
			n := []int{0, 1, 50, 1024, 8192, 20000, 100000, 600000}[rnd.Intn(8)]
			if n > 1 {
				n += rnd.Intn(n)
			}
			return n
		}
		if rnd.Intn(6) == 0 {
			unauthorized(run, rnd, dial, cookie(bob), bob)
			return
		}
		session(&wsSession{run: run, id: i, scen: scens[rnd.Intn(len(scens))], up: stream{rnd.Uint64(), pick()}, down: stream{rnd.Uint64(), pick()}, rnd: rnd})
	})
	// A server that cannot be reached.
	for range 5 {
		c, _, err := dial("wss://ws.v.test/dead", vp.ClientOpt{}, nil)
		if err != nil {
			continue
		}
		c.SetReadDeadline(time.Now().Add(60 * time.Second))
		if _, _, err := c.ReadMessage(); isTimeout(err) {
			run.Violate("dead-open", nil, "the server cannot be reached and the client's connection is still open")
		}
		c.Close()
	}
	bg.Wait()
	if n := accepted.Load(); n > expected.Load() {
		run.Violate("extra-conns", nil, "the server saw %d connections for %d authorized WebSocket clients", n, expected.Load())
	}
	if !vh.Eventually(60*time.Second, func() bool { return len(vh.Stacks("webSocketHandler")) == 0 }) && run.NumViolations() == 0 {
		run.Violate("goroutines", vh.Stacks("webSocketHandler")[0], "all sessions are over but %d goroutines remain", len(vh.Stacks("webSocketHandler")))
	}
	for _, x := range vp.Log.TakePanics() {
		run.Violate("panic", x, "panic: %s", vh.Trunc(x, 300))
	}
	run.NeedAtLeast("sessions", 200)
	run.NeedAtLeast("unauthorized", 50)
	run.NeedAtLeast("idle_kept", 1)
	run.NeedAtLeast("unresponsive_closed", 1)
}

func unauthorized(run *vh.Run, rnd *rand.Rand, dial func(string, vp.ClientOpt, http.Header) (*websocket.Conn, *http.Response, error), other http.Header, bob *vp.Browser) {
	u, o, h, what := "", vp.ClientOpt{}, http.Header{}, ""
	switch k := rnd.Intn(9); k {
	case 0:
		u, what = "wss://sso.v.test/socket", "not logged in"
	case 1:
		u, h, what = "wss://sso.v.test/socket", other, "not in the access list"
	case 2:
		u, what = "wss://cert.v.test/socket", "no certificate"
	case 3:
		u, what = "wss://deny.v.test/socket", "address denied"
	case 4:
		u, what = "wss://ws.v.test/socket/"+[]string{"", "x", "../socket"}[rnd.Intn(3)], "another path"
	case 5:
		u, what = "wss://ws.v.test/socket", "another origin"
		h.Set("Origin", []string{"https://evil.test", "https://app.v.test", "https://ws.v.test.evil.test", "null"}[rnd.Intn(4)])
	case 6:
		u, what = "wss://sso.v.test/socket", "forged cookie"
		h.Set("Cookie", "TLSPROXYAUTH=eyJhbGciOiJub25lIn0.eyJlbWFpbCI6ImFsaWNlQHYudGVzdCJ9.")
	case 7:
		u, what = "wss://login.v.test/socket", "no such endpoint"
	case 8:
		// Through the name of a backend that needs no login.
		u, what = "wss://ws.v.test/nothing", "other host header"
		h.Set("Host", "sso.v.test")
		u = "wss://ws.v.test/socket"
	}
	c, _, err := dial(u, o, h)
	run.Count("unauthorized", 1)
	run.Eval(true, "unauthorized", what)
	if err != nil {
		return
	}
	defer c.Close()
	if what == "other host header" && errors.Is(err, nil) {
		// The endpoint of ws.v.test needs no login; it is only a problem
		// when the answer comes from the other backend.
		run.Violate("host", nil, "a request for sso.v.test on a connection for ws.v.test was upgraded")
		return
	}
	run.Violate("unauthorized", nil, "a WebSocket client that must be refused (%s) was accepted", fmt.Sprint(what))
}

type closedConn struct {
	net.Conn
	done chan struct{}
	once sync.Once
}

func (c *closedConn) Close() error {
	err := c.Conn.Close()
	c.once.Do(func() { close(c.done) })
	return err
}

// Package bridge: byte-stream monitors for bridged connections (P02).
package bridge

import (
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"testing"
	"time"

	proxyproto "github.com/pires/go-proxyproto"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// stream is a reproducible byte sequence, different for every session and
// direction; at offset o its content depends on o, so that any loss,
// duplication, reordering or mix-up shows up as a mismatch.
type stream struct {
	seed uint64
	size int
}

func (s stream) at(o int) byte {
	x := uint64(o/8)*0x9E3779B97F4A7C15 + s.seed
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return byte(x >> (uint(o%8) * 8))
}

func (s stream) fill(b []byte, off int) {
	for i := range b {
		b[i] = s.at(off + i)
	}
}

// send writes the whole stream in segments chosen by r.
func (s stream) send(w io.Writer, r *rand.Rand, from, to int) error {
	style := r.Intn(4)
	for from < to {
		n := 0
		switch style {
		case 0:
			n = 1 + r.Intn(16)
			if to-from > 3000 {
				n = 1 + r.Intn(3000)
			}
		case 1:
			n = 1 + r.Intn(5000)
		case 2:
			n = 1 + r.Intn(70000)
		default:
			n = []int{1, 16383, 16384, 16385, 32768, 65536, 100000}[r.Intn(7)]
		}
		n = min(n, to-from)
		b := make([]byte, n)
		s.fill(b, from)
		if _, err := w.Write(b); err != nil {
			return err
		}
		from += n
		if r.Intn(12) == 0 {
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		}
	}
	return nil
}

// check reads until the end of the stream and compares. It returns how much
// was received, the offset of the first wrong byte (-1 if none) and how the
// stream ended.
func (s stream) check(rd io.Reader, r *rand.Rand, progress func(int)) (n, bad int, err error) {
	bad = -1
	b := make([]byte, 1+r.Intn(90000))
	for {
		m, err := rd.Read(b)
		for i := 0; i < m && bad < 0; i++ {
			if n+i >= s.size || b[i] != s.at(n+i) {
				bad = n + i
			}
		}
		n += m
		if progress != nil {
			progress(n)
		}
		if err != nil {
			return n, bad, err
		}
		if r.Intn(40) == 0 {
			time.Sleep(time.Duration(r.Intn(4)) * time.Millisecond)
		}
	}
}

type halfConn interface {
	net.Conn
	CloseWrite() error
}

type slot struct {
	name  string
	mode  string
	sc    *bool
	cc    *bool
	conns chan halfConn
	pp    bool
}

func (s slot) serverEnds() bool { return s.sc == nil || *s.sc }
func (s slot) clientEnds() bool { return s.cc != nil && *s.cc }

const trusted = "127.91.0.1"

func TestP02(t *testing.T) {
	run := vh.New(t, "A case is one bridged session (mode, half-close options, close order, sizes in both directions, segmentation); distinct non-trivial = distinct (mode, options, scenario, size classes, PROXY header).")
	e := vp.NewEnv(t)
	st := e.ServerTLS(nil, "up.v.test")
	wild := &tls.Config{Certificates: []tls.Certificate{e.Wild}}
	var slots []*slot
	var pbs []*proxy.Backend
	for _, mode := range []string{"TCP", "TLS", "TLSPASSTHROUGH", "RAW"} {
		for _, opt := range []string{"default", "serverkeep", "clientends", "serverkeep+pp"} {
			s := &slot{name: fmt.Sprintf("s%d.v.test", len(slots)), mode: mode, conns: make(chan halfConn, 100)}
			switch opt {
			case "serverkeep", "serverkeep+pp":
				s.sc = vp.Ptr(false)
			case "clientends":
				s.cc = vp.Ptr(true)
			}
			s.pp = opt == "serverkeep+pp"
			up := vp.NewTCPServer(t, func(c net.Conn) {
				var hc halfConn = c.(*net.TCPConn)
				if mode == "TLS" || mode == "TLSPASSTHROUGH" {
					tc := st
					if mode == "TLSPASSTHROUGH" {
						tc = wild
					}
					tl := tls.Server(c, tc)
					if err := tl.Handshake(); err != nil {
						return
					}
					hc = tl
				}
				done := make(chan struct{})
				s.conns <- &notifyConn{halfConn: hc, done: done}
				<-done
			})
			m := mode
			if m == "RAW" {
				m = "TLSPASSTHROUGH"
			}
			pbs = append(pbs, &proxy.Backend{ServerNames: []string{s.name}, Mode: m, ALPNProtos: &[]string{}, Addresses: []string{up.Addr}, ForwardRateLimit: 100000,
				InsecureSkipVerify: true, ForwardServerName: "up.v.test", ServerCloseEndsConnection: s.sc, ClientCloseEndsConnection: s.cc, HalfCloseTimeout: vp.Ptr(50 * time.Second)})
			slots = append(slots, s)
		}
	}
	cfg := e.Config(false, pbs...)
	cfg.AcceptProxyHeaderFrom = []string{trusted + "/32"}
	p := e.Start(cfg)
	defer p.End()
	rounds := vh.N(150, 2000)
	var wg sync.WaitGroup
	for si, s := range slots {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < rounds; k++ {
				session(run, p, s, si, k)
				if run.NumViolations() > 5 {
					return
				}
			}
		}()
	}
	wg.Wait()
	for _, x := range vp.Log.TakePanics() {
		run.Violate("panic", x, "a connection handler panicked: %s", vh.Trunc(x, 300))
	}
	// Everything both sides finished with must be released.
	if !vh.Eventually(60*time.Second, func() bool { return len(vh.Stacks("bridgeConns")) == 0 }) && run.NumViolations() == 0 {
		run.Violate("bridge-left", vh.Stacks("bridgeConns")[0], "all clients and servers are done but %d bridging goroutines remain", len(vh.Stacks("bridgeConns")))
	}
	run.NeedAtLeast("sessions", 300)
	run.NeedAtLeast("half_closes", 100)
	run.NeedAtLeast("bytes", 10_000_000)
}

type notifyConn struct {
	halfConn
	done chan struct{}
	once sync.Once
}

func (c *notifyConn) Close() error {
	err := c.halfConn.Close()
	c.once.Do(func() { close(c.done) })
	return err
}

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

func session(run *vh.Run, p *vp.P, s *slot, si, k int) {
	r := vh.Rand(fmt.Sprintf("P02-%d", si), k)
	sizes := []int{0, 1, 7, 4096, 16384, 16385, 50000, 300000, 1500000}
	pick := func() int {
		n := sizes[r.Intn(len(sizes))]
		if n > 1 {
			n += r.Intn(n)
		}
		return n
	}
	up := stream{seed: r.Uint64(), size: pick()}
	down := stream{seed: r.Uint64(), size: pick()}
	scen := []string{"client-first", "server-first", "reset"}[r.Intn(3)]
	if r.Intn(3) > 0 && scen == "reset" {
		scen = "client-first"
	}
	rep := map[string]any{"mode": s.mode, "serverCloseEndsConnection": s.serverEnds(), "clientCloseEndsConnection": s.clientEnds(), "scenario": scen, "up": up.size, "down": down.size, "slot": si, "session": k, "pp": s.pp}
	fail := func(key, f string, a ...any) { run.Violate(key, rep, f, a...) }

	o := vp.ClientOpt{}
	if s.pp {
		o.LocalIP = trusted
		h := proxyproto.HeaderProxyFromAddrs(byte(1+r.Intn(2)), &net.TCPAddr{IP: net.ParseIP("192.0.2.7"), Port: 1000 + k}, &net.TCPAddr{IP: net.ParseIP("192.0.2.1"), Port: 443})
		var b bytes.Buffer
		h.WriteTo(&b)
		o.Before = b.Bytes()
	}
	if r.Intn(2) == 0 {
		o.Max = tls.VersionTLS12
	}
	var client halfConn
	prefix := 0
	if s.mode == "RAW" {
		// Not a TLS endpoint at all: a ClientHello followed by arbitrary
		// bytes, so that the relayed bytes can be compared one by one.
		hello := vp.ClientHello(s.name)
		c, err := p.TCP(o.LocalIP)
		if err != nil {
			run.Inconclusive("dial: %v", err)
			return
		}
		c.Write(o.Before)
		b := append([]byte{}, hello...)
		extra := make([]byte, min(up.size, r.Intn(3000)))
		up.fill(extra, 0)
		prefix = len(extra)
		b = append(b, extra...)
		for len(b) > 0 {
			n := min(len(b), 1+r.Intn(200))
			c.Write(b[:n])
			b = b[n:]
		}
		client = c
		var srv halfConn
		select {
		case srv = <-s.conns:
		case <-time.After(40 * time.Second):
			fail("no-connection", "the backend never got the connection")
			return
		}
		s.conns <- &helloConn{halfConn: srv, want: hello, fail: fail}
	} else {
		c, err := p.Dial(s.name, o)
		if err != nil {
			fail("dial", "client could not connect: %v", err)
			return
		}
		client = c
	}
	defer client.Close()
	// In TLS mode the upstream handshake completes lazily but without waiting
	// for client data.
	var server halfConn
	select {
	case server = <-s.conns:
	case <-time.After(40 * time.Second):
		fail("no-connection", "the backend never got the connection (client sent nothing yet)")
		return
	}
	defer server.Close()
	dl := time.Now().Add(100 * time.Second)
	client.SetDeadline(dl)
	server.SetDeadline(dl)

	var wg sync.WaitGroup
	upDone := make(chan struct{}) // the server has everything the client sent
	var once sync.Once
	upOK := func(n int) {
		if n >= up.size {
			once.Do(func() { close(upDone) })
		}
	}
	upOK(0)
	downDone := make(chan struct{})
	var once2 sync.Once
	downOK := func(n int) {
		if n >= down.size {
			once2.Do(func() { close(downDone) })
		}
	}
	downOK(0)
	wait := func(ch chan struct{}) {
		select {
		case <-ch:
		case <-time.After(100 * time.Second):
		}
	}
	type res struct {
		n, bad int
		err    error
	}
	var ur, dr res
	cs, ss := rand.New(rand.NewSource(r.Int63())), rand.New(rand.NewSource(r.Int63()))
	cr, sr := rand.New(rand.NewSource(r.Int63())), rand.New(rand.NewSource(r.Int63()))
	cutUp, cutDown := up.size, down.size
	if scen == "reset" {
		cutUp = prefix
		if up.size > prefix {
			cutUp += r.Intn(up.size - prefix)
		}
	}
	wg.Add(4)
	serverEOF := make(chan struct{})
	go func() { // server reader
		defer wg.Done()
		defer close(serverEOF)
		ur.n, ur.bad, ur.err = up.check(server, sr, upOK)
		once.Do(func() { close(upDone) })
	}()
	clientEOF := make(chan struct{})
	go func() { // client reader
		defer wg.Done()
		defer close(clientEOF)
		dr.n, dr.bad, dr.err = down.check(client, cr, downOK)
		once2.Do(func() { close(downDone) })
	}()
	go func() { // client writer
		defer wg.Done()
		first := cutUp
		keepSending := scen == "server-first" && !s.serverEnds()
		if keepSending && up.size > prefix {
			first = prefix + cs.Intn(up.size-prefix+1)
		}
		err := up.send(client, cs, prefix, first)
		if keepSending && err == nil {
			// The rest is sent after the server ended its own direction.
			wait(clientEOF)
			run.Count("late_bytes_after_server_half_close", cutUp-first)
			err = up.send(client, cs, first, cutUp)
		}
		if err != nil && scen != "reset" {
			fail("client-write", "client could not send all its data: %v", err)
		}
		switch scen {
		case "client-first":
			if s.clientEnds() {
				wait(downDone)
			}
			client.CloseWrite()
		case "reset":
			if tc, ok := client.(*net.TCPConn); ok {
				tc.SetLinger(0)
			} else if tc, ok := client.(*tls.Conn); ok {
				tc.NetConn().(*net.TCPConn).SetLinger(0)
				tc.NetConn().Close()
			}
			client.Close()
		case "server-first":
			if keepSending {
				client.CloseWrite()
			}
		}
	}()
	var late int
	go func() { // server writer
		defer wg.Done()
		half := down.size
		if scen == "client-first" && !s.clientEnds() {
			half = ss.Intn(down.size + 1)
		}
		err := down.send(server, ss, 0, half)
		if half < down.size && err == nil {
			// The rest only flows once the client has ended its side.
			wait(serverEOF)
			late = down.size - half
			err = down.send(server, ss, half, down.size)
		}
		if err != nil && scen != "reset" {
			fail("server-write", "server could not send all its data: %v", err)
		}
		switch scen {
		case "client-first":
			wait(serverEOF)
			server.Close()
		case "server-first":
			if s.serverEnds() {
				wait(upDone)
				server.Close()
			} else {
				server.CloseWrite()
				wait(serverEOF)
				server.Close()
			}
		case "reset":
			wait(serverEOF)
			server.Close()
		}
	}()
	wg.Wait()
	run.Count("sessions", 1)
	run.Count("bytes", ur.n+dr.n)
	run.Count("late_bytes_after_half_close", late)
	if scen == "client-first" || !s.serverEnds() {
		run.Count("half_closes", 1)
	}
	class := func(n int) int {
		c := 0
		for n > 0 {
			n /= 8
			c++
		}
		return c
	}
	run.Eval(up.size+down.size > 0, s.mode, s.serverEnds(), s.clientEnds(), scen, class(up.size), class(down.size), s.pp)
	if k == 1 {
		run.Sample(map[string]any{"session": rep, "server_read": ur.n, "server_end": fmt.Sprint(ur.err), "client_read": dr.n, "client_end": fmt.Sprint(dr.err)})
	}
	if ur.bad >= 0 {
		fail("corrupt-up", "the backend read a wrong byte at offset %d of the client's stream (%d of %d bytes)", ur.bad, ur.n, up.size)
	}
	if dr.bad >= 0 {
		fail("corrupt-down", "the client read a wrong byte at offset %d of the backend's stream (%d of %d bytes)", dr.bad, dr.n, down.size)
	}
	if isTimeout(ur.err) || (isTimeout(dr.err) && scen != "reset") {
		fail("stuck", "stream did not end: server read %d/%d (%v), client read %d/%d (%v)", ur.n, up.size, ur.err, dr.n, down.size, dr.err)
		return
	}
	if scen == "reset" {
		return // prefixes were checked above; the end is whatever TCP made of it
	}
	wantUp := up.size
	if ur.n != wantUp {
		fail("lost-up", "the backend read %d of the %d bytes the client sent (end: %v)", ur.n, wantUp, ur.err)
	}
	if dr.n != cutDown {
		fail("lost-down", "the client read %d of the %d bytes the backend sent (end: %v)", dr.n, down.size, dr.err)
	}
	// Clean ends: whichever direction was ended first must end cleanly.
	if scen == "client-first" && !(s.clientEnds()) && ur.err != io.EOF {
		fail("unclean-up", "client half-closed but the backend read %v instead of end of stream", ur.err)
	}
	if dr.err != io.EOF && !(scen == "client-first" && s.clientEnds()) {
		fail("unclean-down", "backend closed but the client read %v instead of end of stream", dr.err)
	}
}

type helloConn struct {
	halfConn
	want []byte
	fail func(string, string, ...any)
}

func (h *helloConn) Read(b []byte) (int, error) {
	if len(h.want) > 0 {
		got := make([]byte, len(h.want))
		n, err := io.ReadFull(h.halfConn, got)
		if n > 0 && !bytes.Equal(got[:n], h.want[:n]) {
			h.fail("hello-changed", "the inspected ClientHello was not replayed unchanged to the backend")
		}
		h.want = nil
		if err != nil {
			return 0, err
		}
	}
	return h.halfConn.Read(b)
}

// Package route: which backend serves a connection (P01), under which client
// addresses (P08), through which upstream address (P06), with which
// certificate (P31).
package route

import (
	"bufio"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/quic-go/quic-go"
	"golang.org/x/net/http2"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

var pool = []string{"h2", "http/1.1", "h3", "foo", "bar", "acme-x"}

// world is the set of upstream servers of one case and everything they saw.
type world struct {
	mu     sync.Mutex
	tokens map[string][]int // token -> backends that saw it
}

func (w *world) saw(tok string, id int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.tokens[tok] = append(w.tokens[tok], id)
}

type be struct {
	id    int
	mode  string
	names []string
	alpn  []string
	addr  string
	conns func() int64
}

func lineHandler(w *world, id int) func(io.ReadWriter) {
	return func(c io.ReadWriter) {
		br := bufio.NewReader(c)
		for {
			l, err := br.ReadString('\n')
			if err != nil {
				return
			}
			l = strings.TrimSpace(l)
			w.saw(l, id)
			fmt.Fprintf(c, "B%d ok:%s\n", id, l)
		}
	}
}

func httpHandler(w *world, id int) http.Handler {
	return http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		tok := req.Header.Get("X-Tok")
		w.saw(tok, id)
		fmt.Fprintf(rw, "B%d ok:%s\n", id, tok)
	})
}

// serve starts the upstream of a backend.
func (w *world) serve(t testing.TB, e *vp.Env, b *be) {
	st := e.ServerTLS(nil, "up.v.test")
	switch b.mode {
	case "TCP":
		s := vp.NewTCPServer(t, func(c net.Conn) { lineHandler(w, b.id)(c) })
		b.addr, b.conns = s.Addr, s.Conns.Load
	case "TLS", "TLSPASSTHROUGH":
		if b.mode == "TLSPASSTHROUGH" {
			st.Certificates = []tls.Certificate{e.Wild}
		}
		s := vp.NewTCPServer(t, vp.TLSServe(st, func(c *tls.Conn) { lineHandler(w, b.id)(c) }))
		b.addr, b.conns = s.Addr, s.Conns.Load
	case "HTTP":
		s := vp.NewHTTPServer(t, nil, httpHandler(w, b.id))
		b.addr = s.Addr
	case "HTTPS":
		st.NextProtos = []string{"http/1.1"}
		s := vp.NewHTTPServer(t, st, httpHandler(w, b.id))
		b.addr = s.Addr
	case "QUIC":
		st.NextProtos = pool
		s := vp.NewQUICServer(t, st, func(c quic.Connection) {
			for {
				s, err := c.AcceptStream(context.Background())
				if err != nil {
					return
				}
				go func() { lineHandler(w, b.id)(s); s.Close() }()
			}
		})
		b.addr, b.conns = s.Addr, s.Conns.Load
	}
}

func (b *be) backend() *proxy.Backend {
	return &proxy.Backend{
		ServerNames: slices.Clone(b.names), Mode: b.mode, ALPNProtos: vp.Ptr(slices.Clone(b.alpn)), Addresses: []string{b.addr},
		ForwardRateLimit: 100000, InsecureSkipVerify: true, ForwardServerName: "up.v.test", ForwardTimeout: 20 * time.Second,
	}
}

func isHTTP(b *be) bool { return b.mode == "HTTP" || b.mode == "HTTPS" }

// genBackends builds a random configuration with (name, ALPN) pairs used once.
func genBackends(i int, quicOn bool) []*be {
	r := vh.Rand("P01cfg", i)
	var names []string
	for k := 0; k < 3+r.Intn(4); k++ {
		names = append(names, fmt.Sprintf("n%d.v.test", k))
	}
	used := map[string]bool{}
	var out []*be
	nb := 3 + r.Intn(5)
	modes := []string{"TCP", "TLS", "TLSPASSTHROUGH", "HTTP", "HTTPS"}
	if quicOn {
		modes = append(modes, "QUIC")
	}
	for k := 0; k < nb; k++ {
		b := &be{id: k, mode: modes[r.Intn(len(modes))]}
		if k < len(modes) && r.Intn(2) == 0 {
			b.mode = modes[(k+i)%len(modes)]
		}
		nn := 1 + r.Intn(2)
		for _, x := range r.Perm(len(names))[:nn] {
			b.names = append(b.names, names[x])
		}
		cand := pool
		if isHTTP(b) {
			cand = []string{"h2", "http/1.1", "h3"}
		}
		want := 1 + r.Intn(3)
		for _, x := range r.Perm(len(cand)) {
			pr := cand[x]
			ok := true
			for _, n := range b.names {
				if used[n+"|"+pr] {
					ok = false
				}
			}
			if ok && len(b.alpn) < want {
				b.alpn = append(b.alpn, pr)
			}
		}
		if len(b.alpn) == 0 {
			continue
		}
		for _, n := range b.names {
			for _, pr := range b.alpn {
				used[n+"|"+pr] = true
			}
		}
		out = append(out, b)
	}
	return out
}

// expected is the routing specification.
func expected(bes []*be, sni, def string, protos []string, overQUIC bool) (b *be, handshake bool) {
	if sni == "" {
		if overQUIC {
			return nil, false
		}
		sni = def
	}
	for _, pr := range protos {
		for _, x := range bes {
			if slices.Contains(x.names, sni) && slices.Contains(x.alpn, pr) && !(overQUIC && x.mode == "TLSPASSTHROUGH") {
				b = x
				break
			}
		}
		if b != nil {
			break
		}
	}
	if b == nil && !overQUIC {
		for _, x := range bes {
			if slices.Contains(x.names, sni) {
				b = x
				break
			}
		}
	}
	if b == nil {
		return nil, false
	}
	return b, negotiated(b, protos, overQUIC) != "!"
}

// negotiated returns the protocol TLS must select ("!" when none can be).
func negotiated(b *be, protos []string, overQUIC bool) string {
	if b.mode == "TLSPASSTHROUGH" {
		return ""
	}
	var offer []string
	for _, pr := range b.alpn {
		if pr == "h3" && (!overQUIC || b.mode == "TCP" || b.mode == "TLS") {
			continue
		}
		offer = append(offer, pr)
	}
	if len(offer) == 0 || len(protos) == 0 {
		if overQUIC {
			return "!"
		}
		return ""
	}
	for _, s := range offer {
		if slices.Contains(protos, s) {
			return s
		}
	}
	if slices.Contains(offer, "h2") && slices.Contains(protos, "http/1.1") && !overQUIC {
		return ""
	}
	return "!"
}

// ask performs one HTTP/1.1 exchange on c.
func ask1(c net.Conn, host, tok string) (int, string, error) {
	c.SetDeadline(time.Now().Add(40 * time.Second))
	fmt.Fprintf(c, "GET /x HTTP/1.1\r\nHost: %s\r\nX-Tok: %s\r\n\r\n", host, tok)
	resp, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}

func ask2(c net.Conn, host, tok string) (int, string, error) {
	tr := &http2.Transport{}
	cc, err := tr.NewClientConn(c)
	if err != nil {
		return 0, "", err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	req, _ := http.NewRequestWithContext(ctx, "GET", "https://"+host+"/x", nil)
	req.Header.Set("X-Tok", tok)
	resp, err := cc.RoundTrip(req)
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}

type streamConn struct {
	quic.Stream
	c quic.Connection
}

func (s streamConn) LocalAddr() net.Addr  { return s.c.LocalAddr() }
func (s streamConn) RemoteAddr() net.Addr { return s.c.RemoteAddr() }

func TestP01(t *testing.T) {
	run := vh.New(t, "A case is one client attempt (server name, ALPN list, transport, Host) against one generated configuration; distinct non-trivial = distinct (backend mode and position, names shared or not, SNI kind, ALPN list, negotiated protocol, transport, Host kind, outcome).")
	e := vp.NewEnv(t)
	ncfg := vh.N(100, 1500)
	for i := 0; i < ncfg; i++ {
		p01case(t, run, e, i)
		for _, s := range vp.Log.TakePanics() {
			run.Violate("panic", s, "a connection handler panicked: %s", vh.Trunc(s, 300))
		}
	}
	run.NeedAtLeast("served", 100)
	run.NeedAtLeast("refused_unknown_name", 20)
	run.NeedAtLeast("misdirected_421", 5)
	run.NeedAtLeast("quic_served", 5)
}

func p01case(t *testing.T, run *vh.Run, e *vp.Env, i int) {
	quicOn := i%3 != 2
	bes := genBackends(i, quicOn)
	w := &world{tokens: map[string][]int{}}
	var pbs []*proxy.Backend
	for _, b := range bes {
		w.serve(t, e, b)
		pbs = append(pbs, b.backend())
	}
	cfg := e.Config(quicOn, pbs...)
	r := vh.Rand("P01", i)
	var names []string
	for _, b := range bes {
		for _, n := range b.names {
			if !slices.Contains(names, n) {
				names = append(names, n)
			}
		}
	}
	if r.Intn(3) > 0 {
		cfg.DefaultServerName = names[r.Intn(len(names))]
	}
	p := e.Start(cfg)
	defer p.End()

	type attempt struct {
		Tok, SNI, Kind, Host, HostKind string
		Protos                         []string
		QUIC                           bool
	}
	n := vh.N(48, 64)
	var atts []attempt
	for k := 0; k < n; k++ {
		a := attempt{Tok: fmt.Sprintf("t%d-%d", i, k)}
		switch x := r.Intn(10); {
		case x < 7:
			a.SNI, a.Kind = names[r.Intn(len(names))], "configured"
		case x < 9:
			a.SNI, a.Kind = []string{"other.v.test", "x." + names[0], "v.test", names[0] + "x", "n0.v.tes", "localhost"}[r.Intn(6)], "unconfigured"
		default:
			a.SNI, a.Kind = "", "none"
		}
		for _, x := range r.Perm(len(pool))[:r.Intn(4)] {
			a.Protos = append(a.Protos, pool[x])
		}
		a.QUIC = quicOn && r.Intn(3) == 0 && len(a.Protos) > 0
		a.HostKind = []string{"same", "same", "same", "other", "unknown", "sibling"}[r.Intn(6)]
		atts = append(atts, a)
	}
	var mu sync.Mutex
	want := map[string]int{} // token -> backend
	conns := map[int]int64{} // backend -> connections expected
	maybe := map[int]bool{}  // connection counts not comparable (retries)
	vh.Parallel(8, len(atts), func(k int) {
		a := atts[k]
		b, hs := expected(bes, a.SNI, cfg.DefaultServerName, a.Protos, a.QUIC)
		eff := a.SNI
		if eff == "" {
			eff = cfg.DefaultServerName
		}
		a.Host = eff
		hostOK := true
		if b != nil && isHTTP(b) {
			switch a.HostKind {
			case "other":
				for _, nm := range names {
					if !slices.Contains(b.names, nm) {
						a.Host, hostOK = nm, false
						break
					}
				}
			case "unknown":
				a.Host, hostOK = "evil.example.org", false
			case "sibling":
				a.Host = b.names[len(b.names)-1]
			}
		} else {
			a.HostKind = "-"
		}
		o := vp.ClientOpt{Protos: a.Protos, NoSNI: a.SNI == ""}
		fail := func(key, f string, args ...any) {
			run.Violate(key, map[string]any{"attempt": a, "backends": describe(bes), "default": cfg.DefaultServerName, "case": i}, f, args...)
		}
		outcome := ""
		var body string
		var status int
		var neg string
		var err error
		for try := 0; try < 3; try++ {
			status, body, neg, err = attemptOnce(p, b, hs, a.SNI, a.Host, a.Tok, a.QUIC, o)
			if try > 0 && b != nil {
				mu.Lock()
				maybe[b.id] = true
				mu.Unlock()
			}
			if err == nil || b == nil || !hs || (b.mode == "QUIC" && neg == "") {
				break
			}
		}
		switch {
		case b == nil:
			outcome = "refused"
			if err == nil {
				fail("served-unconfigured", "a connection for server name %q (ALPN %v, quic=%v), which no backend serves, completed its handshake", a.SNI, a.Protos, a.QUIC)
				break
			}
			if !a.QUIC {
				if !strings.Contains(err.Error(), "unrecognized name") {
					fail("wrong-refusal", "server name %q is not configured but the refusal was %q instead of an unrecognized_name alert", a.SNI, err)
				}
				run.Count("refused_unknown_name", 1)
			} else {
				run.Count("quic_refused", 1)
			}
		case !hs:
			outcome = "noalpn"
			if err == nil {
				fail("alpn-mismatch-served", "backend %d offers %v, client only %v, yet the handshake completed with %q", b.id, b.alpn, a.Protos, neg)
			}
			run.Count("no_common_alpn", 1)
		case b.mode == "QUIC" && neg == "":
			// QUIC needs an ALPN protocol: such a connection cannot be forwarded.
			outcome = "noquicalpn"
			if err == nil {
				fail("wrong-backend", "a connection without ALPN was answered by a QUIC backend: %q", body)
			}
		case err != nil:
			outcome = "failed"
			fail("not-served", "server name %q ALPN %v quic=%v must be served by backend %d (%s) but failed: %v", a.SNI, a.Protos, a.QUIC, b.id, b.mode, err)
		default:
			if wantNeg := negotiated(b, a.Protos, a.QUIC); neg != wantNeg && b.mode != "TLSPASSTHROUGH" {
				fail("wrong-alpn", "negotiated %q, expected %q (backend %d offers %v, client %v)", neg, wantNeg, b.id, b.alpn, a.Protos)
			}
			mu.Lock()
			conns[b.id]++
			mu.Unlock()
			if isHTTP(b) && !hostOK {
				outcome = "421"
				run.Count("misdirected_421", 1)
				if status != 421 {
					fail("misdirected", "connection for %q, Host %q: status %d instead of 421", eff, a.Host, status)
				}
				break
			}
			outcome = "served"
			mu.Lock()
			want[a.Tok] = b.id
			mu.Unlock()
			run.Count("served", 1)
			if a.QUIC {
				run.Count("quic_served", 1)
			}
			run.Count("served_mode_"+b.mode, 1)
			if !strings.HasPrefix(body, fmt.Sprintf("B%d ok:%s", b.id, a.Tok)) {
				fail("wrong-backend", "server name %q ALPN %v quic=%v: expected backend %d (%s), got answer %q (status %d)", a.SNI, a.Protos, a.QUIC, b.id, b.mode, vh.Trunc(body, 100), status)
			}
		}
		mode, shared := "-", false
		if b != nil {
			mode = fmt.Sprintf("%s%d", b.mode, b.id)
			for _, x := range bes {
				if x != b && slices.Contains(x.names, eff) {
					shared = true
				}
			}
		}
		run.Eval(true, mode, shared, a.Kind, strings.Join(a.Protos, ","), neg, a.QUIC, a.HostKind, outcome)
		if k == 3 {
			run.Sample(map[string]any{"attempt": a, "expected": mode, "outcome": outcome, "negotiated": neg, "answer": vh.Trunc(body, 60)})
		}
	})
	// Offline check of everything the upstreams saw.
	w.mu.Lock()
	defer w.mu.Unlock()
	for tok, ids := range w.tokens {
		for _, id := range ids {
			if exp, ok := want[tok]; !ok || exp != id {
				run.Violate("leak", map[string]any{"token": tok, "backend": id, "expected": exp, "backends": describe(bes)}, "backend %d received data of client %s, which should only have reached backend %d (known=%v)", id, tok, exp, ok)
			}
		}
	}
	for _, b := range bes {
		if b.conns == nil || maybe[b.id] {
			continue
		}
		if got := b.conns(); got != conns[b.id] && b.mode != "QUIC" {
			run.Violate("extra-connections", map[string]any{"backend": b.id, "backends": describe(bes)}, "backend %d (%s) saw %d connections, but only %d clients were routed to it", b.id, b.mode, got, conns[b.id])
		}
		run.Count("upstream_conns_checked", 1)
	}
}

func describe(bes []*be) []string {
	var s []string
	for _, b := range bes {
		s = append(s, fmt.Sprintf("%d:%s names=%v alpn=%v", b.id, b.mode, b.names, b.alpn))
	}
	return s
}

func attemptOnce(p *vp.P, b *be, hs bool, sni, host, tok string, q bool, o vp.ClientOpt) (status int, body, neg string, err error) {
	var c net.Conn
	if q {
		qc, cl, err := p.DialQUIC(sni, o)
		if err != nil {
			return 0, "", "", err
		}
		defer cl()
		neg = qc.ConnectionState().TLS.NegotiatedProtocol
		if b == nil || !hs {
			return 0, "", neg, nil
		}
		if neg == "h3" && isHTTP(b) {
			s, bd, err := ask3(qc, host, tok)
			return s, bd, neg, err
		}
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		defer cancel()
		s, err := qc.OpenStreamSync(ctx)
		if err != nil {
			return 0, "", neg, err
		}
		c = streamConn{s, qc}
	} else {
		tc, err := p.Dial(sni, o)
		if err != nil {
			return 0, "", "", err
		}
		defer tc.Close()
		neg = tc.ConnectionState().NegotiatedProtocol
		c = tc
		if b == nil || !hs {
			return 0, "", neg, nil
		}
	}
	if isHTTP(b) {
		if neg == "h2" && !q {
			status, body, err = ask2(c, host, tok)
		} else {
			status, body, err = ask1(c, host, tok)
		}
		return status, body, neg, err
	}
	c.SetDeadline(time.Now().Add(40 * time.Second))
	if _, err := fmt.Fprintf(c, "%s\n", tok); err != nil {
		return 0, "", neg, err
	}
	body, err = bufio.NewReader(c).ReadString('\n')
	if errors.Is(err, io.EOF) && body != "" {
		err = nil
	}
	return 0, body, neg, err
}

package httpx

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

var ppSig = []byte("\r\n\r\n\x00\r\nQUIT\n")

// ppHdr is a PROXY protocol header.
type ppHdr struct {
	Ver      int
	Cmd      string // PROXY, LOCAL, UNKNOWN (v1)
	Net      string // tcp4, tcp6, udp4, udp6
	Src, Dst string
	TLV      map[byte]string
}

// readPP reads one header, following the specification.
func readPP(r *bufio.Reader) (*ppHdr, error) {
	b, err := r.Peek(1)
	if err != nil {
		return nil, err
	}
	if b[0] == 'P' {
		line, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		if !strings.HasSuffix(line, "\r\n") || len(line) > 107 {
			return nil, fmt.Errorf("bad v1 line %q", line)
		}
		f := strings.Split(strings.TrimSuffix(line, "\r\n"), " ")
		if f[0] != "PROXY" || len(f) < 2 {
			return nil, fmt.Errorf("bad v1 line %q", line)
		}
		if f[1] == "UNKNOWN" {
			return &ppHdr{Ver: 1, Cmd: "UNKNOWN"}, nil
		}
		if len(f) != 6 || f[1] != "TCP4" && f[1] != "TCP6" {
			return nil, fmt.Errorf("bad v1 line %q", line)
		}
		return &ppHdr{Ver: 1, Cmd: "PROXY", Net: strings.ToLower(f[1]), Src: net.JoinHostPort(f[2], f[4]), Dst: net.JoinHostPort(f[3], f[5])}, nil
	}
	h := make([]byte, 16)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, fmt.Errorf("short header: %v", err)
	}
	if !bytes.Equal(h[:12], ppSig) {
		return nil, fmt.Errorf("not a PROXY header: %q", h)
	}
	if h[12]>>4 != 2 {
		return nil, fmt.Errorf("version %d", h[12]>>4)
	}
	p := &ppHdr{Ver: 2, TLV: map[byte]string{}}
	switch h[12] & 15 {
	case 0:
		p.Cmd = "LOCAL"
	case 1:
		p.Cmd = "PROXY"
	default:
		return nil, fmt.Errorf("command %d", h[12]&15)
	}
	body := make([]byte, binary.BigEndian.Uint16(h[14:]))
	if _, err := io.ReadFull(r, body); err != nil {
		return nil, err
	}
	al := 0
	switch h[13] >> 4 {
	case 1:
		al = 4
	case 2:
		al = 16
	default:
		return p, nil
	}
	if len(body) < 2*al+4 {
		return nil, errors.New("short addresses")
	}
	p.Net = map[byte]string{1: "tcp", 2: "udp"}[h[13]&15] + map[int]string{4: "4", 16: "6"}[al]
	p.Src = net.JoinHostPort(net.IP(body[:al]).String(), strconv.Itoa(int(binary.BigEndian.Uint16(body[2*al:]))))
	p.Dst = net.JoinHostPort(net.IP(body[al:2*al]).String(), strconv.Itoa(int(binary.BigEndian.Uint16(body[2*al+2:]))))
	rest := body[2*al+4:]
	for len(rest) > 0 {
		if len(rest) < 3 || len(rest) < 3+int(binary.BigEndian.Uint16(rest[1:])) {
			return nil, errors.New("bad TLV")
		}
		n := int(binary.BigEndian.Uint16(rest[1:]))
		p.TLV[rest[0]] = string(rest[3 : 3+n])
		rest = rest[3+n:]
	}
	return p, nil
}

func ppV1(src, dst string) []byte {
	sh, sp, _ := net.SplitHostPort(src)
	dh, dp, _ := net.SplitHostPort(dst)
	fam := "TCP4"
	if strings.Contains(sh, ":") {
		fam = "TCP6"
	}
	return []byte(fmt.Sprintf("PROXY %s %s %s %s %s\r\n", fam, sh, dh, sp, dp))
}

func ppV2(cmd byte, fam byte, src, dst string, tlv []byte) []byte {
	b := append([]byte{}, ppSig...)
	b = append(b, 0x20|cmd, fam)
	var body []byte
	if fam == 0x11 || fam == 0x21 || fam == 0x12 || fam == 0x22 {
		sh, sp, _ := net.SplitHostPort(src)
		dh, dp, _ := net.SplitHostPort(dst)
		for _, h := range []string{sh, dh} {
			ip := net.ParseIP(h)
			if fam>>4 == 1 {
				body = append(body, ip.To4()...)
			} else {
				body = append(body, ip.To16()...)
			}
		}
		for _, p := range []string{sp, dp} {
			n, _ := strconv.Atoi(p)
			body = binary.BigEndian.AppendUint16(body, uint16(n))
		}
	} else if fam>>4 == 3 {
		body = make([]byte, 216)
		copy(body, "/tmp/src")
		copy(body[108:], "/tmp/dst")
	}
	body = append(body, tlv...)
	b = binary.BigEndian.AppendUint16(b, uint16(len(body)))
	return append(b, body...)
}

// ppConn is one connection accepted by a monitored upstream.
type ppConn struct {
	net.Conn
	br   *bufio.Reader
	want int
	once sync.Once
	hdr  *ppHdr
	err  error
	run  *vh.Run
	name string
}

func (c *ppConn) header() (*ppHdr, error) {
	c.once.Do(func() {
		c.br = bufio.NewReader(c.Conn)
		c.SetReadDeadline(time.Now().Add(60 * time.Second))
		defer c.SetReadDeadline(time.Time{})
		if c.want > 0 {
			if _, err := c.br.Peek(1); err != nil {
				c.err = io.EOF // closed without a word
				return
			}
			c.hdr, c.err = readPP(c.br)
			if c.err != nil {
				c.run.Violate("header", map[string]any{"upstream": c.name}, "upstream %s received a bad PROXY header: %v", c.name, c.err)
				return
			}
			c.run.Count(fmt.Sprintf("headers-v%d", c.hdr.Ver), 1)
			if c.hdr.Ver != c.want {
				c.run.Violate("version", map[string]any{"upstream": c.name, "got": c.hdr}, "upstream %s is configured for v%d and received v%d", c.name, c.want, c.hdr.Ver)
			}
		}
		// No (second) header.
		b, _ := c.br.Peek(6)
		if string(b) == "PROXY " || bytes.HasPrefix(ppSig, b) && len(b) > 4 {
			c.run.Violate("extra-header", map[string]any{"upstream": c.name, "bytes": fmt.Sprintf("%q", b)}, "upstream %s received an unexpected PROXY header", c.name)
			c.err = errors.New("unexpected header")
		}
	})
	return c.hdr, c.err
}

func (c *ppConn) Read(b []byte) (int, error) {
	if _, err := c.header(); err != nil {
		return 0, err
	}
	return c.br.Read(b)
}

type ppListener struct {
	net.Listener
	run  *vh.Run
	want int
	name string
	n    atomic.Int64
}

func (l *ppListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	l.n.Add(1)
	return &ppConn{Conn: c, want: l.want, run: l.run, name: l.name}, nil
}

type ppKey struct{}

// TestP09: PROXY protocol on both sides.
func TestP09(t *testing.T) {
	run := vh.New(t, "A case is one client connection (trusted or not, with some PROXY header) and what it does; observations are the PROXY headers parsed at the upstreams and the requests that arrived on the same upstream connection. Distinct non-trivial = distinct (backend, client kind, header kind, addresses).")
	e := vp.NewEnv(t)
	var mu sync.Mutex
	served := map[string]string{} // token -> address that the upstream was told
	nconn := map[string]int{}
	note := func(tok string, h *ppHdr, upstream string) {
		mu.Lock()
		defer mu.Unlock()
		if h != nil {
			served[tok] = h.Src
		} else {
			served[tok] = "none"
		}
		nconn[upstream]++
	}
	listen := func(name string, ver int) *ppListener {
		l, err := net.Listen("tcp", vp.IP()+":0")
		if err != nil {
			t.Fatal(err)
		}
		t.Cleanup(func() { l.Close() })
		return &ppListener{Listener: l, run: run, want: ver, name: name}
	}
	checkTLV := func(h *ppHdr, sni string, name string) {
		if h == nil || h.Ver != 2 {
			return
		}
		if h.TLV[2] != sni {
			run.Violate("authority", map[string]any{"header": h, "sni": sni}, "the authority TLV is %q for server name %q", h.TLV[2], sni)
		}
	}
	// Raw upstreams: read "<token> <sni>\n", answer "ok".
	rawUp := func(name string, ver int, tc *tls.Config) string {
		l := listen(name, ver)
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					defer c.Close()
					pc := c.(*ppConn)
					var rw net.Conn = pc
					if tc != nil {
						rw = tls.Server(pc, tc)
					}
					rw.SetDeadline(time.Now().Add(60 * time.Second))
					line, err := bufio.NewReader(rw).ReadString('\n')
					if err != nil {
						return
					}
					f := strings.Fields(line)
					h, _ := pc.header()
					if len(f) == 2 {
						note(f[0], h, name)
						checkTLV(h, f[1], name)
					}
					io.WriteString(rw, "ok "+name+"\n")
				}()
			}
		}()
		return l.Addr().String()
	}
	reuse := map[*ppConn]map[string]bool{}
	httpUp := func(name string, ver int, tc *tls.Config) string {
		l := listen(name, ver)
		h := http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			pc := req.Context().Value(ppKey{}).(*ppConn)
			hd, _ := pc.header()
			tok, cl := req.Header.Get(tokHeader), req.Header.Get("X-V-Client")
			note(tok, hd, name)
			mu.Lock()
			if reuse[pc] == nil {
				reuse[pc] = map[string]bool{}
			} else {
				run.Count("requests-on-reused-connections", 1)
			}
			reuse[pc][cl] = true
			n := len(reuse[pc])
			mu.Unlock()
			if ver > 0 && n > 1 && hd.Src != "" {
				run.Violate("shared", map[string]any{"upstream": name, "header": hd, "clients": reuse[pc]}, "one connection to %s, announced for %s, carried the requests of %d clients", name, hd.Src, n)
			}
			if hd != nil {
				checkTLV(hd, strings.Split(req.Host, ":")[0], name)
			}
			io.Copy(io.Discard, req.Body)
			if req.Header.Get("X-V-Slow") != "" {
				time.Sleep(time.Duration(len(req.Header.Get("X-V-Slow"))) * time.Millisecond)
			}
			io.WriteString(w, "ok "+name)
		})
		s := &http.Server{ConnContext: func(ctx context.Context, c net.Conn) context.Context {
			if tc, ok := c.(*tls.Conn); ok {
				c = tc.NetConn()
			}
			return context.WithValue(ctx, ppKey{}, c)
		}, Handler: h}
		if tc == nil {
			s.Handler = h2c.NewHandler(h, &http2.Server{})
			go s.Serve(l)
		} else {
			s.TLSConfig = tc
			http2.ConfigureServer(s, &http2.Server{})
			go s.Serve(tls.NewListener(l, tc))
		}
		t.Cleanup(func() { s.Close() })
		return l.Addr().String()
	}
	upTLS := e.ServerTLS([]string{"h2", "http/1.1"}, "up.v.test")
	alpn := &[]string{"h2", "http/1.1", "h3"}
	type spec struct {
		name, mode string
		ver        int
		proto      string
		http       bool
		raw        *tls.Config
	}
	specs := []spec{}
	for v := 0; v <= 2; v++ {
		specs = append(specs, spec{fmt.Sprintf("t%d.v.test", v), "TCP", v, "", false, nil},
			spec{fmt.Sprintf("l%d.v.test", v), "TLS", v, "", false, e.ServerTLS(nil, "up.v.test")},
			spec{fmt.Sprintf("q%d.v.test", v), "TLSPASSTHROUGH", v, "", false, e.ServerTLS(nil, fmt.Sprintf("q%d.v.test", v))},
			spec{fmt.Sprintf("h%d.v.test", v), "HTTP", v, "http/1.1", true, nil},
			spec{fmt.Sprintf("c%d.v.test", v), "HTTP", v, "h2", true, nil},
			spec{fmt.Sprintf("s%d.v.test", v), "HTTPS", v, "http/1.1", true, upTLS},
			spec{fmt.Sprintf("m%d.v.test", v), "HTTPS", v, "h2", true, upTLS})
	}
	vers := []string{"", "v1", "v2"}
	var bes []*proxy.Backend
	for _, s := range specs {
		be := &proxy.Backend{ServerNames: []string{s.name}, Mode: s.mode, ProxyProtocolVersion: vers[s.ver]}
		if s.http {
			be.ALPNProtos = alpn
			be.BackendProto = vp.Ptr(s.proto)
			be.Addresses = []string{httpUp(s.name, s.ver, s.raw)}
			ov := (s.ver + 1) % 3
			be.PathOverrides = []*proxy.PathOverride{{Paths: []string{"/o/"}, Addresses: []string{httpUp("o-"+s.name, ov, s.raw)}, ProxyProtocolVersion: vers[ov], ForwardServerName: "up.v.test", ForwardRootCAs: []string{e.CA.PEM}, BackendProto: vp.Ptr(s.proto)}}
		} else {
			be.Addresses = []string{rawUp(s.name, s.ver, s.raw)}
		}
		if s.mode == "TLS" || s.mode == "HTTPS" {
			be.ForwardServerName, be.ForwardRootCAs = "up.v.test", []string{e.CA.PEM}
		}
		bes = append(bes, be)
	}
	cfg := e.Config(true, bes...)
	cfg.AcceptProxyHeaderFrom = []string{"127.77.1.0/24", "127.77.2.7/32"}
	p := e.Start(cfg)
	defer p.End()

	trusted := func(ip string) bool { return strings.HasPrefix(ip, "127.77.1.") || ip == "127.77.2.7" }
	ips := []string{"127.77.1.1", "127.77.1.2", "127.77.1.255", "127.77.2.7", "127.77.2.6", "127.77.2.8", "127.77.0.255", "127.78.1.1", "127.0.0.1"}
	h3addr := map[string]*http.Client{}
	for _, ip := range ips[:3] {
		c, closer := p.H3Client(vp.ClientOpt{LocalIP: ip})
		defer closer()
		h3addr[ip] = c
	}
	genAddr := func(r *rand.Rand, six bool) string {
		port := 1 + r.Intn(65535)
		if six {
			return fmt.Sprintf("[2001:db8::%x]:%d", 1+r.Intn(0xfffe), port)
		}
		return fmt.Sprintf("%d.%d.%d.%d:%d", 1+r.Intn(223), r.Intn(256), r.Intn(256), 1+r.Intn(254), port)
	}
	n := vh.N(12000, 150000)
	vh.Parallel(24, n, func(i int) {
		r := vh.Rand("P09", i)
		s := specs[r.Intn(len(specs))]
		ip := ips[r.Intn(len(ips))]
		six := r.Intn(3) == 0
		claim, cdst := genAddr(r, six), genAddr(r, six)
		fam := byte(0x11)
		if six {
			fam = 0x21
		}
		var before []byte
		kind := ""
		claims := "" // the address that the header announces
		maybe := false
		switch r.Intn(12) {
		case 0, 1:
			kind = "none"
		case 2, 3, 4:
			kind, before, claims = "v1", ppV1(claim, cdst), claim
		case 5, 6, 7:
			kind, before, claims = "v2", ppV2(1, fam, claim, cdst, nil), claim
		case 8:
			kind, before, claims = "v2-tlv", ppV2(1, fam, claim, cdst, []byte{0x02, 0, 4, 'e', 'v', 'i', 'l', 0xE0, 0, 1, 0}), claim
		case 9:
			kind, before, maybe = "v1-unknown", []byte("PROXY UNKNOWN\r\n"), true
		case 10:
			kind, before, maybe = "v2-local", ppV2(0, 0, "", "", nil), true
		case 11:
			maybe = true
			bad := [][]byte{ppV2(1, 0, "", "", nil), ppV2(1, 0x31, "", "", nil), ppV2(0, fam, claim, cdst, nil), []byte("PROXY TCP4 1.2.3.4\r\n"), []byte("PROXY TCP4 a b 1 2\r\n"), []byte("PROXY TCP4 1.2.3.4 5.6.7.8 1 70000\r\n"),
				append(ppV1(claim, cdst), ppV1(genAddr(r, six), cdst)...), ppV2(3, fam, claim, cdst, nil), append(append([]byte{}, ppSig...), 0x31, 0x11, 0, 0), ppV2(1, 0x12, "9.9.9.9:99", "8.8.8.8:88", nil)}
			k := r.Intn(len(bad))
			kind, before = fmt.Sprintf("bad-%d", k), bad[k]
			if k == 9 {
				claims, maybe = "9.9.9.9:99", true
			}
		}
		isTrusted := trusted(ip)
		tok := fmt.Sprintf("pp%d", i)
		h3 := s.http && r.Intn(8) == 0
		rep := map[string]any{"backend": s.name, "mode": s.mode, "version": s.ver, "peer": ip, "trusted": isTrusted, "kind": kind, "header": fmt.Sprintf("%q", before), "h3": h3}
		nreq := 1
		var toks []string
		var self string
		ok := 0
		over := false
		if h3 {
			kind, before, claims, maybe = "h3", nil, "", false
			ip = ips[r.Intn(3)]
			self = ip // the port of the UDP socket is not known here
			req, _ := http.NewRequest("GET", "https://"+s.name+"/h3", nil)
			req.Header.Set(tokHeader, tok)
			req.Header.Set("X-V-Client", "h3-"+ip)
			toks = []string{tok}
			resp, err := h3addr[ip].Do(req)
			if err == nil {
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				if resp.StatusCode == 200 {
					ok++
				}
			}
		} else {
			tc, err := p.TCP(ip)
			if err != nil {
				run.Inconclusive("dial: %v", err)
				return
			}
			defer tc.Close()
			tc.SetDeadline(time.Now().Add(60 * time.Second))
			self = tc.LocalAddr().String()
			if len(before) > 0 {
				tc.Write(before)
			}
			o := vp.ClientOpt{}
			h2 := false
			if s.http {
				h2 = r.Intn(2) == 0
				o.Protos = []string{"http/1.1"}
				if h2 {
					o.Protos = []string{"h2"}
				}
			}
			c := tls.Client(tc, p.TLSConfig(s.name, o))
			me := self
			if claims != "" && isTrusted {
				me = claims
			}
			if err := c.Handshake(); err == nil {
				if s.http {
					nreq = 1 + r.Intn(6)
					done := false
					var rt http.RoundTripper = &http.Transport{DialTLSContext: func(context.Context, string, string) (net.Conn, error) {
						if done {
							return nil, errors.New("one connection only")
						}
						done = true
						return c, nil
					}, DisableCompression: true, MaxConnsPerHost: 1}
					if h2 {
						cc, err := (&http2.Transport{}).NewClientConn(c)
						if err != nil {
							run.Inconclusive("h2: %v", err)
							return
						}
						rt = cc
					}
					cl := &http.Client{Transport: rt, Timeout: 60 * time.Second}
					over = r.Intn(3) == 0
					var wg sync.WaitGroup
					var okn atomic.Int32
					one := func(k int) {
						path := "/x"
						if over {
							path = "/o/x"
						}
						req, _ := http.NewRequest("GET", "https://"+s.name+path, nil)
						req.Header.Set(tokHeader, fmt.Sprintf("%s-%d", tok, k))
						req.Header.Set("X-V-Client", me)
						if r2 := vh.Rand("P09s", i*100+k); r2.Intn(3) == 0 {
							req.Header.Set("X-V-Slow", strings.Repeat("x", 1+r2.Intn(30)))
						}
						resp, err := cl.Do(req)
						if err == nil {
							io.Copy(io.Discard, resp.Body)
							resp.Body.Close()
							if resp.StatusCode == 200 {
								okn.Add(1)
							}
						}
					}
					for k := 0; k < nreq; k++ {
						toks = append(toks, fmt.Sprintf("%s-%d", tok, k))
						if h2 {
							wg.Add(1)
							go func() { defer wg.Done(); one(k) }()
						} else {
							one(k)
						}
					}
					wg.Wait()
					ok = int(okn.Load())
				} else {
					toks = []string{tok}
					fmt.Fprintf(c, "%s %s\n", tok, s.name)
					b, _ := io.ReadAll(c)
					if strings.HasPrefix(string(b), "ok ") {
						ok++
					}
				}
			}
		}
		run.Count("clients", 1)
		run.Eval(true, s.name, ip, kind, claims, over)
		ver := s.ver
		if over {
			ver = (s.ver + 1) % 3
		}
		rep["self"], rep["claims"], rep["ok"] = self, claims, ok
		expect := self
		mustServe := true
		switch {
		case kind == "h3" || kind == "none":
		case !isTrusted:
			mustServe = false // garbage in front of TLS
			expect = "nobody"
		case maybe:
			mustServe = false
			if claims != "" {
				expect = claims
			}
		default:
			expect = claims
		}
		if kind == "v1-unknown" && isTrusted || kind == "v2-local" && isTrusted {
			mustServe = true // health checks of the load balancer
		}
		mu.Lock()
		defer mu.Unlock()
		for _, tk := range toks {
			got, there := served[tk]
			delete(served, tk)
			if !there {
				continue
			}
			run.Count("served", 1)
			if expect == "nobody" {
				run.Violate("untrusted-served", rep, "a connection from the untrusted peer %s with a PROXY header was served", ip)
				return
			}
			switch {
			case ver == 0:
				if got != "none" {
					run.Violate("header-sent", rep, "a backend without the PROXY protocol got %q", got)
				}
			case kind == "h3":
				gh, _, _ := net.SplitHostPort(got)
				if gh != self && !(ver == 1 && got == "") {
					run.Violate("wrong-client", rep, "the backend was told that the client is %q; it is %s", got, self)
				}
				run.Count("addresses-checked", 1)
			case got != expect:
				if kind == "bad-9" && (got == self || got == "" && ver == 1) {
					return
				}
				run.Violate("wrong-client", rep, "the backend was told that the client is %q; it is %s", got, expect)
			default:
				run.Count("addresses-checked", 1)
			}
		}
		if mustServe && ok != nreq {
			run.Violate("refused", rep, "only %d of %d requests of a legitimate client were served", ok, nreq)
		}
		if isTrusted {
			run.Count("trusted", 1)
		} else if len(before) > 0 {
			run.Count("untrusted-with-header", 1)
		}
	})
	for _, pn := range vp.Log.TakePanics() {
		run.Violate("panic", pn, "a handler panicked: %s", vh.Trunc(pn, 300))
	}
	run.NeedAtLeast("addresses-checked", n/4)
	run.NeedAtLeast("untrusted-with-header", n/20)
	run.NeedAtLeast("requests-on-reused-connections", n/20)
}

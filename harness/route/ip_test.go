package route

import (
	"bufio"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/netip"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	proxyproto "github.com/pires/go-proxyproto"
	"github.com/quic-go/quic-go"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

var p08nets = []string{"127.0.0.0/8", "127.81.0.0/16", "127.81.4.0/22", "127.81.5.7/32", "127.81.6.0/31", "127.82.128.0/17", "10.0.0.0/8", "10.1.2.0/24",
	"203.0.113.64/26", "0.0.0.0/0", "::/0", "2001:db8::/32", "2001:db8:1::/48", "2001:db8::1/128", "fe80::/10", "::ffff:10.1.0.0/112", "::ffff:127.81.5.0/120", "0.0.0.0/1", "128.0.0.0/1"}

var p08direct = []string{"127.81.4.1", "127.81.5.7", "127.81.5.8", "127.81.6.1", "127.81.6.2", "127.82.128.1", "127.82.127.255", "127.0.0.1", "127.81.7.255", "127.81.8.0"}
var p08announced = []string{"10.1.2.3", "10.1.3.3", "10.255.0.1", "11.0.0.1", "203.0.113.63", "203.0.113.64", "203.0.113.127", "203.0.113.128", "2001:db8::1", "2001:db8::2",
	"2001:db8:1::5", "2001:db9::1", "fe80::1", "::1", "::ffff:10.1.2.3", "127.81.5.7", "200.1.1.1"}

func inNets(list []string, ip netip.Addr) bool {
	ip = ip.Unmap()
	for _, c := range list {
		pfx := netip.MustParsePrefix(c)
		if pfx.Addr().Is4In6() {
			pfx = netip.PrefixFrom(pfx.Addr().Unmap(), pfx.Bits()-96)
		}
		if pfx.Masked().Contains(ip) {
			return true
		}
	}
	return false
}

const p08trusted = "127.90.0.9"

func TestP08(t *testing.T) {
	run := vh.New(t, "A case is one connection (client address, how it is known, mode, transport) against one generated allow/deny rule set; distinct non-trivial = distinct (rules, client address, source of address, mode, transport).")
	e := vp.NewEnv(t)
	doc := filepath.Join(e.Dir, "doc")
	vh.MustWrite(t, filepath.Join(doc, "x"), []byte("LOCALFILE"))
	for i := 0; i < vh.N(60, 800); i++ {
		p08case(t, run, e, i, doc)
		for _, s := range vp.Log.TakePanics() {
			run.Violate("panic", s, "a connection handler panicked: %s", vh.Trunc(s, 300))
		}
	}
	run.NeedAtLeast("allowed", 100)
	run.NeedAtLeast("denied", 100)
	run.NeedAtLeast("announced", 50)
	run.NeedAtLeast("quic", 10)
}

func p08case(t *testing.T, run *vh.Run, e *vp.Env, i int, doc string) {
	r := vh.Rand("P08", i)
	w := &world{tokens: map[string][]int{}}
	modes := []string{"TCP", "TLS", "TLSPASSTHROUGH", "HTTP", "HTTPS", "QUIC", "LOCAL"}
	var bes []*be
	var pbs []*proxy.Backend
	rules := map[int][2]*[]string{}
	pick := func(n int) *[]string {
		var l []string
		for _, x := range r.Perm(len(p08nets))[:n] {
			l = append(l, p08nets[x])
		}
		return &l
	}
	for k, m := range modes {
		b := &be{id: k, mode: m, names: []string{fmt.Sprintf("n%d.v.test", k)}, alpn: []string{"h3", "http/1.1", "foo"}}
		if m == "LOCAL" {
			b.conns = nil
		} else {
			w.serve(t, e, b)
		}
		pb := b.backend()
		if m == "LOCAL" {
			pb.Addresses, pb.ForwardServerName, pb.DocumentRoot = nil, "", doc
		}
		switch r.Intn(5) {
		case 0:
			pb.AllowIPs = pick(r.Intn(4))
		case 1:
			pb.DenyIPs = pick(r.Intn(4))
		default:
			pb.AllowIPs, pb.DenyIPs = pick(1+r.Intn(5)), pick(r.Intn(3))
		}
		rules[k] = [2]*[]string{pb.AllowIPs, pb.DenyIPs}
		bes, pbs = append(bes, b), append(pbs, pb)
	}
	cfg := e.Config(true, pbs...)
	cfg.AcceptProxyHeaderFrom = []string{p08trusted + "/32"}
	p := e.Start(cfg)
	defer p.End()
	type att struct {
		Backend   int
		Peer, Ann string
		V         int
		QUIC      bool
	}
	var atts []att
	for k := 0; k < vh.N(60, 80); k++ {
		a := att{Backend: r.Intn(len(bes))}
		switch r.Intn(5) {
		case 0, 1:
			a.Peer = p08direct[r.Intn(len(p08direct))]
		case 2:
			a.Peer, a.QUIC = p08direct[r.Intn(len(p08direct))], true
		default:
			a.Peer, a.Ann, a.V = p08trusted, p08announced[r.Intn(len(p08announced))], 1+r.Intn(2)
			if r.Intn(8) == 0 {
				a.Ann = "" // trusted peer that does not announce anything
			}
		}
		if a.QUIC && bes[a.Backend].mode == "TLSPASSTHROUGH" {
			a.QUIC = false
		}
		atts = append(atts, a)
	}
	var mu sync.Mutex
	served := map[int]int64{}
	retried := map[int]bool{}
	vh.Parallel(8, len(atts), func(k int) {
		a := atts[k]
		b := bes[a.Backend]
		src := a.Peer
		if a.Ann != "" {
			src = a.Ann
		}
		ip := netip.MustParseAddr(src)
		al, de := rules[a.Backend][0], rules[a.Backend][1]
		ok := !(de != nil && inNets(*de, ip)) && (al == nil || inNets(*al, ip))
		tok := fmt.Sprintf("t%d-%d", i, k)
		o := vp.ClientOpt{LocalIP: a.Peer, Protos: []string{"http/1.1"}}
		if b.mode == "QUIC" {
			o.Protos = []string{"foo"}
		}
		if a.QUIC {
			o.Protos = []string{"foo"}
			if isHTTP(b) || b.mode == "LOCAL" {
				o.Protos = []string{"h3"}
			}
		}
		if a.Ann != "" {
			h := proxyproto.HeaderProxyFromAddrs(byte(a.V), &net.TCPAddr{IP: net.ParseIP(src), Port: 1234}, dstFor(src))
			var sb strings.Builder
			if _, err := h.WriteTo(&sb); err != nil {
				run.Inconclusive("header: %v", err)
				return
			}
			o.Before = []byte(sb.String())
		}
		var body string
		var err error
		for try := 0; try < 3; try++ {
			_, body, _, err = ipAttempt(p, b, b.names[0], tok, a.QUIC, o)
			if err == nil || !ok {
				break
			}
			mu.Lock()
			retried[a.Backend] = true
			mu.Unlock()
		}
		rep := map[string]any{"attempt": a, "mode": b.mode, "allow": al, "deny": de, "client": src}
		if ok {
			run.Count("allowed", 1)
			if err != nil || !(strings.HasPrefix(body, fmt.Sprintf("B%d ok:%s", b.id, tok)) || (b.mode == "LOCAL" && body == "LOCALFILE")) {
				run.Violate("allowed-refused", rep, "client %s is admitted by the rules of backend %d (%s) but got %q %v", src, b.id, b.mode, body, err)
			}
			mu.Lock()
			served[b.id]++
			mu.Unlock()
		} else {
			run.Count("denied", 1)
			if err == nil || body != "" {
				run.Violate("denied-served", rep, "client %s is not admitted by the rules of backend %d (%s) but was answered %q", src, b.id, b.mode, body)
			}
			w.mu.Lock()
			if len(w.tokens[tok]) > 0 {
				run.Violate("denied-forwarded", rep, "data of refused client %s reached backend %d (%s)", src, b.id, b.mode)
			}
			w.mu.Unlock()
		}
		if a.Ann != "" {
			run.Count("announced", 1)
		}
		if a.QUIC {
			run.Count("quic", 1)
		}
		run.Eval(true, fmt.Sprint(deref(al)), fmt.Sprint(deref(de)), src, a.Ann != "", b.mode, a.QUIC)
		if k == 2 {
			run.Sample(map[string]any{"case": rep, "admitted": ok, "answer": body, "error": fmt.Sprint(err)})
		}
	})
	for _, b := range bes {
		if b.conns == nil || retried[b.id] || b.mode == "QUIC" {
			continue
		}
		if got := b.conns(); got != served[b.id] {
			run.Violate("extra-connections", map[string]any{"backend": b.id, "mode": b.mode}, "backend %d (%s) saw %d connections but only %d clients were admitted", b.id, b.mode, got, served[b.id])
		}
	}
}

func dstFor(src string) net.Addr {
	if a := netip.MustParseAddr(src); a.Is6() && !a.Is4In6() {
		return &net.TCPAddr{IP: net.ParseIP("2001:db8:ffff::1"), Port: 443}
	}
	return &net.TCPAddr{IP: net.ParseIP("192.0.2.1"), Port: 443}
}

func deref(l *[]string) []string {
	if l == nil {
		return []string{"nil"}
	}
	return *l
}

func ipAttempt(p *vp.P, b *be, sni, tok string, q bool, o vp.ClientOpt) (int, string, string, error) {
	bb := *b
	if bb.mode == "LOCAL" {
		bb.mode = "HTTP"
	}
	st, body, neg, err := attemptOnce(p, &bb, true, sni, sni, tok, q, o)
	var app *quic.ApplicationError
	if errors.As(err, &app) && st == 0 {
		return st, "", neg, err
	}
	return st, body, neg, err
}

// ---------------------------------------------------------------- P06

func TestP06(t *testing.T) {
	run := vh.New(t, "A case is one batch of clients against a backend (or path override) with several addresses, some of them dead; distinct non-trivial = distinct (mode, addresses, dead set, concurrency, override).")
	e := vp.NewEnv(t)
	for i := 0; i < vh.N(48, 600); i++ {
		p06case(t, run, e, i)
	}
	run.NeedAtLeast("clients", 500)
	run.NeedAtLeast("failover_clients", 100)
	run.NeedAtLeast("all_dead_refused", 3)
}

func p06case(t *testing.T, run *vh.Run, e *vp.Env, i int) {
	r := vh.Rand("P06", i)
	mode := []string{"TCP", "TLS", "HTTP", "TLSPASSTHROUGH", "HTTPS", "OVERRIDE", "QUIC"}[i%7]
	na := 2 + r.Intn(4)
	kind := i / 7 % 3 // 0: all healthy, 1: some dead, 2: all dead but sometimes
	w := &world{tokens: map[string][]int{}}
	var addrs []string
	var ups []*be
	dead := 0
	for k := 0; k < na; k++ {
		isDead := (kind == 1 && (r.Intn(2) == 0 || k == 0) && !(k == na-1 && dead == k)) || (kind == 2 && i%2 == 0)
		b := &be{id: k, mode: mode}
		if mode == "OVERRIDE" {
			b.mode = "HTTP"
		}
		if isDead {
			dead++
			addrs = append(addrs, vp.IP()+":7009")
			ups = append(ups, nil)
			continue
		}
		if isHTTP(b) {
			var tc *tls.Config
			if b.mode == "HTTPS" {
				tc = e.ServerTLS([]string{"http/1.1"}, "up.v.test")
			}
			s := vp.NewTCPServer(t, func(c net.Conn) {
				if tc != nil {
					tl := tls.Server(c, tc)
					if tl.Handshake() != nil {
						return
					}
					c = tl
				}
				br := bufio.NewReader(c)
				tok := ""
				for {
					l, err := br.ReadString('\n')
					if err != nil {
						return
					}
					if l = strings.TrimSpace(l); l == "" {
						break
					}
					if v, ok := strings.CutPrefix(l, "X-Tok: "); ok {
						tok = v
					}
				}
				w.saw(tok, b.id)
				bd := fmt.Sprintf("B%d ok:%s\n", b.id, tok)
				fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(bd), bd)
			})
			b.addr, b.conns = s.Addr, s.Conns.Load
		} else {
			w.serve(t, e, b)
		}
		addrs = append(addrs, b.addr)
		ups = append(ups, b)
	}
	spec := &be{id: 0, mode: mode, names: []string{"n.v.test"}, alpn: []string{"http/1.1", "foo"}}
	if mode == "OVERRIDE" {
		spec.mode = "HTTP"
	}
	pb := spec.backend()
	pb.Addresses = addrs
	pb.ForwardTimeout = 3 * time.Second
	path := "/x"
	var main []*vp.HTTPServer
	if mode == "OVERRIDE" {
		other := vp.NewHTTPServer(t, nil, httpHandler(w, 99))
		// The three routes have rotations of different lengths; they must
		// not affect each other.
		for k := 0; k <= r.Intn(5); k++ {
			main = append(main, vp.NewHTTPServer(t, nil, httpHandler(w, 98)))
		}
		pb.Addresses = nil
		for _, s := range main {
			pb.Addresses = append(pb.Addresses, s.Addr)
		}
		pb.PathOverrides = []*proxy.PathOverride{{Paths: []string{"/y/"}, Addresses: []string{other.Addr}}, {Paths: []string{"/x/"}, Addresses: addrs, ForwardTimeout: 3 * time.Second}}
		path = "/x/q"
	}
	p := e.Start(e.Config(true, pb))
	defer p.End()
	workers := []int{1, 8, 32}[r.Intn(3)]
	if i%2 == 0 && kind == 1 {
		workers = 32
	}
	n := na * vh.N(12, 20)
	if mode == "QUIC" && dead > 0 {
		n = na * 3 // an unanswered UDP dial takes the whole timeout
	}
	proto := "http/1.1"
	if mode == "QUIC" {
		proto = "foo"
	}
	rep := map[string]any{"mode": mode, "addresses": na, "dead": dead, "workers": workers, "case": i}
	vh.Parallel(workers, n, func(k int) {
		if mode == "OVERRIDE" {
			// Traffic on the other routes of the same backend.
			for q, other := range []string{"/y/", "/", "/z"}[:k%4] {
				tok := fmt.Sprintf("n%d-%d-%d", i, k, q)
				hc := p.HTTPClient(vp.ClientOpt{Protos: []string{"http/1.1"}})
				req, _ := http.NewRequest("GET", "https://n.v.test"+other, nil)
				req.Header.Set("X-Tok", tok)
				resp, err := hc.Do(req)
				var bd []byte
				if err == nil {
					bd, _ = io.ReadAll(resp.Body)
					resp.Body.Close()
				}
				hc.CloseIdleConnections()
				want := "B98 ok:" + tok
				if q == 0 {
					want = "B99 ok:" + tok
				}
				if !strings.Contains(string(bd), want) {
					run.Violate("other-route", map[string]any{"path": other, "addresses": na, "main": len(main), "case": i}, "a request for %s, whose addresses are all healthy, was answered %v %q", other, err, bd)
				}
				run.Count("other_route_requests", 1)
			}
		}
		tok := fmt.Sprintf("t%d-%d", i, k)
		c, err := p.Dial("n.v.test", vp.ClientOpt{Protos: []string{proto}})
		body := ""
		if err == nil {
			defer c.Close()
			c.SetDeadline(time.Now().Add(60 * time.Second))
			if isHTTP(spec) {
				fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: n.v.test\r\nX-Tok: %s\r\n\r\n", path, tok)
				br := bufio.NewReader(c)
				for {
					l, err := br.ReadString('\n')
					if err != nil {
						break
					}
					if strings.HasPrefix(l, "B") {
						body = l
						break
					}
					if strings.HasPrefix(l, "HTTP/1.1 5") {
						break
					}
				}
			} else {
				fmt.Fprintf(c, "%s\n", tok)
				body, _ = bufio.NewReader(c).ReadString('\n')
			}
		}
		run.Count("clients", 1)
		ok := strings.Contains(body, "ok:"+tok)
		switch {
		case dead == na:
			if ok {
				run.Violate("served-by-nobody", rep, "every address is dead, yet a client got %q", body)
			}
			run.Count("all_dead_refused", 1)
		case !ok:
			run.Violate("healthy-address-not-used", rep, "a client was refused (%v, %q) although %d of %d addresses are healthy", err, body, na-dead, na)
		case dead > 0:
			run.Count("failover_clients", 1)
		}
	})
	var counts []int64
	for _, u := range ups {
		if u != nil {
			counts = append(counts, u.conns())
		}
	}
	if dead == 0 {
		mn, mx := counts[0], counts[0]
		for _, c := range counts {
			mn, mx = min(mn, c), max(mx, c)
		}
		if mx-mn > 1 {
			run.Violate("uneven", rep, "all addresses are healthy but connection counts are %v", counts)
		}
		run.Count("rotation_checks", 1)
	}
	run.Eval(true, mode, len(main), na, dead, workers, fmt.Sprint(addrs == nil))
	run.Sample(map[string]any{"case": rep, "connections_per_healthy_address": counts})
	_ = context.Background
}

// ---------------------------------------------------------------- P31

func TestP31(t *testing.T) {
	run := vh.New(t, "A case is one handshake; distinct non-trivial = distinct (configuration, server name, transport, generation of the certificate file).")
	e := vp.NewEnv(t)
	for i := 0; i < vh.N(24, 200); i++ {
		p31case(t, run, e, i)
	}
	run.NeedAtLeast("handshakes", 300)
	run.NeedAtLeast("rotated", 5)
	run.NeedAtLeast("certmanager", 20)
}

func p31case(t *testing.T, run *vh.Run, e *vp.Env, i int) {
	r := vh.Rand("P31", i)
	dir, _ := os.MkdirTemp(e.Dir, "certs")
	w := &world{tokens: map[string][]int{}}
	names := []string{"a.v.test", "b.v.test", "c.v.test", "d.v.test", "www.x.test", "mail.x.test", "x.test", "cm1.other", "cm2.other"}
	type entry struct {
		Pats []string
		gen  int
		crt  string
		key  string
		cn   string
	}
	cands := [][]string{{"a.v.test"}, {"b.v.test", "c.v.test"}, {"*.v.test"}, {"*.x.test", "x.test"}, {"www.x.test"}, {"?.v.test"}, {"d.v.test", "mail.x.test"}, {"[cd].v.test"}}
	var ents []*entry
	write := func(k int, en *entry) {
		en.gen++
		en.cn = fmt.Sprintf("cert-%d-%d-g%d", i, k, en.gen)
		var dns []string
		for _, n := range names {
			if firstMatch([][]string{en.Pats}, n) == 0 {
				dns = append(dns, n)
			}
		}
		en.crt, en.key = vp.WritePair(t, dir, fmt.Sprintf("c%d", k), e.CA.Issue(vp.CN(en.cn), vp.DNS(dns...)))
	}
	var pats [][]string
	for _, x := range r.Perm(len(cands))[:2+r.Intn(5)] {
		en := &entry{Pats: cands[x]}
		write(len(ents), en)
		ents = append(ents, en)
		pats = append(pats, en.Pats)
	}
	var pbs []*proxy.Backend
	for k, n := range names {
		b := &be{id: k, mode: []string{"TCP", "HTTP"}[k%2], names: []string{n}, alpn: []string{"http/1.1", "h3"}}
		w.serve(t, e, b)
		pb := b.backend()
		if k%2 == 0 {
			pb.ALPNProtos = &[]string{"http/1.1", "q"}
		}
		pbs = append(pbs, pb)
	}
	cfg := e.Config(true, pbs...)
	cfg.TLSCertificates = nil
	for _, en := range ents {
		cfg.TLSCertificates = append(cfg.TLSCertificates, &proxy.TLSCertificate{ServerNames: en.Pats, CertFile: en.crt, KeyFile: en.key})
	}
	cfg.DefaultServerName = names[r.Intn(len(names))]
	p := e.Start(cfg)
	defer p.End()
	cm := e.CMPool()
	both := e.CMPool()
	both.AddCert(e.CA.Cert)
	for round := 0; round < 3; round++ {
		vh.Parallel(8, vh.N(24, 40), func(k int) {
			rr := vh.Rand("P31c", i*1000+round*100+k)
			x := rr.Intn(len(names) + 1)
			sni, eff := "", cfg.DefaultServerName
			if x < len(names) {
				sni, eff = names[x], names[x]
			}
			q := rr.Intn(3) == 0 && sni != ""
			o := vp.ClientOpt{Protos: []string{"http/1.1"}, Pool: both, NoSNI: sni == ""}
			if rr.Intn(4) == 0 {
				o.Max = tls.VersionTLS12
			}
			var cs tls.ConnectionState
			var err error
			if q {
				o.Max = 0
				o.Protos = []string{"h3", "q"}
				qc, cl, e2 := p.DialQUIC(sni, o)
				if err = e2; err == nil {
					cs = qc.ConnectionState().TLS
					cl()
				}
			} else {
				c, e2 := p.Dial(sni, o)
				if err = e2; err == nil {
					cs = c.ConnectionState()
					c.Close()
				}
			}
			rep := map[string]any{"sni": sni, "patterns": pats, "quic": q, "default": cfg.DefaultServerName, "round": round}
			if err != nil {
				run.Violate("no-certificate", rep, "handshake for %q failed: %v", sni, err)
				return
			}
			leaf := cs.PeerCertificates[0]
			run.Count("handshakes", 1)
			want := firstMatch(pats, eff)
			run.Eval(true, i, eff, sni == "", q, round, o.Max)
			if want < 0 {
				run.Count("certmanager", 1)
				if err := leaf.VerifyHostname(eff); err != nil || leaf.Issuer.CommonName == e.CA.Cert.Subject.CommonName {
					run.Violate("wrong-certificate", rep, "name %q matches no configured certificate, but got %q issued by %q (%v)", eff, leaf.Subject.CommonName, leaf.Issuer, err)
				}
				_ = cm
				return
			}
			if leaf.Subject.CommonName != ents[want].cn {
				run.Violate("wrong-certificate", rep, "name %q: expected configured certificate %d (%s), got %q %v", eff, want, ents[want].cn, leaf.Subject.CommonName, leaf.DNSNames)
			}
			if err := leaf.VerifyHostname(eff); err != nil {
				run.Violate("certificate-not-valid", rep, "name %q: %v", eff, err)
			}
			if k == 0 {
				run.Sample(map[string]any{"case": rep, "certificate": leaf.Subject.CommonName})
			}
		})
		// replace one certificate on disk between the rounds
		k := r.Intn(len(ents))
		write(k, ents[k])
		run.Count("rotated", 1)
	}
}

// firstMatch is an independent matcher for the shell patterns used above.
func firstMatch(pats [][]string, name string) int {
	for i, l := range pats {
		for _, p := range l {
			if shMatch(p, name) {
				return i
			}
		}
	}
	return -1
}

func shMatch(p, s string) bool {
	if p == "" {
		return s == ""
	}
	switch p[0] {
	case '*':
		for k := 0; k <= len(s); k++ {
			if shMatch(p[1:], s[k:]) {
				return true
			}
		}
		return false
	case '?':
		return s != "" && shMatch(p[1:], s[1:])
	case '[':
		end := strings.IndexByte(p, ']')
		return s != "" && strings.IndexByte(p[1:end], s[0]) >= 0 && shMatch(p[end+1:], s[1:])
	}
	return s != "" && s[0] == p[0] && shMatch(p[1:], s[1:])
}

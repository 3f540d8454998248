package httpx

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync/atomic"
	"testing"
	"time"

	"github.com/quic-go/quic-go/http3"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// startBoth serves h1 and h2 on TCP and h3 on UDP at the same address.
func startBoth(t *testing.T, e *vp.Env, rec *recorder, name string) string {
	s := vp.NewHTTPServer(t, fwdTLS(e), rec.handler(name))
	ua, err := net.ResolveUDPAddr("udp", s.Addr)
	if err != nil {
		t.Fatal(err)
	}
	uc, err := net.ListenUDP("udp", ua)
	if err != nil {
		t.Fatal(err)
	}
	h3 := &http3.Server{Handler: rec.handler(name), TLSConfig: http3.ConfigureTLSConfig(e.ServerTLS([]string{"h3"}, "up.v.test"))}
	go h3.Serve(uc)
	t.Cleanup(func() { h3.Close(); uc.Close() })
	return s.Addr
}

// p04loop points backends at the proxy itself and checks that the resulting
// loops end with 508 after a bounded number of hops.
func p04loop(t *testing.T, run *vh.Run, e *vp.Env) {
	addr := vp.IP() + ":10443"
	mk := func(name, fwd string, proto string) *proxy.Backend {
		return &proxy.Backend{ServerNames: []string{name}, Mode: "HTTPS", Addresses: []string{addr}, ForwardServerName: fwd, ForwardRootCAs: []string{e.CA.PEM}, BackendProto: vp.Ptr(proto),
			ForwardHTTPHeaders: map[string]string{"Host": fwd}, ForwardTimeout: 30 * time.Second}
	}
	cfg := e.Config(false, mk("self.v.test", "self.v.test", "http/1.1"), mk("l1.v.test", "l2.v.test", "h2"), mk("l2.v.test", "l1.v.test", "http/1.1"))
	cfg.TLSAddr = addr
	p := e.Start(cfg)
	defer p.End()
	for _, host := range []string{"self.v.test", "l1.v.test", "l2.v.test"} {
		for _, hdr := range []string{"", "Via", "Connection"} {
			c := p.HTTPClient(vp.ClientOpt{Protos: []string{"http/1.1"}})
			req, _ := http.NewRequest("GET", "https://"+host+"/loop", nil)
			switch hdr {
			case "Via":
				req.Header.Set("Via", "1.1 x")
			case "Connection":
				req.Header.Set("Connection", "Via")
			}
			resp, err := c.Do(req)
			rep := map[string]any{"host": host, "header": hdr}
			run.Eval(true, "loop", host, hdr)
			if err != nil {
				run.Violate("loop", rep, "loop: %v", err)
				continue
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			run.Count("loops-refused", 1)
			if resp.StatusCode != 508 {
				run.Violate("loop", rep, "a forwarding loop ended with status %d instead of 508", resp.StatusCode)
			}
			c.CloseIdleConnections()
		}
	}
}

// p04upgrade checks the byte streams of upgraded connections.
func p04upgrade(t *testing.T, run *vh.Run, e *vp.Env) {
	var hits atomic.Int64
	h := http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		hits.Add(1)
		if req.Header.Get("Upgrade") != "echo" {
			http.Error(w, "no upgrade: "+fmt.Sprint(req.Header), 400)
			return
		}
		c, brw, err := http.NewResponseController(w).Hijack()
		if err != nil {
			return
		}
		defer c.Close()
		fmt.Fprintf(c, "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: echo\r\nX-R: %s\r\n\r\nhello", req.Header.Get("X-V-1"))
		io.Copy(c, brw)
	})
	up := vp.NewHTTPServer(t, nil, h)
	ups := vp.NewHTTPServer(t, e.ServerTLS([]string{"http/1.1"}, "up.v.test"), h)
	p := e.Start(e.Config(false,
		&proxy.Backend{ServerNames: []string{"u1.v.test"}, Mode: "HTTP", Addresses: []string{up.Addr}},
		&proxy.Backend{ServerNames: []string{"u2.v.test"}, Mode: "HTTPS", Addresses: []string{ups.Addr}, ForwardServerName: "up.v.test", ForwardRootCAs: []string{e.CA.PEM}},
	))
	defer p.End()
	vh.Parallel(4, vh.N(24, 200), func(i int) {
		host := []string{"u1.v.test", "u2.v.test"}[i%2]
		rep := map[string]any{"host": host, "i": i}
		c, err := p.Dial(host, vp.ClientOpt{Protos: []string{"http/1.1"}})
		if err != nil {
			run.Violate("upgrade", rep, "%v", err)
			return
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(60 * time.Second))
		conn := []string{"Upgrade", "upgrade", "keep-alive, Upgrade"}[i%3]
		fmt.Fprintf(c, "GET /x HTTP/1.1\r\nHost: %s\r\nConnection: %s\r\nUpgrade: echo\r\nX-V-1: %d\r\n\r\n", host, conn, i)
		br := bufio.NewReader(c)
		resp, err := http.ReadResponse(br, nil)
		run.Eval(true, "upgrade", host, conn, i)
		if err != nil || resp.StatusCode != 101 || resp.Header.Get("X-R") != fmt.Sprint(i) {
			run.Violate("upgrade", rep, "upgrade refused: %v %v", resp, err)
			return
		}
		r := vh.Rand("P04u", i)
		data := make([]byte, 1+r.Intn(300000))
		r.Read(data)
		go func() {
			for o := 0; o < len(data); {
				n := min(len(data)-o, 1+r.Intn(50000))
				c.Write(data[o : o+n])
				o += n
			}
		}()
		got := make([]byte, 5+len(data))
		if n, err := io.ReadFull(br, got); err != nil || !bytes.Equal(got, append([]byte("hello"), data...)) {
			run.Violate("upgrade-bytes", rep, "upgraded stream of %d bytes returned %d, %v, equal=%v", len(data), n, err, bytes.Equal(got, append([]byte("hello"), data...)))
		}
		run.Count("upgrades", 1)
	})
	_ = tls.VersionTLS12
}

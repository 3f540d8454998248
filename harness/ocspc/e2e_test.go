//go:build goexperiment.synctest

package ocspc

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"net"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// TestP28E2E checks that the running proxy asks, for clients and for backends.
func TestP28E2E(t *testing.T) {
	r := vh.New(t, "connections with certificates that name a responder")
	rs := &responder{script: map[string]answer{}}
	srv := httptest.NewUnstartedServer(rs)
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	defer srv.Close()
	e := vp.NewEnv(t)
	w := newWorld(srv.URL, vh.Rand("p28w", 0))
	rootPEM := string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: w.root.cert.Raw}))

	var mu sync.Mutex
	var got bytes.Buffer
	var upCert *tls.Certificate
	sink := func(c net.Conn) {
		defer c.Close()
		b := make([]byte, 1000)
		for {
			n, err := c.Read(b)
			mu.Lock()
			got.Write(b[:n])
			mu.Unlock()
			if n > 0 {
				c.Write([]byte("ack"))
			}
			if err != nil {
				return
			}
		}
	}
	plain := vp.NewTCPServer(t, sink)
	utc := &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) {
		mu.Lock()
		defer mu.Unlock()
		return upCert, nil
	}}
	secure := vp.NewTCPServer(t, vp.TLSServe(utc, func(c *tls.Conn) { sink(c) }))
	cfg := e.Config(true,
		&proxy.Backend{ServerNames: []string{"c.v.test"}, Mode: "TCP", Addresses: []string{plain.Addr}, ClientAuth: &proxy.ClientAuth{RootCAs: []string{rootPEM}}, ALPNProtos: &[]string{"foo"}},
		&proxy.Backend{ServerNames: []string{"u.v.test"}, Mode: "TLS", Addresses: []string{secure.Addr}, ForwardServerName: "up.v.test", ForwardRootCAs: []string{rootPEM}},
	)
	p := e.Start(cfg)
	defer p.End()
	for i := range vh.N(160, 2000) {
		rnd := vh.Rand("p28e", i)
		kind := kinds[rnd.Intn(len(kinds))]
		status := []int{ocsp.Good, ocsp.Good, ocsp.Revoked, ocsp.Unknown}[rnd.Intn(4)]
		if kind == "leaf" {
			status = ocsp.Good
		}
		where := []string{"client", "backend", "quic"}[rnd.Intn(3)]
		s := &subject{issuer: w.root, servers: 1}
		s.ent = newEnt("up.v.test", w.root, nil, func(t *x509.Certificate) {
			t.OCSPServer = []string{srv.URL + "/0"}
			t.DNSNames = []string{"up.v.test"}
		})
		a := w.make(rnd, s, kind, status)
		rs.mu.Lock()
		rs.script = map[string]answer{s.cert.SerialNumber.String() + "/0": a}
		rs.asked = nil
		rs.mu.Unlock()
		cert := tls.Certificate{Certificate: [][]byte{s.cert.Raw}, PrivateKey: s.key, Leaf: s.cert}
		stapled := false
		if k := kinds[rnd.Intn(len(kinds))]; rnd.Intn(3) == 0 && k != "drop" && k != "http500" && k != "empty" && k != "direct" && k != "delegated" && k != "nonext" {
			// never a valid one
			cert.OCSPStaple = w.make(rnd, s, k, ocsp.Good).Raw
			stapled = true
		}
		want := a.Valid && status == ocsp.Good
		token := fmt.Sprintf("<token %d>", i)
		mu.Lock()
		got.Reset()
		upCert = &cert
		mu.Unlock()
		// A second connection uses what was learned by the first.
		for j := range 2 {
			ack := func() string {
				if where == "quic" {
					qc, cleanup, err := p.DialQUIC("c.v.test", vp.ClientOpt{Certs: []tls.Certificate{cert}, Protos: []string{"foo"}})
					if err != nil {
						return ""
					}
					defer cleanup()
					st, err := qc.OpenStream()
					if err != nil {
						return ""
					}
					st.Write([]byte(token))
					st.SetReadDeadline(time.Now().Add(20 * time.Second))
					b := make([]byte, 3)
					io.ReadFull(st, b)
					qc.CloseWithError(0, "")
					return strings.TrimRight(string(b), "\x00")
				}
				host, opt := "c.v.test", vp.ClientOpt{Certs: []tls.Certificate{cert}, Protos: []string{"foo"}}
				if where == "backend" {
					host, opt = "u.v.test", vp.ClientOpt{}
				}
				c, err := p.Dial(host, opt)
				if err != nil {
					return ""
				}
				defer c.Close()
				c.SetDeadline(time.Now().Add(20 * time.Second))
				c.Write([]byte(token))
				b := make([]byte, 3)
				io.ReadFull(c, b)
				return strings.TrimRight(string(b), "\x00")
			}()
			mu.Lock()
			reached := strings.Contains(got.String(), token)
			mu.Unlock()
			rs.mu.Lock()
			asked := len(rs.asked)
			rs.mu.Unlock()
			desc := fmt.Sprintf("%s certificate, responder says %s status %d, stapled=%v, connection %d", where, kind, status, stapled, j)
			r.Eval(true, where, kind, status, stapled)
			if (reached || ack != "") && !want {
				r.Violate("accepted-"+where, nil, "data went through: %s", desc)
			}
			if want && (!reached || ack != "ack") {
				r.Violate("rejected-"+where, vp.Log.Tail(30), "no data went through: %s", desc)
			}
			if asked == 0 {
				r.Violate("not-asked-"+where, nil, "the responder was not asked: %s", desc)
			}
			if want {
				r.Count("through_"+where, 1)
			} else {
				r.Count("refused_"+where, 1)
			}
		}
	}
	for _, k := range []string{"client", "backend", "quic"} {
		r.NeedAtLeast("through_"+k, 5)
		r.NeedAtLeast("refused_"+k, 5)
	}
}

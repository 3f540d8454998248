// Package vp drives the real proxy, from the outside: it starts it through its
// exported API, and gives the harnesses clients, upstream servers, certificates
// and access to what the proxy logs.
package vp

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/crypto"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
	"golang.org/x/net/http2"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
)

// ---------------------------------------------------------------- logging

// LogBuf keeps the proxy's log output so that monitors can look at it.
type LogBuf struct {
	mu     sync.Mutex
	buf    bytes.Buffer
	Panics []string
	Lines  int
	Watch  func(string) // sees everything that is logged
}

var Log = &LogBuf{}

func (l *LogBuf) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Lines++
	s := string(b)
	if l.Watch != nil {
		l.Watch(s)
	}
	if strings.Contains(s, "PANIC") || strings.Contains(s, "panic serving") || strings.Contains(s, "http2: panic") {
		if !strings.Contains(s, "net/http: abort Handler") && len(l.Panics) < 200 {
			l.Panics = append(l.Panics, vh.Trunc(s, 4000))
		}
	}
	if l.buf.Len() > 4<<20 {
		l.buf.Reset()
	}
	l.buf.Write(b)
	return len(b), nil
}

// SetWatch gives everything that is logged from now on to f.
func (l *LogBuf) SetWatch(f func(string)) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Watch = f
}

// TakePanics returns and clears the panic reports found in the log.
func (l *LogBuf) TakePanics() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	p := l.Panics
	l.Panics = nil
	return p
}

func (l *LogBuf) Tail(n int) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	b := l.buf.Bytes()
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func init() {
	// The proxy samples every allocation; that would only slow the monitors down.
	runtime.MemProfileRate = 512 * 1024
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(Log)
	}
}

// ---------------------------------------------------------------- addresses

var ipCounter atomic.Int32

// IP returns a loopback address nothing else in this process uses. The second
// octet depends on the process so that concurrent runs do not collide.
func IP() string {
	n := ipCounter.Add(1)
	return fmt.Sprintf("127.%d.%d.%d", 10+os.Getpid()%200, 1+n/250, 1+n%250)
}

// ---------------------------------------------------------------- certificates

type CA struct {
	Cert *x509.Certificate
	Key  *ecdsa.PrivateKey
	PEM  string
	mu   sync.Mutex
}

var serial atomic.Int64

func init() { serial.Store(time.Now().UnixNano()) }

func NewCA(name string) *CA {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	templ := &x509.Certificate{
		SerialNumber: big.NewInt(serial.Add(1)), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
		KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign | x509.KeyUsageDigitalSignature, BasicConstraintsValid: true, IsCA: true,
	}
	der, err := x509.CreateCertificate(rand.Reader, templ, templ, key.Public(), key)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(der)
	return &CA{Cert: c, Key: key, PEM: string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))}
}

// CertOpts modifies the template of an issued certificate.
type CertOpts func(*x509.Certificate)

func (ca *CA) Issue(opts ...CertOpts) tls.Certificate {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	templ := &x509.Certificate{
		SerialNumber: big.NewInt(serial.Add(1)),
		NotBefore:    time.Now().Add(-time.Hour), NotAfter: time.Now().Add(100 * time.Hour),
		KeyUsage:              x509.KeyUsageDigitalSignature,
		ExtKeyUsage:           []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		BasicConstraintsValid: true,
	}
	for _, o := range opts {
		o(templ)
	}
	der, err := x509.CreateCertificate(rand.Reader, templ, ca.Cert, key.Public(), ca.Key)
	if err != nil {
		panic(err)
	}
	leaf, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key, Leaf: leaf}
}

func DNS(names ...string) CertOpts {
	return func(c *x509.Certificate) {
		c.DNSNames = append(c.DNSNames, names...)
	}
}

func CN(name string) CertOpts {
	return func(c *x509.Certificate) { c.Subject.CommonName = name }
}

func Email(e ...string) CertOpts {
	return func(c *x509.Certificate) { c.EmailAddresses = append(c.EmailAddresses, e...) }
}

func URI(s ...string) CertOpts {
	return func(c *x509.Certificate) {
		for _, x := range s {
			u, err := url.Parse(x)
			if err != nil {
				panic(err)
			}
			c.URIs = append(c.URIs, u)
		}
	}
}

func (ca *CA) Pool() *x509.CertPool {
	p := x509.NewCertPool()
	p.AddCert(ca.Cert)
	return p
}

// WritePair stores cert and key as PEM files.
func WritePair(t testing.TB, dir, name string, c tls.Certificate) (certFile, keyFile string) {
	var b bytes.Buffer
	for _, d := range c.Certificate {
		pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: d})
	}
	certFile = vh.MustWrite(t, filepath.Join(dir, name+".crt"), b.Bytes())
	kb, err := x509.MarshalPKCS8PrivateKey(c.PrivateKey)
	if err != nil {
		t.Fatal(err)
	}
	keyFile = vh.MustWrite(t, filepath.Join(dir, name+".key"), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb}))
	return
}

// ---------------------------------------------------------------- proxy

const Domain = "v.test"

// Env is a CA, a wildcard certificate for *.v.test, and a scratch directory.
type Env struct {
	T        testing.TB
	Dir      string
	CA       *CA
	CertFile string
	KeyFile  string
	Wild     tls.Certificate
}

func NewEnv(t testing.TB) *Env {
	e := &Env{T: t, Dir: vh.Work(t), CA: NewCA("verif-ca")}
	e.Wild = e.CA.Issue(CN("wild"), DNS("*."+Domain, Domain, "*.a."+Domain, "*.b."+Domain))
	e.CertFile, e.KeyFile = WritePair(t, e.Dir, "wild", e.Wild)
	// Share one certificate-manager CA between all the proxies of the process.
	os.Setenv("CERTMANAGER_STATE_FILE", filepath.Join(e.Dir, "cm-state.pem"))
	if _, err := os.Stat(filepath.Join(e.Dir, "cm-state.pem")); err != nil {
		key, err := rsa.GenerateKey(rand.Reader, 2048)
		if err != nil {
			t.Fatal(err)
		}
		now := time.Now()
		templ := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "cm"}, NotBefore: now, NotAfter: now.Add(time.Hour * 1000),
			KeyUsage: x509.KeyUsageCertSign, BasicConstraintsValid: true, IsCA: true, DNSNames: []string{"cm"}}
		der, err := x509.CreateCertificate(rand.Reader, templ, templ, key.Public(), key)
		if err != nil {
			t.Fatal(err)
		}
		kb, _ := x509.MarshalPKCS8PrivateKey(key)
		var b bytes.Buffer
		pem.Encode(&b, &pem.Block{Type: "PRIVATE KEY", Bytes: kb})
		pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: der})
		vh.MustWrite(t, filepath.Join(e.Dir, "cm-state.pem"), b.Bytes())
	}
	return e
}

// CMPool returns the CA pool of the test certificate manager.
func (e *Env) CMPool() *x509.CertPool {
	b, err := os.ReadFile(filepath.Join(e.Dir, "cm-state.pem"))
	if err != nil {
		e.T.Fatal(err)
	}
	p := x509.NewCertPool()
	p.AppendCertsFromPEM(b)
	return p
}

// P is a running proxy.
type P struct {
	*proxy.Proxy
	Env   *Env
	Addr  string // host:port of the TLS and QUIC listener
	Cfg   *proxy.Config
	canc  context.CancelFunc
	ended atomic.Bool
}

func Ptr[T any](v T) *T { return &v }

// Config fills in what every harness needs.
func (e *Env) Config(quic bool, bes ...*proxy.Backend) *proxy.Config {
	dir, err := os.MkdirTemp(e.Dir, "cache")
	if err != nil {
		e.T.Fatal(err)
	}
	for _, be := range bes {
		if be.ForwardRateLimit == 0 {
			be.ForwardRateLimit = 100000
		}
	}
	return &proxy.Config{
		TLSAddr: IP() + ":10443", CacheDir: dir, EnableQUIC: Ptr(quic), MaxOpen: 5000,
		TLSCertificates: []*proxy.TLSCertificate{{ServerNames: []string{"*"}, CertFile: e.CertFile, KeyFile: e.KeyFile}},
		Backends:        bes,
	}
}

func (e *Env) New(cfg *proxy.Config) (*P, error) {
	for _, be := range cfg.Backends {
		if be.ForwardRateLimit == 0 {
			be.ForwardRateLimit = 100000
		}
	}
	p, err := proxy.NewTestProxy(cfg)
	if err != nil {
		return nil, err
	}
	return &P{Proxy: p, Env: e, Addr: cfg.TLSAddr, Cfg: cfg}, nil
}

// Start runs a proxy with cfg.
func (e *Env) Start(cfg *proxy.Config) *P {
	e.T.Helper()
	p, err := e.TryStart(cfg)
	if err != nil {
		e.T.Fatalf("can't start: %v", err)
	}
	return p
}

// TryStart is like Start.
func (e *Env) TryStart(cfg *proxy.Config) (*P, error) {
	p, err := e.New(cfg)
	if err != nil {
		return nil, err
	}
	var ctx context.Context
	ctx, p.canc = context.WithCancel(context.Background())
	return p, p.Proxy.Start(ctx)
}

// End stops the proxy.
func (p *P) End() {
	if p.ended.CompareAndSwap(false, true) {
		p.canc()
		p.Proxy.Stop()
	}
}

// Store opens the proxy's own data store (same directory and master key).
func OpenStore(t testing.TB, cacheDir string) *storage.Storage {
	dir := filepath.Join(cacheDir, "test")
	mk, err := crypto.ReadMasterKey([]byte("test"), filepath.Join(dir, "masterkey"), crypto.WithAlgo(crypto.PickFastest))
	if err != nil {
		t.Fatalf("masterkey: %v", err)
	}
	return storage.New(dir, mk)
}

// Tokens returns a token manager that uses the same keys as the proxy.
func (p *P) Tokens() *tokenmanager.TokenManager {
	tm, err := tokenmanager.New(OpenStore(p.Env.T, p.Cfg.CacheDir), nil, nil)
	if err != nil {
		p.Env.T.Fatalf("tokenmanager: %v", err)
	}
	return tm
}

// ---------------------------------------------------------------- clients

type ClientOpt struct {
	LocalIP string
	Certs   []tls.Certificate
	Protos  []string
	Min     uint16
	Max     uint16
	Cache   tls.ClientSessionCache
	Before  []byte // written on the TCP connection before TLS
	NoSNI   bool
	Pool    *x509.CertPool
	Ciphers []uint16
}

func (p *P) TLSConfig(sni string, o ClientOpt) *tls.Config {
	pool := o.Pool
	if pool == nil {
		pool = p.Env.CA.Pool()
	}
	tc := &tls.Config{ServerName: sni, RootCAs: pool, Certificates: o.Certs, NextProtos: o.Protos,
		MinVersion: o.Min, MaxVersion: o.Max, ClientSessionCache: o.Cache}
	if o.NoSNI || sni == "" {
		tc.ServerName = ""
		tc.InsecureSkipVerify = true
	}
	return tc
}

// TCP opens a plain TCP connection to the proxy.
func (p *P) TCP(localIP string) (*net.TCPConn, error) {
	d := net.Dialer{Timeout: 20 * time.Second}
	if localIP != "" {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(localIP)}
	}
	c, err := d.Dial("tcp", p.Addr)
	if err != nil {
		return nil, err
	}
	return c.(*net.TCPConn), nil
}

// Dial completes a TLS handshake with the proxy.
func (p *P) Dial(sni string, o ClientOpt) (*tls.Conn, error) {
	c, err := p.TCP(o.LocalIP)
	if err != nil {
		return nil, err
	}
	if len(o.Before) > 0 {
		c.Write(o.Before)
	}
	tc := tls.Client(c, p.TLSConfig(sni, o))
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	if err := tc.HandshakeContext(ctx); err != nil {
		c.Close()
		return nil, err
	}
	return tc, nil
}

// HTTPClient returns a client whose connections all go to the proxy.
func (p *P) HTTPClient(o ClientOpt) *http.Client {
	dial := func(ctx context.Context, network, addr string) (net.Conn, error) {
		host, _, _ := net.SplitHostPort(addr)
		return p.Dial(host, o)
	}
	var rt http.RoundTripper
	if len(o.Protos) > 0 && o.Protos[0] == "h2" {
		rt = &http2.Transport{DisableCompression: true, DialTLSContext: func(ctx context.Context, network, addr string, _ *tls.Config) (net.Conn, error) {
			return dial(ctx, network, addr)
		}}
	} else {
		rt = &http.Transport{DialTLSContext: dial, DisableCompression: true, MaxIdleConnsPerHost: 100}
	}
	return &http.Client{Transport: rt, Timeout: 60 * time.Second,
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
}

// ---------------------------------------------------------------- upstreams

// TCPServer accepts connections and hands each one to fn.
type TCPServer struct {
	Addr  string
	l     net.Listener
	Conns atomic.Int64
	mu    sync.Mutex
	open  map[net.Conn]bool
}

func NewTCPServer(t testing.TB, fn func(net.Conn)) *TCPServer {
	return NewTCPServerOn(t, IP()+":7000", fn)
}

func NewTCPServerOn(t testing.TB, addr string, fn func(net.Conn)) *TCPServer {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	s := &TCPServer{Addr: l.Addr().String(), l: l, open: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.Conns.Add(1)
			s.mu.Lock()
			s.open[c] = true
			s.mu.Unlock()
			go func() {
				fn(c)
				c.Close()
				s.mu.Lock()
				delete(s.open, c)
				s.mu.Unlock()
			}()
		}
	}()
	t.Cleanup(s.Close)
	return s
}

func (s *TCPServer) Close() {
	s.l.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.open {
		c.Close()
	}
}

// TLSServe wraps fn so that it first completes a TLS handshake as a server.
func TLSServe(tc *tls.Config, fn func(*tls.Conn)) func(net.Conn) {
	return func(c net.Conn) {
		tlsc := tls.Server(c, tc)
		tlsc.SetDeadline(time.Now().Add(60 * time.Second))
		if err := tlsc.Handshake(); err != nil {
			return
		}
		tlsc.SetDeadline(time.Time{})
		fn(tlsc)
	}
}

// HTTPServer serves h on a fresh loopback address; with tc it speaks TLS (h2
// included when tc offers it).
type HTTPServer struct {
	Addr string
	Srv  *http.Server
}

func NewHTTPServer(t testing.TB, tc *tls.Config, h http.Handler) *HTTPServer {
	l, err := net.Listen("tcp", IP()+":7001")
	if err != nil {
		t.Fatal(err)
	}
	s := &HTTPServer{Addr: l.Addr().String(), Srv: &http.Server{Handler: h, ErrorLog: log.New(io.Discard, "", 0)}}
	if tc != nil {
		s.Srv.TLSConfig = tc
		go s.Srv.ServeTLS(l, "", "")
	} else {
		go s.Srv.Serve(l)
	}
	t.Cleanup(func() { s.Srv.Close() })
	return s
}

// ServerTLS returns a server TLS config with a certificate for names.
func (e *Env) ServerTLS(protos []string, names ...string) *tls.Config {
	return &tls.Config{Certificates: []tls.Certificate{e.CA.Issue(CN("srv"), DNS(names...))}, NextProtos: protos}
}

// ---------------------------------------------------------------- QUIC

// DialQUIC opens a QUIC connection to the proxy.
func (p *P) DialQUIC(sni string, o ClientOpt) (quic.Connection, func(), error) {
	return DialQUIC(p.Addr, p.TLSConfig(sni, o), o.LocalIP)
}

func DialQUIC(addr string, tc *tls.Config, localIP string) (quic.Connection, func(), error) {
	if localIP == "" {
		localIP = "127.0.0.1"
	}
	uc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(localIP)})
	if err != nil {
		return nil, nil, err
	}
	tr := &quic.Transport{Conn: uc}
	ra, err := net.ResolveUDPAddr("udp", addr)
	if err != nil {
		return nil, nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	c, err := tr.Dial(ctx, ra, tc, &quic.Config{EnableDatagrams: true, MaxIdleTimeout: 60 * time.Second})
	if err != nil {
		tr.Close()
		uc.Close()
		return nil, nil, err
	}
	return c, func() { c.CloseWithError(0, ""); tr.Close(); uc.Close() }, nil
}

// H3Client returns an HTTP/3 client whose connections all go to the proxy.
func (p *P) H3Client(o ClientOpt) (*http.Client, func()) {
	var mu sync.Mutex
	var closers []func()
	if len(o.Protos) == 0 {
		o.Protos = []string{"h3"}
	}
	rt := &http3.RoundTripper{DisableCompression: true, TLSClientConfig: &tls.Config{},
		Dial: func(ctx context.Context, addr string, _ *tls.Config, _ *quic.Config) (quic.EarlyConnection, error) {
			host, _, _ := net.SplitHostPort(addr)
			c, cl, err := p.DialQUIC(host, o)
			if err != nil {
				return nil, err
			}
			mu.Lock()
			closers = append(closers, cl)
			mu.Unlock()
			return earlyConn{c}, nil
		}}
	return &http.Client{Transport: rt, Timeout: 60 * time.Second,
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}, func() {
		rt.Close()
		mu.Lock()
		defer mu.Unlock()
		for _, c := range closers {
			c()
		}
	}
}

type earlyConn struct{ quic.Connection }

func (e earlyConn) HandshakeComplete() <-chan struct{} {
	ch := make(chan struct{})
	close(ch)
	return ch
}
func (e earlyConn) NextConnection(context.Context) (quic.Connection, error) { return e.Connection, nil }

// QUICServer is a QUIC upstream.
type QUICServer struct {
	Addr  string
	Conns atomic.Int64
}

// NewQUICServer hands every accepted connection to fn.
func NewQUICServer(t testing.TB, tc *tls.Config, fn func(quic.Connection)) *QUICServer {
	uc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(IP()), Port: 7002})
	if err != nil {
		t.Fatal(err)
	}
	tr := &quic.Transport{Conn: uc}
	l, err := tr.Listen(tc, &quic.Config{EnableDatagrams: true, MaxIdleTimeout: 60 * time.Second, MaxIncomingStreams: 1000, MaxIncomingUniStreams: 1000})
	if err != nil {
		t.Fatal(err)
	}
	s := &QUICServer{Addr: uc.LocalAddr().String()}
	go func() {
		for {
			c, err := l.Accept(context.Background())
			if err != nil {
				return
			}
			s.Conns.Add(1)
			go fn(c)
		}
	}()
	t.Cleanup(func() { l.Close(); tr.Close(); uc.Close() })
	return s
}

// NewH3Server serves h over HTTP/3.
func NewH3Server(t testing.TB, tc *tls.Config, h http.Handler) string {
	uc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(IP()), Port: 7003})
	if err != nil {
		t.Fatal(err)
	}
	s := &http3.Server{Handler: h, TLSConfig: http3.ConfigureTLSConfig(tc)}
	go s.Serve(uc)
	t.Cleanup(func() { s.Close(); uc.Close() })
	return uc.LocalAddr().String()
}

// ClientHello returns the bytes of a real TLS ClientHello for sni.
func ClientHello(sni string, protos ...string) []byte {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	go tls.Client(a, &tls.Config{ServerName: sni, NextProtos: protos, InsecureSkipVerify: true}).Handshake()
	hdr := make([]byte, 5)
	io.ReadFull(b, hdr)
	body := make([]byte, int(hdr[3])<<8|int(hdr[4]))
	io.ReadFull(b, body)
	return append(hdr, body...)
}

// NewStore creates an empty data store with its own master key in dir.
func NewStore(t testing.TB, dir string) *storage.Storage {
	if err := os.MkdirAll(dir, 0o700); err != nil {
		t.Fatal(err)
	}
	mkFile := filepath.Join(dir, "masterkey")
	mk, err := crypto.ReadMasterKey([]byte("test"), mkFile, crypto.WithAlgo(crypto.PickFastest), crypto.WithStrictWipe(false))
	if err != nil {
		if mk, err = crypto.CreateMasterKey(crypto.WithAlgo(crypto.PickFastest), crypto.WithStrictWipe(false)); err != nil {
			t.Fatal(err)
		}
		if err := mk.Save([]byte("test"), mkFile); err != nil {
			t.Fatal(err)
		}
	}
	return storage.New(dir, mk)
}

func readResp(resp *http.Response, err error) (string, error) {
	if err != nil {
		return "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(io.LimitReader(resp.Body, 8<<20))
	if err != nil {
		return "", err
	}
	if resp.StatusCode != 200 {
		return fmt.Sprintf("status %d", resp.StatusCode), nil
	}
	return string(b), nil
}

// H2Get makes one request on a connection that negotiated h2.
func H2Get(c net.Conn, u string, hdr http.Header) (string, error) {
	cc, err := (&http2.Transport{DisableCompression: true}).NewClientConn(c)
	if err != nil {
		return "", err
	}
	defer cc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	req, _ := http.NewRequestWithContext(ctx, "GET", u, nil)
	req.Header = hdr
	return readResp(cc.RoundTrip(req))
}

// H3Get makes one request on a connection that negotiated h3.
func H3Get(c quic.Connection, u string, hdr http.Header) (string, error) {
	rt := &http3.RoundTripper{DisableCompression: true, TLSClientConfig: &tls.Config{},
		Dial: func(context.Context, string, *tls.Config, *quic.Config) (quic.EarlyConnection, error) {
			return earlyConn{c}, nil
		}}
	defer rt.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	req, _ := http.NewRequestWithContext(ctx, "GET", u, nil)
	req.Header = hdr
	return readResp(rt.RoundTrip(req))
}

package opens

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
	"github.com/gorilla/websocket"
	"github.com/quic-go/quic-go"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"

	"crypto/x509"
	"crypto/x509/pkix"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// ---------------------------------------------------------------- generators

var interesting = []string{"", "\x00", "-1", "0", "1", "9223372036854775807", "18446744073709551616", "%00", "%", "%zz", "..", "../../etc", "\xff\xfe", "é", "ﬁ", "'\"<>&", "\r\n", "\r\nX: y", "{}", "[]", "null", "true",
	"[[[[[[[[", "a=b", "a&b", ";", "://", "https://", "//", "https://evil.example/", "javascript:alert(1)", "@", "a@b", "@v.test", "eyJ", "eyJhbGciOiJub25lIn0.e30.", "...", "Bearer ", "=", "====", "AAAA", "op", "client", strings.Repeat("a", 300), strings.Repeat("%41", 2000), strings.Repeat("../", 300)}

// mut changes b in a few places.
func mut(r *rand.Rand, b []byte) []byte {
	b = bytes.Clone(b)
	for range 1 + r.Intn(4) {
		n := len(b)
		switch k := r.Intn(9); {
		case n == 0 || k == 0:
			i := r.Intn(n + 1)
			b = append(b[:i:i], append([]byte(interesting[r.Intn(len(interesting))]), b[i:]...)...)
		case k == 1:
			b = b[:r.Intn(n)]
		case k == 2:
			b[r.Intn(n)] ^= 1 << r.Intn(8)
		case k == 3:
			b[r.Intn(n)] = []byte{0, 0xff, 0x7f, 0x80, '\n', '.', '=', '<'}[r.Intn(8)]
		case k == 4:
			i := r.Intn(n)
			j := i + r.Intn(n-i)
			b = append(b[:i:i], b[j:]...)
		case k == 5:
			i := r.Intn(n)
			j := i + r.Intn(n-i)
			b = append(b[:j:j], b[i:]...)
		case k == 6:
			b[r.Intn(n)]++
		case k == 7:
			x := make([]byte, r.Intn(20))
			r.Read(x)
			i := r.Intn(n)
			copy(b[i:], x)
		case k == 8:
			b[r.Intn(n)] = byte(r.Intn(256))
		}
	}
	return b
}

func mutS(r *rand.Rand, s string) string {
	if r.Intn(3) == 0 {
		return interesting[r.Intn(len(interesting))]
	}
	return string(mut(r, []byte(s)))
}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

func cont(r *rand.Rand, n int) []byte {
	b := make([]byte, r.Intn(n+1))
	r.Read(b)
	return b
}

var hosts34 = []string{"tcp", "tls", "pass", "http", "https", "local", "mutehttp", "console", "login", "sso", "pk", "samlsso", "pki", "ssh", "open", "docs", "o", "mtls", "over", "evilhttp", "evilhttps", "evilh3", "eviltls", "eviltcp", "badsso"}

var paths34 = []string{"/", "/certs", "/certs?get=requestCert", "/certs?get=revokeCert", "/certs?get=downloadCert&sn=00", "/certs?get=static&file=x", "/certs?status=all&owner=x&admin=1", "/ca.pem", "/crl", "/crl.pem", "/ocsp", "/ocsp/MEIwQDA+MDwwOjAJBgUrDgMCGgUABBQ", "/sshca", "/cert", "/ws", "/acs",
	"/passkey?get=AttestationOptions", "/passkey?get=AddKey", "/passkey?get=Check", "/passkey?get=Login&nonce=x", "/passkey?get=RegisterNewID&nonce=x", "/passkey?get=JS", "/passkey?get=Switch", "/passkey?get=AssertionOptions", "/oidc/op?code=x&state=y", "/oidc/bad?code=x&state=y", "/authorization?response_type=code&client_id=client&redirect_uri=https://rp.example/cb&scope=openid", "/token", "/userinfo", "/jwks",
	"/.well-known/openid-configuration", "/.well-known/passkey-endpoints", "/.well-known/acme-challenge/x", "/.sso/", "/.sso/login?redirect=https://sso.v.test/", "/.sso/logout", "/.sso/passkeys", "/.sso/passkeys?get=AddKey", "/.sso/passkeys?get=DeleteKey", "/.sso/style.css", "/docs/", "/docs/index.html", "/s/slow?size=20", "/slow?size=2000", "/favicon.ico", "/sub/file.txt", "/index.html", "/hold", "/debug/pprof/"}

func target(r *rand.Rand) (host, path string) {
	host = pick(r, hosts34...) + ".v.test"
	path = pick(r, paths34...)
	if r.Intn(4) == 0 {
		path = "/" + strings.ReplaceAll(mutS(r, path), " ", "+")
	}
	return
}

var cookieNames = []string{"TLSPROXYAUTH", "TLSPROXYIDTOKEN", "TLSPROXYNONCE", "TLSPROXYSID", "x"}

// headers are request headers that the proxy looks at, or should be careful with.
func headers(r *rand.Rand, tokens []string) [][2]string {
	var out [][2]string
	for range r.Intn(5) {
		tok := ""
		if len(tokens) > 0 {
			tok = pick(r, tokens...)
		}
		if r.Intn(2) == 0 {
			tok = mutS(r, tok)
		}
		k := pick(r, "Cookie", "Cookie", "Authorization", "Host", "Content-Length", "Transfer-Encoding", "Connection", "Upgrade", "Expect", "Range", "If-Range", "If-None-Match", "If-Modified-Since", "Content-Type", "X-Csrf-Check", "X-Skip-Login-Confirmation",
			"Via", "X-Forwarded-For", "X-Forwarded-Client-Cert", "X-Tlsproxy-User-Id", "Sec-Websocket-Key", "Sec-Websocket-Version", "Origin", "Sec-Fetch-Site", "Te", "Trailer", "Keep-Alive", "Accept-Encoding", "User-Agent", "Referer", "Http2-Settings")
		v := pick(r, "keep-alive", "close", "upgrade, HTTP2-Settings", "chunked", "chunked, chunked", "identity", "websocket", "h2c", "100-continue", "bytes=0-", "bytes=-1,0-0,5-1,-", "bytes=99999999999999999999-", "*", "1", "13", "5", "x", "Mon, 01 Jan 0001", "W/\"x\"", "application/x-www-form-urlencoded", "multipart/form-data; boundary=", "multipart/form-data", "text/plain", "application/x-pem-file", "application/ocsp-request", "https://evil.example", "1.1 tlsproxy", "Cookie, Host, X", "trailers")
		switch k {
		case "Cookie":
			v = pick(r, cookieNames...) + "=" + tok + "; " + pick(r, cookieNames...) + "=" + mutS(r, tok)
		case "Authorization":
			v = pick(r, "Bearer ", "bearer ", "Basic ", "", "Bearer  ") + tok
		}
		if r.Intn(5) == 0 {
			v = mutS(r, v)
		}
		out = append(out, [2]string{k, v})
	}
	return out
}

// body is a body that could be meant for path.
func body(r *rand.Rand, path string) (ct string, b []byte) {
	form := func(kv ...string) (string, []byte) {
		v := url.Values{}
		for i := 0; i < len(kv); i += 2 {
			v.Set(kv[i], kv[i+1])
			if r.Intn(3) == 0 {
				v.Set(kv[i], mutS(r, kv[i+1]))
			}
		}
		return "application/x-www-form-urlencoded", []byte(v.Encode())
	}
	switch {
	case strings.Contains(path, "requestCert"):
		b, _ = csr(r)
		ct = "application/x-pem-file"
		if r.Intn(3) > 0 {
			i := bytes.IndexByte(b, '\n')
			raw, _ := base64.StdEncoding.DecodeString(strings.ReplaceAll(string(b[i:max(i, len(b)-35)]), "\n", ""))
			raw = mut(r, raw)
			b = []byte("-----BEGIN CERTIFICATE REQUEST-----\n" + base64.StdEncoding.EncodeToString(raw) + "\n-----END CERTIFICATE REQUEST-----\n")
		}
	case strings.Contains(path, "revokeCert"):
		ct, b = form("sn", "01:02", "reason", pick(r, "1", "8", "-1", "99999999999999999999", "x"))
	case strings.HasPrefix(path, "/ocsp"):
		ct, b = "application/ocsp-request", mut(r, hexBytes("30423040303e303c303a300906052b0e03021a05000414aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa0414bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb020101"))
	case strings.HasPrefix(path, "/cert"):
		ct, b = "text/plain", mut(r, []byte(sshPub))
	case strings.HasPrefix(path, "/token"):
		ct, b = form("grant_type", "authorization_code", "code", "x", "client_id", "client", "client_secret", "s3cret", "redirect_uri", "https://rp.example/cb", "code_verifier", "x")
	case strings.HasPrefix(path, "/acs"):
		x := `<samlp:Response xmlns:samlp="urn:oasis:names:tc:SAML:2.0:protocol" xmlns:saml="urn:oasis:names:tc:SAML:2.0:assertion" ID="x" Version="2.0" IssueInstant="2026-01-01T00:00:00Z" Destination="https://login.v.test/acs" InResponseTo="y"><saml:Issuer>https://saml.v.test/</saml:Issuer><samlp:Status><samlp:StatusCode Value="urn:oasis:names:tc:SAML:2.0:status:Success"/></samlp:Status><saml:Assertion ID="a" Version="2.0"><saml:Issuer>z</saml:Issuer><ds:Signature xmlns:ds="http://www.w3.org/2000/09/xmldsig#"><ds:SignedInfo><ds:CanonicalizationMethod Algorithm="http://www.w3.org/2001/10/xml-exc-c14n#"/><ds:SignatureMethod Algorithm="http://www.w3.org/2001/04/xmldsig-more#rsa-sha256"/><ds:Reference URI="#a"><ds:Transforms><ds:Transform Algorithm="http://www.w3.org/2000/09/xmldsig#enveloped-signature"/></ds:Transforms><ds:DigestMethod Algorithm="http://www.w3.org/2001/04/xmlenc#sha256"/><ds:DigestValue>AAAA</ds:DigestValue></ds:Reference></ds:SignedInfo><ds:SignatureValue>AAAA</ds:SignatureValue></ds:Signature><saml:Subject><saml:NameID>alice</saml:NameID></saml:Subject></saml:Assertion></samlp:Response>`
		if r.Intn(12) == 0 {
			n := 1 + r.Intn(60000)
			x = strings.Repeat("<a>", n) + strings.Repeat("</a>", n)
		}
		ct, b = form("SAMLResponse", base64.StdEncoding.EncodeToString(mut(r, []byte(x))), "RelayState", "x")
	case strings.Contains(path, "passkey"):
		enc := func(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }
		cd, _ := json.Marshal(map[string]any{"type": pick(r, "webauthn.create", "webauthn.get"), "challenge": enc(cont(r, 40)), "origin": "https://login.v.test"})
		att := append(hexBytes("a363666d74646e6f6e656761747453746d74a068617574684461746158"), append([]byte{byte(r.Intn(256))}, cont(r, 200)...)...)
		if r.Intn(4) == 0 {
			att = bytes.Repeat([]byte{pick[byte](r, 0x81, 0xa1, 0x9f, 0xbf, 0xd8, 0x5f)}, 1+r.Intn(50000))
		}
		args, _ := json.Marshal(map[string]any{"id": enc(cont(r, 20)), "clientDataJSON": enc(mut(r, cd)), "attestationObject": enc(att), "authenticatorData": enc(cont(r, 100)), "signature": enc(cont(r, 80)), "userHandle": enc(cont(r, 20)), "transports": []string{"usb"}})
		if r.Intn(2) == 0 {
			args = mut(r, args)
		}
		ct, b = form("args", string(args), "redirect", "https://pk.v.test/")
	default:
		ct, b = "application/x-www-form-urlencoded", cont(r, 200)
	}
	if r.Intn(6) == 0 {
		b = mut(r, b)
	}
	return
}

func hexBytes(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// request is one HTTP/1 request that may not be one.
func request(r *rand.Rand, host, path string, tokens []string) []byte {
	var b bytes.Buffer
	method := pick(r, "GET", "GET", "GET", "POST", "POST", "HEAD", "PUT", "OPTIONS", "CONNECT", "TRACE", "PRI", "get", "", "X\x00")
	ct, data := body(r, path)
	fmt.Fprintf(&b, "%s %s HTTP/%s\r\n", method, pick(r, path, path, path, path, path, "https://"+host+path, "*", host+":443", "http://[::1"), pick(r, "1.1", "1.1", "1.1", "1.0", "0.9", "2.0", "9.9"))
	if r.Intn(20) > 0 {
		fmt.Fprintf(&b, "Host: %s\r\n", pick(r, host, host, host, host, host+":10443", "evil.example", "", "[", "a b", strings.ToUpper(host), host+"."))
	}
	for _, h := range headers(r, tokens) {
		fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
	}
	if r.Intn(20) == 0 {
		for i := range 1 + r.Intn(2000) {
			fmt.Fprintf(&b, "X-%d: %s\r\n", i, "aaaaaaaaaaaaaaaaaaaa")
		}
	}
	if method == "POST" || r.Intn(4) == 0 {
		fmt.Fprintf(&b, "Content-Type: %s\r\nX-Csrf-Check: 1\r\n", ct)
		switch r.Intn(8) {
		case 0:
			fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n%s\r\n\r\n", len(data)+r.Intn(2), data, pick(r, "0", "0\r\nX: y", "fffffffffffffffff", "-1", "zz"))
		case 1:
			fmt.Fprintf(&b, "Content-Length: %s\r\n\r\n%s", pick(r, "-1", "999999999999", "5, 5", "1", "+3"), data)
		default:
			fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(data), data)
		}
	} else {
		b.WriteString("\r\n")
	}
	return b.Bytes()
}

// answer is what a hostile HTTP/1 server says.
func answer(r *rand.Rand) []byte {
	var b bytes.Buffer
	for range r.Intn(3) {
		fmt.Fprintf(&b, "HTTP/1.1 %d x\r\nLink: a\r\n\r\n", pick(r, 100, 103, 102, 199))
	}
	fmt.Fprintf(&b, "HTTP/1.1 %s\r\n", pick(r, "200 OK", "200 OK", "200 OK", "101 Switching Protocols", "204 No Content", "304 Not Modified", "999 x", "000 x", "-1", "302 Found", "401 x", "500 "))
	for range r.Intn(6) {
		k := pick(r, "Content-Length", "Transfer-Encoding", "Connection", "Upgrade", "Location", "Set-Cookie", "Trailer", "Content-Encoding", "Strict-Transport-Security", "Alt-Svc", "X\x00", "", "Content-Type")
		v := pick(r, "5", "-1", "99999999999", "0", "chunked", "gzip", "close", "upgrade", "websocket", "https://x/\x00", "TLSPROXYAUTH=; Domain=.v.test", "Content-Length", "\x01\x02")
		fmt.Fprintf(&b, "%s: %s\r\n", k, v)
	}
	b.WriteString("\r\n")
	b.WriteString(pick(r, "hello", "5\r\nhello\r\n0\r\n\r\n", "5\r\nhello\r\n0\r\nContent-Length: 3\r\n\r\n", "ffffffffffffffffff\r\n", `{"id_token":"x"}`, `{"access_token":3}`, "[]", `{"id_token":"e30.e30."}`, `{"id_token":"`+strings.Repeat("a", 100)+`"}`, `{"access_token":"x","token_type":"bearer"}`, strings.Repeat("x", 10000)))
	if r.Intn(3) == 0 {
		return mut(r, b.Bytes())
	}
	return b.Bytes()
}

// ---------------------------------------------------------------- the hostile world

type hostile struct {
	*everything
	tokens []string
	tokMu  sync.Mutex
	cookie string // of a user who may use the PKI
	seed   atomic.Int64
}

func (h *hostile) rnd() *rand.Rand { return rand.New(rand.NewSource(vh.Seed()*1e6 + h.seed.Add(1))) }

// speak answers whatever comes with bytes that make little sense.
func (h *hostile) speak(c net.Conn) {
	defer c.Close()
	r := h.rnd()
	c.SetDeadline(time.Now().Add(time.Minute))
	switch r.Intn(6) {
	case 0:
		c.Write(cont(r, 3000))
	case 1:
		// HTTP/2 frames.
		fr := http2.NewFramer(c, c)
		fr.WriteSettings()
		for range r.Intn(20) {
			frame(r, fr, "x")
		}
	case 2:
		if t, ok := c.(interface{ SetLinger(int) error }); ok {
			t.SetLinger(0)
		}
		return
	default:
		br := bufio.NewReader(c)
		for range 1 + r.Intn(3) {
			req, err := http.ReadRequest(br)
			if err != nil {
				return
			}
			if r.Intn(2) == 0 {
				io.Copy(io.Discard, io.LimitReader(req.Body, 1000))
			}
			b := answer(r)
			for len(b) > 0 {
				n := 1 + r.Intn(len(b))
				if _, err := c.Write(b[:n]); err != nil {
					return
				}
				b = b[n:]
			}
		}
	}
	time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
}

func newHostile(t testing.TB, run *vh.Run) *hostile {
	h := &hostile{everything: newEverything(t, run)}
	tcp := vp.NewTCPServer(t, h.speak).Addr
	tlsAddr := vp.NewTCPServer(t, vp.TLSServe(h.e.ServerTLS([]string{"h2", "http/1.1"}, "up.v.test"), func(c *tls.Conn) { h.speak(c) })).Addr
	rawTLS := vp.NewTCPServer(t, func(c net.Conn) {
		defer c.Close()
		r := h.rnd()
		hdr := make([]byte, 5)
		c.SetDeadline(time.Now().Add(time.Minute))
		io.ReadFull(c, hdr)
		c.Write(mut(r, append([]byte{22, 3, 3, 0, byte(r.Intn(256)), 2, 0, 0, byte(r.Intn(256)), 3, 3}, cont(r, 100)...)))
	}).Addr
	qserve := func(protos ...string) string {
		return vp.NewQUICServer(t, h.e.ServerTLS(protos, "up.v.test"), func(c quic.Connection) {
			r := h.rnd()
			for range r.Intn(10) {
				switch r.Intn(6) {
				case 0:
					if s, err := c.OpenUniStream(); err == nil {
						s.Write(mut(r, append([]byte{byte(r.Intn(4))}, cont(r, 50)...)))
						if r.Intn(2) == 0 {
							s.Close()
						}
					}
				case 1:
					if s, err := c.OpenStream(); err == nil {
						s.Write(cont(r, 50))
						s.CancelRead(quic.StreamErrorCode(r.Intn(1000)))
					}
				case 2:
					c.SendDatagram(cont(r, 900))
				default:
					ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
					s, err := c.AcceptStream(ctx)
					cancel()
					if err != nil {
						break
					}
					switch r.Intn(4) {
					case 0:
						s.CancelWrite(quic.StreamErrorCode(r.Int63n(1 << 40)))
					case 1:
						s.Write(append([]byte{byte(r.Intn(5)), byte(r.Intn(60))}, cont(r, 60)...))
						s.Close()
					case 2:
						s.CancelRead(77)
						s.Write(cont(r, 2000))
					}
				}
			}
			c.CloseWithError(quic.ApplicationErrorCode(r.Intn(400)), interesting[r.Intn(len(interesting))])
		}).Addr
	}
	cfg := h.config(0)
	ca := []string{h.e.CA.PEM}
	rest := &[]string{"h2", "http/1.1"}
	all := &[]string{"h2", "http/1.1", "h3"}
	add := func(be *proxy.Backend) {
		be.ForwardRateLimit = 100000
		be.ForwardTimeout = 10 * time.Second
		be.ForwardServerName, be.ForwardRootCAs = "up.v.test", ca
		cfg.Backends = append(cfg.Backends, be)
	}
	add(&proxy.Backend{ServerNames: []string{"evilhttp.v.test"}, Mode: proxy.ModeHTTP, ALPNProtos: all, Addresses: []string{tcp}})
	add(&proxy.Backend{ServerNames: []string{"evilhttps.v.test"}, Mode: proxy.ModeHTTPS, ALPNProtos: rest, Addresses: []string{tlsAddr, rawTLS}})
	add(&proxy.Backend{ServerNames: []string{"evilh3.v.test"}, Mode: proxy.ModeHTTPS, ALPNProtos: rest, BackendProto: vp.Ptr("h3"), Addresses: []string{qserve("h3")}})
	add(&proxy.Backend{ServerNames: []string{"eviltls.v.test"}, Mode: proxy.ModeTLS, Addresses: []string{rawTLS, tlsAddr}})
	add(&proxy.Backend{ServerNames: []string{"eviltcp.v.test"}, Mode: proxy.ModeTCP, Addresses: []string{tcp}})
	add(&proxy.Backend{ServerNames: []string{"evilquic.v.test"}, Mode: proxy.ModeQUIC, ALPNProtos: &[]string{"qq"}, Addresses: []string{qserve("qq")}})
	add(&proxy.Backend{ServerNames: []string{"badsso.v.test"}, Mode: proxy.ModeLocal, ALPNProtos: rest, SSO: &proxy.BackendSSO{Provider: "bad"}})
	cfg.OIDCProviders = append(cfg.OIDCProviders, &proxy.ConfigOIDC{Name: "bad", AuthEndpoint: "http://" + tcp + "/auth", TokenEndpoint: "http://" + tcp + "/token", UserinfoEndpoint: "http://" + tcp + "/userinfo",
		RedirectURL: "https://login.v.test/oidc/bad", ClientID: "client-bad", ClientSecret: "x", Domain: "v.test"})
	cfg.WebSockets = append(cfg.WebSockets, &proxy.WebSocketConfig{Endpoint: "wss://open.v.test/evilws", Address: tcp})
	// Big enough not to fit in any buffer.
	vh.MustWrite(t, h.docs+"/big", make([]byte, 30<<20))
	h.p = h.e.Start(cfg)
	b := h.p.Browser(vp.ClientOpt{})
	b.Timeout = promptly
	if _, err := b.Login(h.idp, "https://pki.v.test/certs", "alice@v.test"); err != nil {
		t.Fatal(err)
	}
	u, _ := url.Parse("https://pki.v.test/certs")
	var parts []string
	for _, c := range b.Jar.Cookies(u) {
		parts = append(parts, c.Name+"="+c.Value)
		h.tokens = append(h.tokens, c.Value)
	}
	h.cookie = strings.Join(parts, "; ")
	tm := h.p.Tokens()
	for _, alg := range []string{"", "ES256", "RS256"} {
		for _, claims := range []map[string]any{{}, {"email": "x@v.test", "aud": "https://sso.v.test/"}, {"email": 3, "iss": []string{"a"}, "aud": 3}, {"exp": "x"}, {"scope": "proxyauth"}} {
			if s, err := tm.CreateToken(jwt.MapClaims(claims), alg); err == nil {
				h.tokens = append(h.tokens, s)
			}
		}
	}
	return h
}

// frame writes one HTTP/2 frame.
func frame(r *rand.Rand, fr *http2.Framer, host string) error {
	id := uint32(pick(r, 0, 1, 1, 3, 5, 7, 2, 1<<30|1))
	block := func() []byte {
		var hb bytes.Buffer
		enc := hpack.NewEncoder(&hb)
		_, path := target(rand.New(rand.NewSource(r.Int63())))
		f := [][2]string{{":method", pick(r, "GET", "POST", "CONNECT", "", "G T")}, {":scheme", pick(r, "https", "http", "x", "")}, {":authority", pick(r, host, host, host, "evil.example", "", "a b")}, {":path", pick(r, path, path, "", "*", "x")}}
		for _, kv := range headers(r, nil) {
			f = append(f, [2]string{pick(r, strings.ToLower(kv[0]), strings.ToLower(kv[0]), kv[0]), kv[1]})
		}
		switch r.Intn(8) {
		case 0:
			f = f[r.Intn(len(f)):]
		case 1:
			f = append(f, [2]string{":x", "y"}, [2]string{":path", "/"})
		case 2:
			f = append(f, [2]string{":protocol", "websocket"})
		case 3:
			for range 500 {
				f = append(f, [2]string{"x-" + strings.Repeat("a", 20), strings.Repeat("b", 100)})
			}
		}
		for _, kv := range f {
			enc.WriteField(hpack.HeaderField{Name: kv[0], Value: kv[1]})
		}
		if r.Intn(10) == 0 {
			return mut(r, hb.Bytes())
		}
		return hb.Bytes()
	}
	fr.AllowIllegalWrites = true
	switch r.Intn(13) {
	case 0, 1, 2, 3:
		bl := block()
		if len(bl) > 16000 {
			bl = bl[:16000]
		}
		return fr.WriteHeaders(http2.HeadersFrameParam{StreamID: id, BlockFragment: bl, EndStream: r.Intn(2) == 0, EndHeaders: r.Intn(6) > 0, PadLength: uint8(r.Intn(2) * r.Intn(256))})
	case 4:
		return fr.WriteData(id, r.Intn(2) == 0, cont(r, 2000))
	case 5:
		return fr.WriteSettings(http2.Setting{ID: http2.SettingID(r.Intn(10)), Val: uint32(r.Int63())}, http2.Setting{ID: http2.SettingInitialWindowSize, Val: uint32(pick(r, 0, 1, 65535, 1<<31))})
	case 6:
		return fr.WriteRSTStream(id, http2.ErrCode(r.Intn(20)))
	case 7:
		return fr.WritePing(r.Intn(2) == 0, [8]byte{1})
	case 8:
		return fr.WriteWindowUpdate(id, uint32(pick(r, 0, 1, 1<<31-1, 65535)))
	case 9:
		return fr.WriteContinuation(id, r.Intn(2) == 0, cont(r, 20))
	case 10:
		return fr.WritePriority(id, http2.PriorityParam{StreamDep: id, Exclusive: true, Weight: 3})
	case 11:
		return fr.WriteGoAway(id, http2.ErrCode(r.Intn(20)), cont(r, 20))
	default:
		return fr.WriteRawFrame(http2.FrameType(r.Intn(20)), http2.Flags(r.Intn(256)), id, cont(r, 100))
	}
}

// badCert is a client certificate that is unusual.
func (h *hostile) badCert(r *rand.Rand) (out tls.Certificate) {
	defer func() {
		if recover() != nil { // Go can't make this one.
			out = h.e.CA.Issue()
		}
	}()
	return h.e.CA.Issue(func(c *x509.Certificate) {
		c.Subject = pkix.Name{CommonName: pick(r, "", "\x00", strings.Repeat("x", 5000), "a,b=c+d\\\"", "ü\u202e"), Organization: pick(r, nil, []string{""}, []string{"a", "b"})}
		c.DNSNames = pick(r, nil, []string{"*"}, []string{"xn--", "."}, manyNames)
		c.EmailAddresses = pick(r, nil, []string{"@"}, []string{"a@b@c", "x"}, []string{"alice@v.test"})
		if r.Intn(3) == 0 {
			u, _ := url.Parse(pick(r, "x:", "https://a b/", "urn:%00", "//"))
			if u != nil {
				c.URIs = append(c.URIs, u)
			}
		}
		c.IPAddresses = pick(r, nil, []net.IP{net.IPv4(1, 2, 3, 4)}, []net.IP{net.IPv6loopback})
		c.SerialNumber = pick(r, big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 150), big.NewInt(r.Int63()))
		c.OCSPServer = pick(r, nil, []string{"http://127.0.0.1:1/"}, []string{":", "x"}, []string{"http://" + h.u.mute})
		c.ExtKeyUsage = pick(r, nil, []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth})
		c.NotAfter = time.Now().Add(pick(r, time.Hour, -time.Hour, 1e6*time.Hour))
	})
}

var manyNames = func() (out []string) {
	for i := range 300 {
		out = append(out, fmt.Sprintf("n%d.v.test", i))
	}
	return
}()

// drain reads what comes, for a short while.
func drain(r *rand.Rand, c net.Conn) {
	c.SetReadDeadline(time.Now().Add(time.Duration(5+r.Intn(150)) * time.Millisecond))
	io.Copy(io.Discard, io.LimitReader(c, 1<<20))
}

// attack does one hostile thing. It returns a connection to keep, or nil.
func (h *hostile) attack(r *rand.Rand, kind string) (held io.Closer) {
	p := h.p
	h.tokMu.Lock()
	tokens := h.tokens
	h.tokMu.Unlock()
	write := func(c net.Conn, b []byte) {
		c.SetWriteDeadline(time.Now().Add(2 * time.Second))
		for len(b) > 0 {
			n := len(b)
			if r.Intn(3) == 0 {
				n = 1 + r.Intn(n)
			}
			if _, err := c.Write(b[:n]); err != nil {
				return
			}
			b = b[n:]
		}
	}
	end := func(c net.Conn) {
		switch r.Intn(4) {
		case 0:
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			} else if t, ok := c.(*tls.Conn); ok {
				t.NetConn().(*net.TCPConn).SetLinger(0)
				t.NetConn().Close()
			}
		case 1:
			if t, ok := c.(*tls.Conn); ok {
				t.CloseWrite()
				drain(r, c)
			}
		}
		c.Close()
	}
	switch kind {
	case "hello":
		c, err := p.TCP(pick(r, "", "", h.hdrIP))
		if err != nil {
			return
		}
		b := vp.ClientHello(pick(r, hosts34...)+".v.test", pick(r, nil, []string{"h2"}, []string{"acme-tls/1"}, []string{"http/1.1", "h2", "h3", "qq"})...)
		switch r.Intn(4) {
		case 0:
			b = append([]byte{22, 3, 1, 0x40, 0}, cont(r, 20000)...)
		case 1:
			b = mut(r, b)
		case 2:
			b = append(b, cont(r, 500)...)
		case 3:
			b = append([]byte(pick(r, "PROXY TCP4 1.2.3.4 5.6.7.8 1 2\r\n", "PROXY UNKNOWN\r\n", "PROXY TCP4 x\r\n", "PROXY "+strings.Repeat("a", 200), "\r\n\r\n\x00\r\nQUIT\n\x21\x11\x00\x0c"+string(cont(r, 30)), "\r\n\r\n\x00\r\nQUIT\n"+string(cont(r, 100)))), b...)
		}
		write(c, b)
		drain(r, c)
		end(c)
	case "http1":
		host, path := target(r)
		c, err := p.Dial(host, vp.ClientOpt{LocalIP: "", Certs: pick(r, nil, h.someCert(r))})
		if err != nil {
			return
		}
		for range 1 + r.Intn(4) {
			write(c, request(r, host, path, tokens))
			if r.Intn(2) == 0 {
				drain(r, c)
			}
		}
		if r.Intn(10) == 0 {
			write(c, cont(r, 5000))
		}
		drain(r, c)
		end(c)
	case "http2":
		host, _ := target(r)
		c, err := p.Dial(host, vp.ClientOpt{Protos: []string{"h2"}})
		if err != nil {
			return
		}
		c.SetWriteDeadline(time.Now().Add(5 * time.Second))
		io.WriteString(c, pick(r, http2.ClientPreface, http2.ClientPreface, http2.ClientPreface, "PRI * HTTP/2.0\r\n\r\nXX\r\n\r\n"))
		fr := http2.NewFramer(c, c)
		fr.WriteSettings()
		done := make(chan struct{})
		go func() {
			defer close(done)
			rr := rand.New(rand.NewSource(1))
			drain(rr, c)
		}()
		for range r.Intn(60) {
			if frame(r, fr, host) != nil {
				break
			}
		}
		<-done
		end(c)
	case "login", "pki-post", "requests":
		// Well-formed requests with unusual content.
		host, path := target(r)
		if kind == "pki-post" {
			host, path = "pki.v.test", pick(r, "/certs?get=requestCert", "/certs?get=requestCert", "/certs?get=revokeCert", "/certs?get=downloadCert&sn="+url.QueryEscape(mutS(r, "01:02")), "/certs?get=static&file="+url.QueryEscape(mutS(r, "certs.js")), "/certs?status="+url.QueryEscape(mutS(r, "all")))
		}
		cl := p.HTTPClient(vp.ClientOpt{Protos: pick(r, nil, []string{"h2"})})
		clean := func() {}
		if r.Intn(4) == 0 {
			cl, clean = p.H3Client(vp.ClientOpt{})
		}
		cl.Timeout = 3 * time.Second
		cl.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
		for range 3 {
			ct, data := body(r, path)
			req, err := http.NewRequest(pick(r, "GET", "POST", "POST", "HEAD", "OPTIONS", "DELETE"), "https://"+host, nil)
			if err != nil {
				break
			}
			if u, err := url.ParseRequestURI(path); err == nil {
				req.URL.Path, req.URL.RawPath, req.URL.RawQuery = u.Path, u.RawPath, u.RawQuery
			}
			if req.Method == "POST" {
				req.Body = io.NopCloser(bytes.NewReader(data))
			}
			for _, kv := range headers(r, tokens) {
				req.Header.Set(kv[0], kv[1])
			}
			req.Header.Set("Content-Type", ct)
			req.Header.Set("X-Csrf-Check", "1")
			if kind == "pki-post" || r.Intn(3) == 0 {
				req.Header.Set("Cookie", h.cookie)
			}
			resp, err := cl.Do(req)
			if err == nil {
				io.Copy(io.Discard, io.LimitReader(resp.Body, 1<<20))
				resp.Body.Close()
			}
		}
		clean()
		closeIdle(cl)
	case "bad-idp":
		b := p.Browser(vp.ClientOpt{})
		b.Timeout = 12 * time.Second
		b.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
		if q, err := b.StartLogin("https://badsso.v.test/"); err == nil {
			b.Callback(q, mutS(r, "code"))
		}
		closeIdle(b.Client)
	case "idp-claims":
		b := p.Browser(vp.ClientOpt{})
		b.Timeout = 12 * time.Second
		q, err := b.StartLogin("https://sso.v.test/")
		if err == nil {
			claims := vp.Claims(q, mutS(r, "alice@v.test"))
			if r.Intn(2) == 0 {
				claims[pick(r, "email", "aud", "exp", "sub", "name", "picture", "hd", "iat", "email_verified", "nonce")] = pick[any](r, nil, 3, -1.5, []any{}, map[string]any{}, true, strings.Repeat("x", 5000), "\x00", 1e300)
			}
			code := h.idp.Add(&vp.Code{Challenge: q.Get("code_challenge"), RedirectURI: q.Get("redirect_uri"), ClientID: q.Get("client_id"), Claims: claims})
			b.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
			if res, err := b.Callback(q, code); err == nil && res.StatusCode/100 == 3 {
				b.Get(res.Loc().String())
				b.Get("https://console.v.test/")
			}
		}
		closeIdle(b.Client)
	case "evil-backends":
		switch r.Intn(3) {
		case 0:
			c, err := p.Dial(pick(r, "eviltcp", "eviltls")+".v.test", vp.ClientOpt{})
			if err == nil {
				write(c, cont(r, 1000))
				drain(r, c)
				end(c)
			}
		case 1:
			c, clean, err := p.DialQUIC("evilquic.v.test", vp.ClientOpt{Protos: []string{"qq"}})
			if err == nil {
				for range 3 {
					if s, err := c.OpenStream(); err == nil {
						s.Write(cont(r, 1000))
						s.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
						io.Copy(io.Discard, s)
						s.CancelRead(3)
						s.Close()
					}
				}
				clean()
			}
		default:
			cl := p.HTTPClient(vp.ClientOpt{Protos: pick(r, nil, []string{"h2"})})
			cl.Timeout = 12 * time.Second
			for range 3 {
				req, _ := http.NewRequest(pick(r, "GET", "POST", "HEAD"), "https://"+pick(r, "evilhttp", "evilhttps", "evilh3")+".v.test/x", pick[io.Reader](r, nil, strings.NewReader(strings.Repeat("x", r.Intn(100000)))))
				if r.Intn(4) == 0 {
					req.Header.Set("Connection", "Upgrade")
					req.Header.Set("Upgrade", pick(r, "websocket", "h2c", "x"))
				}
				if resp, err := cl.Do(req); err == nil {
					io.Copy(io.Discard, io.LimitReader(resp.Body, 1<<20))
					resp.Body.Close()
				}
			}
			closeIdle(cl)
		}
	case "quic":
		if r.Intn(4) == 0 {
			// Not even QUIC.
			if c, err := net.Dial("udp", p.Addr); err == nil {
				for range 20 {
					b := cont(r, 1300)
					if len(b) > 6 {
						b[0] |= 0xc0
						copy(b[1:], []byte{0, 0, 0, byte(r.Intn(2)), byte(r.Intn(21))})
					}
					c.Write(b)
				}
				c.Close()
			}
			return
		}
		host := pick(r, "quic", "qtcp", "console", "docs", "open", "http", "pki", "evilhttp", "nope") + ".v.test"
		c, clean, err := p.DialQUIC(host, vp.ClientOpt{Protos: pick(r, []string{"qq"}, []string{"h3"}, []string{"h3"}, []string{"h3"}, []string{"h3", "qq"}, []string{"x"})})
		if err != nil {
			return
		}
		for range r.Intn(12) {
			switch r.Intn(5) {
			case 0:
				if s, err := c.OpenUniStream(); err == nil {
					s.Write(mut(r, append([]byte{byte(pick(r, 0, 1, 2, 3, 0x54))}, cont(r, 60)...)))
					if r.Intn(2) == 0 {
						s.Close()
					}
				}
			case 1:
				c.SendDatagram(cont(r, 1000))
			default:
				s, err := c.OpenStream()
				if err != nil {
					break
				}
				s.Write(pick(r, append([]byte{byte(r.Intn(14)), byte(r.Intn(64))}, cont(r, 80)...), cont(r, 2000), []byte{1, 0xff, 0xff, 0xff}, h3Headers(r, host)))
				switch r.Intn(4) {
				case 0:
					s.CancelWrite(quic.StreamErrorCode(r.Int63n(1 << 61)))
				case 1:
					s.CancelRead(5)
					s.Close()
				case 2:
					s.Close()
				}
			}
		}
		time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		c.CloseWithError(quic.ApplicationErrorCode(r.Intn(1000)), "x")
		clean()
	case "websocket":
		d := websocket.Dialer{NetDialTLSContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
			return p.Dial("open.v.test", vp.ClientOpt{})
		}, HandshakeTimeout: 10 * time.Second}
		c, _, err := d.Dial(pick(r, "wss://open.v.test/ws", "wss://open.v.test/evilws"), http.Header{"Origin": {"https://open.v.test"}})
		if err != nil {
			return
		}
		for range r.Intn(10) {
			c.SetWriteDeadline(time.Now().Add(2 * time.Second))
			switch r.Intn(5) {
			case 0:
				c.NetConn().Write(cont(r, 300))
			case 1:
				c.WriteMessage(pick(r, websocket.TextMessage, websocket.BinaryMessage), cont(r, 5000))
			case 2:
				c.WriteControl(pick(r, websocket.PingMessage, websocket.PongMessage), cont(r, 100), time.Now().Add(time.Second))
			case 3:
				c.WriteControl(websocket.CloseMessage, cont(r, 20), time.Now().Add(time.Second))
			case 4:
				c.NetConn().Write([]byte{byte(r.Intn(256)), byte(r.Intn(256)), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4})
			}
		}
		drain(r, c.NetConn())
		end(c.NetConn())
	case "certs":
		o := vp.ClientOpt{Certs: []tls.Certificate{h.badCert(r)}, Protos: pick(r, nil, []string{"h2"})}
		if r.Intn(2) == 0 {
			cl := p.HTTPClient(o)
			cl.Timeout = 15 * time.Second
			if resp, err := cl.Get("https://mtls.v.test/slow?size=10"); err == nil {
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
			}
			closeIdle(cl)
		} else if c, err := p.Dial("mtcp.v.test", o); err == nil {
			drain(r, c)
			end(c)
		}
	case "hold":
		switch r.Intn(7) {
		case 0:
			c, err := p.TCP("")
			if err == nil {
				b := vp.ClientHello("http.v.test")
				c.Write(b[:r.Intn(len(b))])
				return c
			}
		case 1:
			host, path := target(r)
			if c, err := p.Dial(host, vp.ClientOpt{}); err == nil {
				b := request(r, host, path, nil)
				write(c, b[:r.Intn(len(b))])
				return c
			}
		case 2:
			// Asks for a lot, and doesn't read it.
			host, path := pick(r, "docs.v.test", "over.v.test"), "/big"
			if host == "over.v.test" {
				path = "/docs/big"
			}
			if c, err := p.Dial(host, vp.ClientOpt{}); err == nil {
				fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: %s\r\n\r\n", path, host)
				return c
			}
		case 3, 4:
			// The same, with as many endpoints as possible.
			host := pick(r, "pki.v.test", "pki.v.test", "open.v.test", "console.v.test", "docs.v.test", "http.v.test", "login.v.test")
			c, err := p.Dial(host, vp.ClientOpt{Protos: []string{"h2"}})
			if err != nil {
				return
			}
			io.WriteString(c, http2.ClientPreface)
			fr := http2.NewFramer(c, c)
			fr.WriteSettings(http2.Setting{ID: http2.SettingInitialWindowSize, Val: 0})
			id := uint32(1)
			for _, path := range []string{"/certs", "/certs?admin=1", "/ca.pem", "/crl", "/", "/certs?get=static&file=certs.js", "/jwks", "/sub/file.txt", "/slow?size=100000"} {
				var hb bytes.Buffer
				enc := hpack.NewEncoder(&hb)
				for _, kv := range [][2]string{{":method", "GET"}, {":scheme", "https"}, {":authority", host}, {":path", path}, {"cookie", h.cookie}} {
					enc.WriteField(hpack.HeaderField{Name: kv[0], Value: kv[1]})
				}
				fr.WriteHeaders(http2.HeadersFrameParam{StreamID: id, BlockFragment: hb.Bytes(), EndStream: true, EndHeaders: true})
				id += 2
			}
			return c
		case 5:
			if c, clean, err := p.DialQUIC(pick(r, "quic", "qtcp")+".v.test", vp.ClientOpt{Protos: []string{"qq"}}); err == nil {
				for range 5 {
					if s, err := c.OpenStream(); err == nil {
						s.SetWriteDeadline(time.Now().Add(100 * time.Millisecond))
						s.Write(make([]byte, 200000))
					}
				}
				return closer(clean)
			}
		case 6:
			if c, err := p.Dial(pick(r, "mutehttp", "mute", "bw", "tcp")+".v.test", vp.ClientOpt{}); err == nil {
				c.SetWriteDeadline(time.Now().Add(100 * time.Millisecond))
				fmt.Fprintf(c, "POST / HTTP/1.1\r\nHost: mutehttp.v.test\r\nContent-Length: 1000000\r\n\r\n%s", strings.Repeat("x", 100000))
				return c
			}
		}
	}
	return nil
}

type closer func()

func (f closer) Close() error { f(); return nil }

// h3Headers is a HEADERS frame of HTTP/3 with literal fields.
func h3Headers(r *rand.Rand, host string) []byte {
	b := []byte{0, 0}
	_, path := target(r)
	for _, kv := range [][2]string{{":method", pick(r, "GET", "POST", "CONNECT", "")}, {":scheme", "https"}, {":authority", pick(r, host, host, "x")}, {":path", path}, {"cookie", mutS(r, "TLSPROXYAUTH=x")}, {pick(r, "content-length", "X", "te", "connection"), mutS(r, "5")}} {
		if len(kv[0]) > 7+100 || len(kv[1]) > 120 {
			continue
		}
		if len(kv[0]) >= 7 {
			b = append(b, 0x27, byte(len(kv[0])-7))
		} else {
			b = append(b, 0x20|byte(len(kv[0])))
		}
		b = append(b, kv[0]...)
		b = append(b, byte(len(kv[1])))
		b = append(b, kv[1]...)
	}
	out := []byte{1, 0x40 | byte(len(b)>>8), byte(len(b))}
	out = append(out, b...)
	if r.Intn(3) == 0 {
		out = append(out, 0, 5)
		out = append(out, "hello"...)
	}
	return out
}

// probe uses everything, and returns what doesn't work.
func (h *hostile) probe(r *rand.Rand) (bad []string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	try := func(name string, f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := f()
			if err != nil {
				// Once more.
				time.Sleep(time.Second)
				err = f()
			}
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				bad = append(bad, name+": "+vh.Trunc(err.Error(), 300))
			}
			h.run.Count("probes", 1)
		}()
	}
	for _, k := range heldKinds {
		try(k, func() error {
			c, err := establish(h.p, k)
			if err != nil {
				return err
			}
			rr := rand.New(rand.NewSource(1))
			defer c.close(rr)
			return c.alive()
		})
	}
	for _, which := range []int{3, 5, 6, 7, 8, 9, 10} {
		for range 2 {
			s := r.Int63()
			try(fmt.Sprint("operation ", which), func() error {
				what, err := h.op(rand.New(rand.NewSource(s)), which)
				if err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				return nil
			})
		}
	}
	s := r.Int63()
	try("client certificate", func() error {
		r := rand.New(rand.NewSource(s))
		b := h.p.Browser(vp.ClientOpt{})
		b.Timeout = promptly
		defer closeIdle(b.Client)
		if _, err := b.Login(h.idp, "https://pki.v.test/certs", "bob@v.test"); err != nil {
			return err
		}
		c, err := h.issue(r, b)
		if err != nil {
			return err
		}
		cl := h.p.HTTPClient(vp.ClientOpt{Certs: []tls.Certificate{*c}})
		cl.Timeout = promptly
		defer closeIdle(cl)
		resp, err := cl.Get("https://mtls.v.test/slow?size=200")
		if err != nil {
			return err
		}
		defer resp.Body.Close()
		if _, err := io.Copy(io.Discard, resp.Body); err != nil || resp.StatusCode != 200 {
			return fmt.Errorf("%v %v", resp.Status, err)
		}
		return nil
	})
	wg.Wait()
	return bad
}

var attacks34 = []string{"hello", "http1", "http1", "http1", "http2", "http2", "requests", "requests", "requests", "pki-post", "bad-idp", "idp-claims", "evil-backends", "evil-backends", "quic", "quic", "websocket", "certs", "hold"}

func TestP34(t *testing.T) {
	run := vh.New(t, "a case is a hostile input from a client, a server or an identity provider; distinct by its kind and seed. After each batch, with slow and stuck clients still connected, everything the proxy offers is used by other clients")
	h := newHostile(t, run)
	if bad := h.probe(vh.Rand("P34/first", 0)); len(bad) > 0 {
		run.Violate("broken", nil, "before anything hostile was sent: %q", bad)
		return
	}
	batches := vh.N(6, 60)
	per := 350
	for n := range batches {
		var mu sync.Mutex
		var holds []io.Closer
		var wg sync.WaitGroup
		var next atomic.Int64
		for range 16 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1)) - 1
					if i >= per {
						return
					}
					r := vh.Rand("P34", n*per+i)
					kind := pick(r, attacks34...)
					run.Count("attack "+kind, 1)
					run.Eval(true, kind, n*per+i)
					if c := h.attack(r, kind); c != nil {
						mu.Lock()
						holds = append(holds, c)
						mu.Unlock()
					}
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		late := false
		select {
		case <-done:
		case <-time.After(150 * time.Second):
			late = true
		}
		bad := h.probe(vh.Rand("P34/probe", n))
		for _, p := range vp.Log.TakePanics() {
			run.Violate("panic", p, "hostile input made the proxy panic: %s", vh.Trunc(p, 300))
		}
		if len(bad) > 0 {
			run.Violate("wedged", n, "after hostile input other clients are not served anymore: %q\n%s", bad, strings.Join(vh.Stacks("tlsproxy/proxy.")[:min(10, len(vh.Stacks("tlsproxy/proxy.")))], "\n\n"))
			break
		}
		if late {
			run.Inconclusive("batch %d takes very long", n)
			break
		}
		run.Count("connections held during the probes", len(holds))
		for _, c := range holds {
			c.Close()
		}
	}
	done := make(chan struct{})
	go func() { h.p.End(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Minute):
		run.Violate("stuck", nil, "the proxy does not stop anymore")
	}
	run.NeedAtLeast("probes", 30)
}

// TestP34Memory sends more than any endpoint could need.
func TestP34Memory(t *testing.T) {
	run := vh.New(t, "a case is a request with a body that is too big for what it is sent to; distinct by endpoint and protocol")
	h := newHostile(t, run)
	const size = 400 << 20
	for i, tc := range []struct{ url, ct string }{
		{"https://pki.v.test/certs?get=requestCert", "application/x-pem-file"},
		{"https://pki.v.test/certs?get=revokeCert", "application/x-www-form-urlencoded"},
		{"https://ssh.v.test/cert", "text/plain"},
		{"https://open.v.test/ocsp", "application/ocsp-request"},
		{"https://o.v.test/token", "application/x-www-form-urlencoded"},
		{"https://login.v.test/acs", "application/x-www-form-urlencoded"},
		{"https://login.v.test/passkey?get=AssertionOptions", "application/x-www-form-urlencoded"},
		{"https://docs.v.test/", "text/plain"},
		{"https://console.v.test/", "text/plain"},
		{"https://http.v.test/slow", "text/plain"},
		{"https://evilhttp.v.test/slow", "text/plain"},
	} {
		u, _ := url.Parse(tc.url)
		b := h.p.Browser(vp.ClientOpt{Protos: pick(vh.Rand("P34mem", i), nil, []string{"h2"})})
		b.Timeout = promptly
		if u.Host == "pki.v.test" || u.Host == "ssh.v.test" {
			b.Login(h.idp, tc.url, "alice@v.test")
		}
		runtime.GC()
		var before, peak runtime.MemStats
		runtime.ReadMemStats(&before)
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > peak.HeapAlloc {
					peak = m
				}
				select {
				case <-stop:
					return
				case <-time.After(5 * time.Millisecond):
				}
			}
		}()
		b.Timeout = 60 * time.Second
		src := &filler{n: size}
		_, err := b.Do("POST", tc.url, src, http.Header{"X-Csrf-Check": {"1"}, "Content-Type": {tc.ct}})
		close(stop)
		wg.Wait()
		closeIdle(b.Client)
		grown := int64(peak.HeapAlloc) - int64(before.HeapAlloc)
		run.Eval(true, tc.url)
		run.Count("MB sent", int(src.sent.Load()>>20))
		run.Sample(map[string]any{"url": tc.url, "sent": src.sent.Load(), "grown": grown, "err": fmt.Sprint(err)})
		// The clients and servers are in the same process, but they hold only
		// a little.
		if grown > size/2 {
			run.Violate("memory "+u.Host+u.Path+u.RawQuery, grown, "a request with a body of %d MB made the process use %d MB more", src.sent.Load()>>20, grown>>20)
		}
	}
	h.p.End()
}

// filler is a source of many bytes.
type filler struct {
	n    int64
	sent atomic.Int64
}

func (f *filler) Read(b []byte) (int, error) {
	if f.sent.Load() >= f.n {
		return 0, io.EOF
	}
	for i := range b {
		b[i] = 'a'
	}
	f.sent.Add(int64(len(b)))
	return len(b), nil
}

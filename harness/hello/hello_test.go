// Package hello: monitors for the very first bytes of a connection.
package hello

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"crypto/tls"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// ------------------------------------------------------------ reference

type feed struct {
	r *bytes.Reader
}

func (f *feed) Read(b []byte) (int, error)       { return f.r.Read(b) }
func (f *feed) Write(b []byte) (int, error)      { return len(b), nil }
func (f *feed) Close() error                     { return nil }
func (f *feed) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (f *feed) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (f *feed) SetDeadline(time.Time) error      { return nil }
func (f *feed) SetReadDeadline(time.Time) error  { return nil }
func (f *feed) SetWriteDeadline(time.Time) error { return nil }

var errStop = errors.New("stop")

// reference is what crypto/tls reads from the bytes.
func reference(b []byte) (name string, alpn []string, ok bool) {
	tc := &tls.Config{MinVersion: tls.VersionTLS10, GetConfigForClient: func(h *tls.ClientHelloInfo) (*tls.Config, error) {
		name, alpn, ok = h.ServerName, h.SupportedProtos, true
		return nil, errStop
	}}
	tls.Server(&feed{bytes.NewReader(b)}, tc).HandshakeContext(context.Background())
	return
}

// shape is a structural reading of the opening bytes per RFC 8446: is there one
// complete handshake record holding something with the layout of a ClientHello.
type shape struct {
	Complete  bool // a full first record of a legal size was sent
	Hello     bool // it starts with a ClientHello header
	Layout    bool // all the fields up to the extensions are there and nest properly
	OneRecord bool // the whole message is in that record
	OddName   bool // some entry in the server name list is not a host name
}

func structure(b []byte) (s shape) {
	if len(b) < 5 || b[0] != 0x16 {
		return
	}
	n := int(binary.BigEndian.Uint16(b[3:]))
	if n == 0 || n > 16384 || len(b) < 5+n {
		return
	}
	s.Complete = true
	rec := b[5 : 5+n]
	if rec[0] != 1 || len(rec) < 4 {
		return
	}
	s.Hello = true
	ml := int(rec[1])<<16 | int(rec[2])<<8 | int(rec[3])
	s.OneRecord = 4+ml <= len(rec)
	p := rec[4:]
	take := func(k int) []byte {
		if k > len(p) {
			p = nil
			return nil
		}
		x := p[:k]
		p = p[k:]
		return x
	}
	vec := func(lb int) ([]byte, bool) {
		h := take(lb)
		if h == nil {
			return nil, false
		}
		l := 0
		for _, c := range h {
			l = l<<8 | int(c)
		}
		if l > len(p) {
			return nil, false
		}
		return take(l), true
	}
	if len(p) < 34 {
		return
	}
	take(34)
	if _, ok := vec(1); !ok {
		return
	}
	if _, ok := vec(2); !ok {
		return
	}
	if _, ok := vec(1); !ok {
		return
	}
	ext, ok := vec(2)
	if !ok {
		return
	}
	p = ext
	for len(p) > 0 {
		t := take(2)
		if t == nil {
			return
		}
		d, ok := vec(2)
		if !ok {
			return
		}
		typ := binary.BigEndian.Uint16(t)
		if typ != 0 && typ != 16 {
			continue
		}
		save := p
		p = d
		list, ok := vec(2)
		if !ok {
			return
		}
		p = list
		for len(p) > 0 {
			if typ == 0 {
				if t := take(1); t[0] != 0 {
					s.OddName = true
				}
				if _, ok := vec(2); !ok {
					return
				}
			} else if _, ok := vec(1); !ok {
				return
			}
		}
		p = save
	}
	s.Layout = true
	return
}

// ------------------------------------------------------------ generators

func be16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
func vec8(b []byte) []byte {
	return append([]byte{byte(len(b))}, b...)
}
func vec16(b []byte) []byte { return append(be16(len(b)), b...) }

type ext struct {
	typ  int
	data []byte
}

func sniExt(name string) ext {
	return ext{0, vec16(append([]byte{0}, vec16([]byte(name))...))}
}
func alpnExt(protos []string) ext {
	var l []byte
	for _, p := range protos {
		l = append(l, vec8([]byte(p))...)
	}
	return ext{16, vec16(l)}
}

// build makes a ClientHello record from parts.
func build(r *rand.Rand, exts []ext, sid int, ciphers int) []byte {
	var b []byte
	b = append(b, 3, 3)
	rnd := make([]byte, 32)
	r.Read(rnd)
	b = append(b, rnd...)
	s := make([]byte, sid)
	r.Read(s)
	b = append(b, vec8(s)...)
	cs := []byte{0x13, 0x01, 0xc0, 0x2b}
	for i := 0; i < ciphers; i++ {
		cs = append(cs, byte(r.Intn(256)), byte(r.Intn(256)))
	}
	b = append(b, vec16(cs)...)
	b = append(b, 1, 0)
	var e []byte
	for _, x := range exts {
		e = append(e, be16(x.typ)...)
		e = append(e, vec16(x.data)...)
	}
	b = append(b, vec16(e)...)
	m := append([]byte{1, byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
	return append([]byte{0x16, 3, byte(1 + r.Intn(3))}, vec16(m)...)
}

var (
	names  = []string{"n0.v.test", "n1.v.test", "n2.v.test", "n3.v.test", "n4.v.test"}
	others = []string{"x.v.test", "n0.v.tes", "0.v.test", "v.test", "n0.v.test.evil", "10.0.0.1", "n1.v.test\x00", strings.Repeat("a.", 120) + "v.test", "xn--fiq228c.test", "N0.v.test", "n0..v.test", " n0.v.test", "*", "é.test", "localhost"}
	protos = []string{"h2", "http/1.1", "h3", "imap", "p0", "p1", "\x0a\x0a", "acme-tls/1", strings.Repeat("z", 255)}
)

func genHello(r *rand.Rand) (b []byte, class string) {
	name := names[r.Intn(len(names))]
	if r.Intn(5) == 0 {
		name = others[r.Intn(len(others))]
	}
	var al []string
	for _, k := range r.Perm(len(protos))[:r.Intn(4)] {
		al = append(al, protos[k])
	}
	if r.Intn(4) == 0 { // a real client
		tc := &tls.Config{ServerName: name, NextProtos: al, InsecureSkipVerify: true, MinVersion: []uint16{tls.VersionTLS10, tls.VersionTLS12, tls.VersionTLS13}[r.Intn(3)]}
		if r.Intn(3) == 0 && tc.MinVersion < tls.VersionTLS13 {
			tc.MaxVersion = tls.VersionTLS12
		}
		if r.Intn(4) == 0 {
			tc.ServerName = ""
		}
		return capture(tc), "client"
	}
	var exts []ext
	if r.Intn(8) > 0 {
		exts = append(exts, sniExt(name))
	}
	if r.Intn(4) > 0 && len(al) > 0 {
		exts = append(exts, alpnExt(al))
	}
	exts = append(exts, ext{43, []byte{4, 3, 4, 3, 3}}, ext{10, vec16([]byte{0, 29, 0, 23})}, ext{13, vec16([]byte{4, 3, 8, 4})})
	if r.Intn(2) == 0 {
		k := make([]byte, 32)
		r.Read(k)
		exts = append(exts, ext{51, vec16(append([]byte{0, 29}, vec16(k)...))})
	}
	for i := r.Intn(4); i > 0; i-- { // GREASE and unknown extensions
		g := r.Intn(16)
		d := make([]byte, r.Intn(40))
		r.Read(d)
		if t := g<<12 | 0x0a00 | g<<4 | 0x0a; !slices.ContainsFunc(exts, func(e ext) bool { return e.typ == t }) {
			exts = append(exts, ext{t, d})
		}
	}
	r.Shuffle(len(exts), func(i, j int) { exts[i], exts[j] = exts[j], exts[i] })
	sid := []int{0, 32, 32, r.Intn(33)}[r.Intn(4)]
	nc := r.Intn(20)
	class = "built"
	if r.Intn(6) == 0 { // padding up to the largest record
		class = "padded"
		base := len(build(rand.New(rand.NewSource(1)), exts, sid, nc)) - 5 + 4
		pad := r.Intn(16384 - base + 1)
		if r.Intn(3) == 0 {
			pad = 16384 - base - r.Intn(3)
		}
		exts = append(exts, ext{21, make([]byte, pad)})
	}
	b = build(r, exts, sid, nc)
	switch r.Intn(9) {
	case 0: // twice the same extension, or several names
		class = "dup"
		switch r.Intn(4) {
		case 0:
			b = build(r, append(exts, sniExt(names[r.Intn(5)])), sid, nc)
		case 1:
			b = build(r, append([]ext{alpnExt([]string{"p1"})}, exts...), sid, nc)
		case 2:
			two := append(append([]byte{0}, vec16([]byte("n1.v.test"))...), append([]byte{0}, vec16([]byte("n2.v.test"))...)...)
			b = build(r, []ext{{0, vec16(two)}, {43, []byte{4, 3, 4, 3, 3}}}, sid, nc)
		case 3:
			odd := append(append([]byte{byte(r.Intn(3))}, vec16([]byte("n1.v.test"))...), append([]byte{byte(1 + r.Intn(3))}, vec16([]byte("n2.v.test"))...)...)
			b = build(r, []ext{{0, vec16(odd)}, {43, []byte{4, 3, 4, 3, 3}}}, sid, nc)
		}
	}
	return b, class
}

func capture(tc *tls.Config) []byte {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	go tls.Client(a, tc).Handshake()
	hdr := make([]byte, 5)
	io.ReadFull(b, hdr)
	body := make([]byte, int(hdr[3])<<8|int(hdr[4]))
	io.ReadFull(b, body)
	return append(hdr, body...)
}

// mangle turns a hello into something else.
func mangle(r *rand.Rand, b []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	switch r.Intn(14) {
	case 0:
		for n := 1 + r.Intn(3); n > 0; n-- {
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		}
		return b, "flip"
	case 1:
		return b[:r.Intn(len(b))], "truncate"
	case 2:
		i := 5 + r.Intn(len(b)-5)
		return append(b[:i:i], b[i+r.Intn(len(b)-i):]...), "cut"
	case 3:
		i := r.Intn(len(b))
		x := make([]byte, 1+r.Intn(20))
		r.Read(x)
		return append(b[:i:i], append(x, b[i:]...)...), "insert"
	case 4: // wrong record length
		n := []int{0, 1, 2, 3, 4, 5, 38, 16384, 16385, 0xffff, len(b) - 6, len(b) - 4, r.Intn(65536)}[r.Intn(13)]
		copy(b[3:], be16(n))
		return b, "reclen"
	case 5: // wrong message length
		n := []int{0, 1, len(b) - 10, len(b) - 8, len(b), 0xffffff, r.Intn(1 << 24)}[r.Intn(7)]
		b[6], b[7], b[8] = byte(n>>16), byte(n>>8), byte(n)
		return b, "msglen"
	case 6:
		b[0] = []byte{0x14, 0x15, 0x17, 0x80, 0, 'G'}[r.Intn(6)]
		return b, "type"
	case 7:
		b[5] = byte(r.Intn(256))
		return b, "msgtype"
	case 8: // split over several records
		body := b[5:]
		var out []byte
		k := 1 + r.Intn(4)
		for len(body) > 0 {
			n := 1 + r.Intn(len(body))
			if k--; k == 0 {
				n = len(body)
			}
			out = append(append(out, 0x16, 3, 1), vec16(body[:n])...)
			body = body[n:]
		}
		return out, "records"
	case 9:
		x := make([]byte, r.Intn(400))
		r.Read(x)
		return x, "random"
	case 10:
		return []byte([]string{"GET / HTTP/1.1\r\nHost: n0.v.test\r\n\r\n", "SSH-2.0-x\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "\x80\x2e\x01\x03\x01\x00\x15\x00\x00\x00\x10", "", "\x16", "\x16\x03\x01\x00\x00", "\x16\x03\x01\x00\x01\x01", "\x16\x03\x01\x00\x04\x01\x00\x00\x00", "PROXY TCP4 1.2.3.4 5.6.7.8 1 2\r\n"}[r.Intn(10)]), "other"
	case 11: // random 16-bit word
		i := 9 + r.Intn(len(b)-10)
		copy(b[i:], be16([]int{0, 1, 0xffff, 0x7fff, r.Intn(65536), len(b) - i - 2, len(b) - i - 1}[r.Intn(7)]))
		return b, "word"
	case 12:
		return append(be16(r.Intn(65536)), b...), "prefix"
	default: // tail after the extensions, inside the record
		x := make([]byte, 1+r.Intn(30))
		n := len(b) - 5 + len(x)
		if n > 16384 {
			return b, "none"
		}
		b = append(b, x...)
		copy(b[3:], be16(n))
		if r.Intn(2) == 0 {
			m := n - 4
			b[6], b[7], b[8] = byte(m>>16), byte(m>>8), byte(m)
		}
		return b, "tail"
	}
}

// ------------------------------------------------------------ P03

type got struct {
	id   int
	data []byte
	done bool
}

// TestP03: what is routed, by what, and which bytes arrive.
func TestP03(t *testing.T) {
	run := vh.New(t, "A case is one connection: opening bytes (real, built or mangled ClientHello, or something else), a segmentation and a tail; the backend that was contacted and the bytes it received are compared with what crypto/tls reads from the same bytes. Distinct non-trivial = distinct opening bytes.")
	e := vp.NewEnv(t)
	type route struct {
		name  string
		alpn  []string
		first bool
	}
	routes := []route{{"n0.v.test", []string{"h2", "http/1.1"}, true}, {"n1.v.test", []string{"p0"}, true}, {"n1.v.test", []string{"p1", "h2"}, false}, {"n2.v.test", []string{"h3"}, true}, {"n2.v.test", []string{"http/1.1", "imap", strings.Repeat("z", 255)}, false}, {"n3.v.test", []string{"\x0a\x0a"}, true}, {"n0.v.test", []string{"imap"}, false}}
	var mu sync.Mutex
	seen := map[string]*got{}
	contacted := 0
	var bes []*proxy.Backend
	for id, rt := range routes {
		s := vp.NewTCPServer(t, func(c net.Conn) {
			br := bufio.NewReader(c)
			// PROXY v2 header: tells which client this is.
			h := make([]byte, 16)
			if _, err := io.ReadFull(br, h); err != nil {
				return
			}
			body := make([]byte, binary.BigEndian.Uint16(h[14:]))
			io.ReadFull(br, body)
			key := fmt.Sprintf("%s:%d", net.IP(body[:4]), binary.BigEndian.Uint16(body[8:]))
			g := &got{id: id}
			mu.Lock()
			contacted++
			if old := seen[key]; old != nil {
				run.Violate("contact-twice", key, "client %s was connected to backends %d and %d", key, old.id, id)
			}
			seen[key] = g
			mu.Unlock()
			b, _ := io.ReadAll(br)
			mu.Lock()
			g.data, g.done = b, true
			mu.Unlock()
			io.WriteString(c, "bye")
		})
		bes = append(bes, &proxy.Backend{ServerNames: []string{rt.name}, Mode: "TLSPASSTHROUGH", ALPNProtos: vp.Ptr(rt.alpn), Addresses: []string{s.Addr}, ProxyProtocolVersion: "v2"})
	}
	// Backends that terminate TLS see the same openings.
	term := vp.NewTCPServer(t, func(c net.Conn) {
		io.Copy(io.Discard, c)
	})
	bes = append(bes, &proxy.Backend{ServerNames: []string{"n4.v.test"}, Mode: "TCP", Addresses: []string{term.Addr}})
	cfg := e.Config(false, bes...)
	cfg.DefaultServerName = "n3.v.test"
	p := e.Start(cfg)
	defer p.End()

	expect := func(name string, alpn []string) int {
		if name == "" {
			name = "n3.v.test"
		}
		if name == "n4.v.test" {
			return 100
		}
		for _, a := range alpn {
			for id, rt := range routes {
				if rt.name == name && slices.Contains(rt.alpn, a) {
					return id
				}
			}
		}
		for id, rt := range routes {
			if rt.name == name && rt.first {
				return id
			}
		}
		return -1
	}
	// Clients that say nothing, or not enough, or too slowly.
	type held struct {
		c    net.Conn
		what string
	}
	var hold []held
	good := vp.ClientHello("n0.v.test", "h2")
	start := time.Now()
	for k, pre := range [][]byte{nil, {0x16}, good[:5], good[:100], {0x16, 3, 1, 0x40, 0}} {
		c, err := p.TCP("")
		if err != nil {
			t.Fatal(err)
		}
		c.Write(pre)
		hold = append(hold, held{c, fmt.Sprintf("silent after %d bytes (%d)", len(pre), k)})
	}
	slow, err := p.TCP("")
	if err != nil {
		t.Fatal(err)
	}
	hold = append(hold, held{slow, "one byte every 2 s"})
	go func() {
		for _, b := range good {
			if _, err := slow.Write([]byte{b}); err != nil {
				return
			}
			time.Sleep(2 * time.Second)
		}
	}()

	n := vh.N(20000, 300000)
	vh.Parallel(16, n, func(i int) {
		r := vh.Rand("P03", i)
		hello, class := genHello(r)
		if r.Intn(2) == 0 {
			var m string
			hello, m = mangle(r, hello)
			class += "+" + m
		}
		tail := make([]byte, []int{0, 1, 10, 1000, 20000}[r.Intn(5)])
		r.Read(tail)
		all := append(append([]byte{}, hello...), tail...)
		name, alpn, refOK := reference(all)
		st := structure(all)
		c, err := p.TCP(fmt.Sprintf("127.%d.%d.%d", 211+i/62500%40, 1+i/250%250, 1+i%250))
		if err != nil {
			run.Inconclusive("dial: %v", err)
			return
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(100 * time.Second))
		key := c.LocalAddr().String()
		rep := map[string]any{"opening": hex.EncodeToString(hello[:min(len(hello), 2000)]), "sha": fmt.Sprintf("%x", sha256.Sum256(all)), "class": class, "name": name, "alpn": alpn, "tls_accepts": refOK, "structure": st, "tail": len(tail)}
		// Segmentation.
		go func() {
			r := vh.Rand("P03seg", i)
			mode := r.Intn(5)
			rest := all
			for len(rest) > 0 {
				k := len(rest)
				switch mode {
				case 1:
					k = 1 + r.Intn(len(rest))
				case 2:
					k = min(len(rest), 1+r.Intn(8))
					if len(all)-len(rest) > 400 {
						k = len(rest)
					}
				case 3:
					k = min(len(rest), []int{5, 1, 4, len(hello)}[r.Intn(4)])
				}
				if mode == 0 {
					k = len(rest)
				}
				if _, err := c.Write(rest[:k]); err != nil {
					return
				}
				rest = rest[k:]
				if mode > 1 && r.Intn(6) == 0 {
					time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
				}
			}
			c.CloseWrite()
		}()
		resp, rerr := io.ReadAll(c)
		var ne net.Error
		if errors.As(rerr, &ne) && ne.Timeout() {
			run.Violate("hang", rep, "the connection was neither answered nor closed in 100 s (%s)", class)
			return
		}
		run.Eval(true, string(hello))
		run.Count("class-"+strings.SplitN(class, "+", 2)[0], 1)
		g := func() *got { mu.Lock(); defer mu.Unlock(); return seen[key] }()
		if g == nil && string(resp) == "bye" {
			run.Violate("lost", rep, "a backend answered but its record is missing")
			return
		}
		exp := -1
		if refOK {
			exp = expect(name, alpn)
			if st.Layout && st.OneRecord {
				run.Count("tls-readable", 1)
			}
		}
		if g != nil {
			// Wait for the end of the stream at the backend.
			if !vh.Eventually(60*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return g.done }) {
				run.Violate("no-eof", rep, "the backend did not see the end of the client's bytes")
				return
			}
			run.Count("routed", 1)
			if !bytes.Equal(g.data, all) {
				run.Violate("replay", rep, "backend %d received %d bytes that differ from the %d bytes sent (%s)", g.id, len(g.data), len(all), class)
			}
			if refOK && g.id != exp {
				run.Violate("route", rep, "TLS reads name %q ALPN %q, i.e. backend %d; backend %d was contacted", name, alpn, exp, g.id)
			}
			if !st.Complete || !st.Hello || !st.Layout {
				run.Violate("malformed-routed", rep, "an opening without a well-formed ClientHello (%s) reached backend %d", class, g.id)
			}
			if !refOK {
				run.Count("routed-though-tls-rejects", 1)
			}
			if !bytes.Contains(all, []byte(routes[g.id].name)) && routes[g.id].name != "n3.v.test" {
				run.Violate("name-not-there", rep, "backend %d was contacted but its name is not in the opening bytes", g.id)
			}
			if string(resp) != "bye" {
				run.Violate("answer", rep, "the client read %q instead of the backend's answer", vh.Trunc(string(resp), 50))
			}
			return
		}
		run.Count("refused", 1)
		if refOK && exp >= 0 && exp < 100 && st.OneRecord && st.Layout && !st.OddName {
			run.Violate("refused", rep, "TLS reads name %q ALPN %q, i.e. backend %d; the connection was refused (%s): %x", name, alpn, exp, class, resp[:min(len(resp), 16)])
		}
		if refOK && exp == -1 && st.OneRecord && st.Layout && !st.OddName && rerr == nil {
			run.Count("unknown-name", 1)
			if len(tail) < 1000 && !bytes.Equal(resp, []byte{0x15, 3, 3, 0, 2, 2, 0x70}) && !bytes.HasSuffix(resp, []byte{0x70}) {
				run.Violate("alert", rep, "an unknown name was answered %x instead of an unrecognized_name alert", resp[:min(len(resp), 16)])
			}
		}
		// The proxy still serves others.
		if i%97 == 0 {
			if !probe(p, e) {
				run.Violate("dead", rep, "a regular connection failed after this one")
			}
			run.Count("probes", 1)
		}
	})
	for _, h := range hold {
		h.c.SetReadDeadline(start.Add(120 * time.Second))
		_, err := io.Copy(io.Discard, h.c)
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			run.Violate("held", h.what, "a client that was %s was not disconnected in two minutes", h.what)
		}
		h.c.Close()
		run.Count("held-connections-ended", 1)
	}
	for _, pn := range vp.Log.TakePanics() {
		run.Violate("panic", pn, "a handler panicked: %s", vh.Trunc(pn, 400))
	}
	run.NeedAtLeast("routed", n/5)
	run.NeedAtLeast("refused", n/20)
	run.NeedAtLeast("unknown-name", n/200)
	run.NeedAtLeast("tls-readable", n/5)
}

// probe makes an ordinary connection to the terminating backend.
func probe(p *vp.P, e *vp.Env) bool {
	c, err := p.Dial("n4.v.test", vp.ClientOpt{})
	if err != nil {
		return false
	}
	c.Close()
	return true
}

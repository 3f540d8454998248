// Package httpx: monitors for the HTTP forwarding layer.
package httpx

import (
	"bytes"
	"context"
	"crypto/sha256"
	"crypto/tls"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

const (
	tokHeader  = "X-V-Token"
	respHeader = "X-V-Resp"
)

// seen is what an upstream server saw of one request.
type seen struct {
	Upstream string
	Method   string
	URI      string
	Path     string
	Query    string
	Host     string
	Header   http.Header
	Body     string // length and hash
	Proto    string
	BodyErr  string
	CL       int64
	RespSum  string // what it answered
	done     bool
}

// recorder collects what all upstreams of a case saw, by request token.
type recorder struct {
	mu  sync.Mutex
	got map[string][]*seen
}

func newRecorder() *recorder { return &recorder{got: map[string][]*seen{}} }

func (r *recorder) add(tok string, s *seen) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.got[tok] = append(r.got[tok], s)
}

func (r *recorder) get(tok string) []*seen {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*seen(nil), r.got[tok]...)
}

func digest(b []byte) string {
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d:%s", len(b), hex.EncodeToString(h[:6]))
}

// respPlan is the response an upstream gives; it is a function of the token,
// so that the client side knows what must come back.
type respPlan struct {
	Status  int
	Header  http.Header
	Body    []byte
	CL      bool
	Abort   int // bytes after which the upstream kills the response, -1 for never
	Trailer http.Header
	Chunk   int
}

func plan(upstream, tok, method string) respPlan {
	h := sha256.Sum256([]byte(upstream + "/" + tok))
	r := rand.New(rand.NewSource(int64(h[0]) | int64(h[1])<<8 | int64(h[2])<<16 | int64(h[3])<<24))
	p := respPlan{Header: http.Header{}, Abort: -1, Trailer: http.Header{}}
	p.Status = []int{200, 200, 200, 200, 201, 202, 204, 206, 301, 302, 304, 307, 400, 401, 403, 404, 405, 410, 418, 429, 500, 503}[r.Intn(22)]
	p.Header.Set("X-R-Token", tok)
	p.Header.Set("X-R-Upstream", upstream)
	for i := r.Intn(4); i > 0; i-- {
		p.Header.Add(fmt.Sprintf("X-R-%d", r.Intn(3)), randValue(r))
	}
	for i := r.Intn(3); i > 0; i-- {
		p.Header.Add("Set-Cookie", fmt.Sprintf("c%d=%d; Path=/; HttpOnly", i, r.Intn(1000)))
	}
	opt := func(k string, v ...string) {
		if r.Intn(3) == 0 {
			p.Header.Set(k, v[r.Intn(len(v))])
		}
	}
	opt("Etag", `"abc"`, `W/"x"`)
	opt("Cache-Control", "no-store", "public, max-age=3")
	opt("Content-Encoding", "gzip", "br", "identity")
	opt("Vary", "Accept-Encoding", "*")
	opt("Location", "/elsewhere?x=1", "https://other.example/%2f")
	opt("Server", "up/1.0")
	opt("Strict-Transport-Security", "max-age=1")
	opt("Alt-Svc", `h3=":9999"`, "clear")
	opt("Content-Security-Policy", "default-src 'self'")
	opt("X-Forwarded-For", "6.6.6.6")
	opt("Via", "1.1 up")
	opt("Www-Authenticate", "Basic realm=x")
	opt("Last-Modified", "Mon, 02 Jan 2006 15:04:05 GMT")
	opt("Content-Type", "text/plain; charset=utf-8", "application/octet-stream", "text/event-stream")
	if p.Header.Get("Content-Type") == "" {
		p.Header.Set("Content-Type", "x/y")
	}
	size := []int{0, 1, 10, 1000, 4096, 32768, 32769, 100000, 300000}[r.Intn(9)]
	if size > 0 {
		size = size - r.Intn(size)/3
	}
	if p.Status == 204 || p.Status == 304 {
		size = 0
	}
	p.Body = make([]byte, size)
	r.Read(p.Body)
	p.CL = r.Intn(2) == 0
	p.Chunk = 1 + r.Intn(40000)
	if size > 100 && method != "HEAD" && r.Intn(12) == 0 {
		p.Abort = r.Intn(size)
	}
	if !p.CL && p.Abort < 0 && size > 0 && method != "HEAD" && r.Intn(4) == 0 {
		for i := 1 + r.Intn(2); i > 0; i-- {
			p.Trailer.Set(fmt.Sprintf("X-T-%d", i), randValue(r))
		}
	}
	return p
}

func randValue(r *rand.Rand) string {
	vals := []string{"a", "a b", "a, b", `"q,u\"ote"`, "x=1; y=2", "é-ünï", "0", strings.Repeat("z", r.Intn(200)+1), "tab\tin", "%41%2f", "a;b=c"}
	return vals[r.Intn(len(vals))] + fmt.Sprint(r.Intn(100))
}

// handler returns the upstream's http.Handler.
func (rec *recorder) handler(name string) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		s := &seen{Upstream: name, Method: req.Method, URI: req.RequestURI, Path: req.URL.Path, Query: req.URL.RawQuery, Host: req.Host, Header: req.Header.Clone(), Proto: req.Proto, CL: req.ContentLength}
		tok := req.Header.Get(tokHeader)
		rec.add(tok, s)
		b, err := io.ReadAll(req.Body)
		rec.mu.Lock()
		s.Body = digest(b)
		if err != nil {
			s.BodyErr = err.Error()
		}
		s.done = true
		rec.mu.Unlock()
		p := plan(name, tok, req.Method)
		for k, v := range p.Header {
			w.Header()[k] = v
		}
		if p.CL && p.Status != 204 && p.Status != 304 {
			w.Header().Set("Content-Length", fmt.Sprint(len(p.Body)))
		}
		for k := range p.Trailer {
			w.Header().Add("Trailer", k)
		}
		w.WriteHeader(p.Status)
		if req.Method == "HEAD" || p.Status == 204 || p.Status == 304 {
			return
		}
		sent := 0
		for sent < len(p.Body) {
			n := min(p.Chunk, len(p.Body)-sent)
			if p.Abort >= 0 && sent+n > p.Abort {
				w.Write(p.Body[sent:p.Abort])
				http.NewResponseController(w).Flush()
				panic(http.ErrAbortHandler)
			}
			if _, err := w.Write(p.Body[sent : sent+n]); err != nil {
				return
			}
			if p.Chunk%3 == 0 {
				http.NewResponseController(w).Flush()
			}
			sent += n
		}
		for k, v := range p.Trailer {
			w.Header()[k] = v
		}
	})
}

// specClean is the documented path normalization: dot segments and duplicate
// slashes are removed and a trailing slash is kept.
func specClean(p string) string {
	if p == "" || p[0] != '/' {
		p = "/" + p
	}
	var out []string
	segs := strings.Split(p[1:], "/")
	for _, s := range segs {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	res := "/" + strings.Join(out, "/")
	if len(out) > 0 && strings.HasSuffix(p, "/") {
		res += "/"
	}
	return res
}

var (
	headNames = []string{"Accept", "Accept-Language", "Authorization", "Cookie", "Content-Type", "If-None-Match", "If-Modified-Since", "Range", "User-Agent", "Referer", "Origin",
		"X-Requested-With", "X-V-1", "X-V-2", "X-Real-Ip", "X-Forwarded-Proto", "X-Forwarded-Host", "Forwarded", "Accept-Encoding", "Cache-Control", "Dnt", "X-Csrf-Token", "Content-Language"}
	methods = []string{"GET", "GET", "GET", "HEAD", "POST", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "PROPFIND", "FOO"}
)

func genPath(r *rand.Rand, prefixes []string) string {
	segs := []string{"a", "b", "..", ".", "", "c d", "%2e%2e", "%2F", "%2f..", "é", "%C3%A9", "x.y", "...", "a;b=c", "a:b", "a+b", "%25", "~u", "@", "*", "$&", "%41", "..a", "%5C", "a%00b"}
	p := ""
	if r.Intn(3) > 0 {
		p = prefixes[r.Intn(len(prefixes))]
		if r.Intn(6) == 0 {
			p = strings.TrimSuffix(p, "/")
		}
	} else {
		p = "/"
	}
	n := r.Intn(5)
	for i := 0; i < n; i++ {
		if !strings.HasSuffix(p, "/") || r.Intn(10) == 0 {
			p += "/"
		}
		p += segs[r.Intn(len(segs))]
	}
	if r.Intn(4) == 0 {
		p += "/"
	}
	return p
}

var queries = []string{"", "", "a=1", "a=1&b=2&a=3", "x=%20%2F%3D", "a;b", "a=1;b=2", "q=%zz", "u=é", "noeq", "&&", "=v", "a=b=c", "redirect=https%3A%2F%2Fx", "a[]=1&a[]=2", "p=a+b"}

type override struct {
	paths    []string
	upstream string // name
	static   string // content of index file, if static
	sanitize *bool
	headers  *map[string]string
	proto    *string
	clear    bool // no addresses
}

type p04backend struct {
	host      string
	name      string
	mode      string
	proto     *string
	sanitize  *bool
	headers   map[string]string
	overrides []override
	h3        bool
}

func fwdTLS(e *vp.Env) *tls.Config {
	tc := e.ServerTLS([]string{"h2", "http/1.1"}, "up.v.test")
	return tc
}

func TestP04(t *testing.T) {
	run := vh.New(t, "A case is one HTTP request through the proxy (client protocol, upstream protocol, path, override, method, body, headers, response plan), compared at the upstream and at the client with what was sent; distinct non-trivial = distinct (config, protocols, method, path, query, response class).")
	e := vp.NewEnv(t)
	for i := 0; i < vh.N(40, 500); i++ {
		p04case(t, run, e, i)
		for _, s := range vp.Log.TakePanics() {
			run.Violate("panic", s, "a request handler panicked: %s", vh.Trunc(s, 400))
		}
	}
	p04loop(t, run, e)
	p04upgrade(t, run, e)
	run.NeedAtLeast("forwarded", 800)
	run.NeedAtLeast("override", 50)
	run.NeedAtLeast("h2", 100)
	run.NeedAtLeast("h3", 60)
	run.NeedAtLeast("aborted-by-upstream", 5)
	run.NeedAtLeast("loops-refused", 3)
}

// upstreams starts one server per upstream protocol; all share rec.
func startUpstream(t *testing.T, e *vp.Env, rec *recorder, name, mode, proto string) string {
	h := rec.handler(name)
	if mode == "HTTP" {
		return vp.NewHTTPServer(t, nil, h).Addr
	}
	if proto == "h3" {
		return vp.NewH3Server(t, e.ServerTLS([]string{"h3"}, "up.v.test"), h)
	}
	return vp.NewHTTPServer(t, fwdTLS(e), h).Addr
}

func p04case(t *testing.T, run *vh.Run, e *vp.Env, ci int) {
	r := vh.Rand("P04", ci)
	rec := newRecorder()
	var bes []*p04backend
	var pbs []*proxy.Backend
	protos := []*string{nil, vp.Ptr("http/1.1"), vp.Ptr("h2"), vp.Ptr("h3"), vp.Ptr("")}
	prefixes := []string{"/", "/a/", "/ab/", "/a/b/", "/x/", "/v1/", "/é/"}
	pickBool := func() *bool { return []*bool{nil, nil, vp.Ptr(true), vp.Ptr(false)}[r.Intn(4)] }
	pd := vh.Work(t)
	for k := 0; k < 5; k++ {
		b := &p04backend{host: fmt.Sprintf("f%d.v.test", k), mode: "HTTPS", proto: protos[k], sanitize: pickBool(), h3: k != 1}
		if k == 0 || (k == 4 && r.Intn(2) == 0) {
			b.mode, b.proto = "HTTP", nil
		}
		// With an empty BackendProto the upstream is contacted with the
		// client's own protocol: it must speak h1, h2 and h3 on one address.
		upproto := ""
		if b.proto != nil {
			upproto = *b.proto
		}
		b.name = fmt.Sprintf("c%db%d", ci, k)
		var addr string
		if b.mode == "HTTPS" && b.proto != nil && *b.proto == "" {
			addr = startBoth(t, e, rec, b.name)
		} else {
			addr = startUpstream(t, e, rec, b.name, b.mode, upproto)
		}
		pb := &proxy.Backend{ServerNames: []string{b.host}, Mode: b.mode, Addresses: []string{addr}, BackendProto: b.proto, SanitizePath: b.sanitize,
			ForwardServerName: "up.v.test", ForwardRootCAs: []string{e.CA.PEM}, ForwardTimeout: 30 * time.Second}
		al := []string{"h2", "http/1.1"}
		if b.h3 {
			al = append(al, "h3")
		}
		pb.ALPNProtos = &al
		if b.mode == "HTTP" {
			pb.ForwardServerName, pb.ForwardRootCAs = "", nil
		}
		if r.Intn(2) == 0 {
			b.headers = map[string]string{"X-Ext-Ip": "${REMOTE_IP}", "X-V-1": "", "X-Const": "k;=,v", "X-Name": "<${SERVER_NAME}>"}
			pb.ForwardHTTPHeaders = b.headers
		}
		no := r.Intn(4)
		used := map[int]bool{}
		for o := 0; o < no; o++ {
			ov := override{}
			for n := 1 + r.Intn(2); n > 0; n-- {
				x := 1 + r.Intn(len(prefixes)-1)
				if used[x] {
					continue
				}
				used[x] = true
				ov.paths = append(ov.paths, prefixes[x])
			}
			if len(ov.paths) == 0 {
				continue
			}
			po := &proxy.PathOverride{Paths: ov.paths}
			if r.Intn(4) == 0 {
				ov.static = fmt.Sprintf("static-%s-%d", b.name, o)
				dir := fmt.Sprintf("%s/%s-%d", pd, b.name, o)
				vh.MustWrite(t, dir+"/index.html", []byte(ov.static))
				po.DocumentRoot = dir
			} else {
				ov.upstream = fmt.Sprintf("%so%d", b.name, o)
				m, up := b.mode, "http/1.1"
				if b.mode == "HTTPS" {
					switch r.Intn(4) {
					case 0:
						up, ov.proto = "h2", vp.Ptr("h2")
					case 1:
						up, ov.proto = "h3", vp.Ptr("h3")
					case 2:
						ov.proto = vp.Ptr("http/1.1")
					default:
						if b.proto != nil && *b.proto != "" {
							up = *b.proto
						} else if b.proto != nil {
							ov.proto = vp.Ptr("http/1.1")
						}
					}
				}
				po.Addresses = []string{startUpstream(t, e, rec, ov.upstream, m, up)}
				if m == "HTTPS" {
					po.ForwardServerName, po.ForwardRootCAs, po.BackendProto = "up.v.test", []string{e.CA.PEM}, ov.proto
				}
				po.ForwardTimeout = 30 * time.Second
				ov.sanitize = pickBool()
				po.SanitizePath = ov.sanitize
				if r.Intn(3) == 0 {
					ov.headers = &map[string]string{"X-Ovr": "o-${SERVER_NAME}"}
					po.ForwardHTTPHeaders = ov.headers
				}
			}
			pb.PathOverrides = append(pb.PathOverrides, po)
			b.overrides = append(b.overrides, ov)
		}
		bes, pbs = append(bes, b), append(pbs, pb)
	}
	p := e.Start(e.Config(true, pbs...))
	defer p.End()

	c1 := p.HTTPClient(vp.ClientOpt{Protos: []string{"http/1.1"}})
	c2 := p.HTTPClient(vp.ClientOpt{Protos: []string{"h2"}})
	c3, close3 := p.H3Client(vp.ClientOpt{})
	defer close3()
	defer c1.CloseIdleConnections()
	defer c2.CloseIdleConnections()
	type job struct {
		b      *p04backend
		client string
		method string
		raw    string
		query  string
		hdr    http.Header
		body   []byte
		cl     bool
		seed   int64
		loop   bool
	}
	var jobs []job
	for k := 0; k < vh.N(260, 300); k++ {
		b := bes[r.Intn(len(bes))]
		j := job{b: b, client: []string{"h1", "h2", "h3"}[r.Intn(3)], method: methods[r.Intn(len(methods))], raw: genPath(r, prefixes), query: queries[r.Intn(len(queries))], hdr: http.Header{}, seed: r.Int63()}
		if !b.h3 && j.client == "h3" {
			j.client = "h1"
		}
		for n := r.Intn(6); n > 0; n-- {
			h := headNames[r.Intn(len(headNames))]
			switch h {
			case "Range":
				j.hdr.Set(h, "bytes=0-4")
			case "Accept-Encoding":
				j.hdr.Set(h, "gzip, br")
			case "If-Modified-Since":
				j.hdr.Set(h, "Mon, 02 Jan 2006 15:04:05 GMT")
			case "Cookie":
				j.hdr.Set(h, []string{"a=b", "a=b; c=d", `j={"x":1}; k="q"`, "TLSPROXYAUTH=notreally; z=1"}[r.Intn(4)])
			case "X-V-1", "X-V-2", "Accept", "Forwarded", "Accept-Language":
				j.hdr.Add(h, randValue(r))
			default:
				j.hdr.Set(h, randValue(r))
			}
		}
		if r.Intn(6) == 0 {
			j.hdr.Set("Via", "1.1 somewhere, 1.0 127.0.0.1:1")
			if r.Intn(3) == 0 {
				j.hdr.Add("Via", "2.0 else")
			}
			if r.Intn(3) == 0 {
				me := p.Addr
				j.loop = true
				switch r.Intn(4) {
				case 0:
					j.hdr["Via"] = []string{"HTTP/1.1 " + me}
				case 1:
					j.hdr["Via"] = []string{"1.1 a", "1.1 " + me}
				case 2:
					j.hdr["Via"] = []string{"1.1 a, 2.0 " + me + ", 1.1 b"}
				case 3:
					j.hdr["Via"] = []string{"1.1 a,2.0 " + me}
				}
			}
		}
		if j.method == "POST" || j.method == "PUT" || j.method == "PATCH" || (j.method != "GET" && j.method != "HEAD" && r.Intn(2) == 0) {
			j.body = make([]byte, []int{0, 1, 100, 5000, 70000, 200000}[r.Intn(6)])
			r.Read(j.body)
			j.cl = r.Intn(2) == 0
		}
		jobs = append(jobs, j)
	}
	vh.Parallel(8, len(jobs), func(k int) {
		j := jobs[k]
		u, err := url.Parse("https://" + j.b.host + j.raw)
		if err != nil {
			return
		}
		u.RawQuery = j.query
		tok := fmt.Sprintf("t%d-%d", ci, k)
		var body io.Reader
		if j.body != nil {
			if j.cl {
				body = bytes.NewReader(j.body)
			} else {
				body = struct{ io.Reader }{&slow{b: j.body, r: rand.New(rand.NewSource(j.seed))}}
			}
		}
		req, err := http.NewRequest(j.method, u.String(), body)
		if err != nil {
			return
		}
		req.URL = u
		for h, v := range j.hdr {
			req.Header[h] = v
		}
		if req.Header.Get("User-Agent") == "" {
			req.Header.Set("User-Agent", "")
		}
		req.Header.Set(tokHeader, tok)
		cl := map[string]*http.Client{"h1": c1, "h2": c2, "h3": c3}[j.client]
		wantURI := u.RequestURI()

		// What the specification says about this request.
		clean := specClean(u.Path)
		upstream, sanitize, headers, static, redirect := j.b.name, j.b.sanitize == nil || *j.b.sanitize, j.b.headers, "", ""
		isOv := false
	L:
		for _, o := range j.b.overrides {
			for _, pr := range o.paths {
				if clean+"/" == pr {
					redirect = pr
					break L
				}
				if strings.HasPrefix(clean, pr) {
					upstream, static, isOv = o.upstream, o.static, true
					if o.sanitize != nil {
						sanitize = *o.sanitize
					}
					if o.headers != nil {
						headers = *o.headers
					}
					break L
				}
			}
		}
		rep := map[string]any{"backend": j.b.host, "mode": j.b.mode, "backendProto": j.b.proto, "client": j.client, "method": j.method, "uri": wantURI, "headers": j.hdr, "bodyLen": len(j.body), "declaredLength": j.cl, "expectUpstream": upstream, "override": isOv}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		resp, err := cl.Do(req.WithContext(ctx))
		var rb []byte
		var rerr error
		if err == nil {
			rb, rerr = io.ReadAll(resp.Body)
			resp.Body.Close()
		}
		run.Count(j.client, 1)
		run.Eval(true, ci, j.b.mode, deref(j.b.proto), j.client, j.method, wantURI, isOv, len(j.body), j.cl)
		got := rec.get(tok)
		if redirect != "" || static != "" || j.loop {
			if len(got) != 0 {
				run.Violate("forwarded-unexpectedly", rep, "request was forwarded to %s although it is %s", got[0].Upstream, map[bool]string{true: "a loop, redirect or static path"}[true])
			}
			if err != nil {
				run.Violate("no-answer", rep, "no answer: %v", err)
				return
			}
			switch {
			case redirect != "":
				run.Count("redirected", 1)
				loc := resp.Header.Get("Location")
				want := (&url.URL{Path: redirect, RawQuery: u.RawQuery}).String()
				if resp.StatusCode/100 != 3 || unescaped(loc) != unescaped(want) {
					run.Violate("redirect", rep, "expected a redirect to %q, got status %d location %q", want, resp.StatusCode, loc)
				}
			case static != "":
				run.Count("static", 1)
				if resp.StatusCode == 200 && j.method == "GET" && string(rb) != static && resp.Header.Get("Content-Range") == "" {
					run.Violate("static", rep, "path override with a document root served %q", vh.Trunc(string(rb), 100))
				}
			default:
				run.Count("loops-refused", 1)
				if resp.StatusCode != 508 {
					run.Violate("loop-not-refused", rep, "a request that already passed through the proxy got status %d instead of 508", resp.StatusCode)
				}
			}
			return
		}
		pl := plan(upstream, tok, j.method)
		if err != nil {
			if pl.Abort >= 0 {
				run.Count("aborted-by-upstream", 1)
				return
			}
			if strings.Contains(err.Error(), "Client.Timeout") || errors.Is(err, context.DeadlineExceeded) {
				run.Violate("no-answer", rep, "no answer within 60 s: %v", err)
				return
			}
			run.Violate("failed", rep, "the request failed: %v", err)
			return
		}
		if len(got) != 1 {
			// An idempotent request whose upstream died before answering may be
			// retried; all others are forwarded once.
			if !(pl.Abort >= 0 && len(got) > 1) {
				run.Violate("not-exactly-once", rep, "the request reached upstreams %d times (status %d, body %q)", len(got), resp.StatusCode, vh.Trunc(string(rb), 100))
				return
			}
		}
		s := got[0]
		run.Count("forwarded", 1)
		if isOv {
			run.Count("override", 1)
		}
		if s.Upstream != upstream {
			run.Violate("wrong-upstream", rep, "the request went to %s, its path selects %s", s.Upstream, upstream)
			return
		}
		if s.Method != j.method {
			run.Violate("method", rep, "method %s became %s", j.method, s.Method)
		}
		if s.Query != u.RawQuery {
			run.Violate("query", rep, "query %q became %q", u.RawQuery, s.Query)
		}
		switch {
		case !sanitize || clean == u.Path:
			if s.URI != wantURI {
				run.Violate("path", rep, "request target %q became %q (sanitize=%v)", wantURI, s.URI, sanitize)
			}
		case s.Path != clean:
			run.Violate("path", rep, "path %q became %q instead of %q", u.Path, s.Path, clean)
		}
		wantBody := digest(j.body)
		dropOK := !j.cl && j.method != "POST" && j.method != "PUT" && j.method != "PATCH"
		if s.BodyErr != "" || (s.Body != wantBody && !(dropOK && s.Body == digest(nil))) {
			rec.mu.Lock()
			done := s.done
			rec.mu.Unlock()
			if done {
				run.Violate("request-body", rep, "request body %s became %s %s", wantBody, s.Body, s.BodyErr)
			}
		}
		p04headers(run, rep, j.hdr, headers, s, j.b.host, p.Addr, tok)
		p04response(run, rep, s, resp, rb, rerr, pl, j.method, j.b.h3, j.client)
		if k%97 == 0 {
			run.Sample(map[string]any{"request": rep, "upstream_saw": s, "status": resp.StatusCode, "response_body": digest(rb)})
		}
	})
	// Offline: every request seen by an upstream is one that a client sent.
	rec.mu.Lock()
	defer rec.mu.Unlock()
	for tok, l := range rec.got {
		if tok == "" {
			run.Violate("invented-request", l[0], "an upstream received a request no client sent: %s %s", l[0].Method, l[0].URI)
		}
	}
}

func unescaped(s string) string {
	p, q, _ := strings.Cut(s, "?")
	if x, err := url.PathUnescape(p); err == nil {
		p = x
	}
	if x, err := url.PathUnescape(q); err == nil {
		q = x
	}
	return p + "?" + q
}

func deref(s *string) string {
	if s == nil {
		return "nil"
	}
	return *s
}

type slow struct {
	b []byte
	r *rand.Rand
}

func (s *slow) Read(b []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := min(1+s.r.Intn(20000), len(s.b), len(b))
	copy(b, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

var additions = map[string]bool{"Via": true, "X-Forwarded-For": true, "Content-Length": true, "Transfer-Encoding": true, "Host": true}

func p04headers(run *vh.Run, rep map[string]any, sent http.Header, cfg map[string]string, s *seen, host, me, tok string) {
	want := map[string][]string{}
	for k, v := range sent {
		if k == "Via" || (k == "User-Agent" && v[0] == "") {
			continue
		}
		want[k] = v
	}
	want[http.CanonicalHeaderKey(tokHeader)] = []string{tok}
	for k, v := range cfg {
		switch v {
		case "":
			delete(want, k)
		case "${REMOTE_IP}":
			want[k] = []string{"127.0.0.1"}
		default:
			want[k] = []string{strings.ReplaceAll(v, "${SERVER_NAME}", host)}
		}
	}
	for k, v := range want {
		g := s.Header[k]
		if k == "Cookie" || k == "Forwarded" || k == "Accept" {
			if strings.Join(g, "; ") != strings.Join(v, "; ") {
				run.Violate("request-header", rep, "header %s: %q became %q", k, v, g)
			}
			continue
		}
		if fmt.Sprintf("%q", g) != fmt.Sprintf("%q", v) {
			run.Violate("request-header", rep, "header %s: %q became %q", k, v, g)
		}
	}
	for k, v := range s.Header {
		if _, ok := want[k]; !ok && !additions[k] {
			run.Violate("invented-request-header", rep, "the upstream received header %s: %q, which the client did not send", k, v)
		}
	}
	via := strings.Join(sent["Via"], ", ")
	gv := strings.Join(s.Header["Via"], ", ")
	if via != "" && !strings.HasPrefix(gv, via+", ") {
		run.Violate("via-lost", rep, "the client sent Via %q, the upstream got %q", via, gv)
	}
	if !strings.HasSuffix(gv, " "+me) {
		run.Violate("via-missing", rep, "Via %q does not name the proxy (%s)", gv, me)
	}
	if s.Host != host {
		run.Violate("host", rep, "Host became %q", s.Host)
	}
}

func p04response(run *vh.Run, rep map[string]any, s *seen, resp *http.Response, rb []byte, rerr error, pl respPlan, method string, h3 bool, client string) {
	if resp.StatusCode != pl.Status {
		if pl.Abort >= 0 && resp.StatusCode == 502 {
			run.Count("aborted-by-upstream", 1)
			return
		}
		run.Violate("status", rep, "status %d became %d (%q)", pl.Status, resp.StatusCode, vh.Trunc(string(rb), 200))
		return
	}
	want := pl.Header.Clone()
	if pl.Status == 304 {
		want.Del("Content-Type") // net/http does not send it
		resp.Header.Del("Content-Type")
	}
	if want.Get("Strict-Transport-Security") == "" {
		want.Set("Strict-Transport-Security", "max-age=2592000")
	}
	for k, v := range want {
		if fmt.Sprintf("%q", resp.Header[k]) != fmt.Sprintf("%q", v) {
			run.Violate("response-header", rep, "response header %s: %q became %q", k, v, resp.Header[k])
		}
	}
	if want.Get("Alt-Svc") == "" {
		exp := h3 && client != "h3" && pl.Status >= 200 && pl.Status < 400
		if (resp.Header.Get("Alt-Svc") != "") != exp {
			run.Violate("alt-svc", rep, "Alt-Svc is %q (status %d, h3 enabled %v, client %s)", resp.Header.Get("Alt-Svc"), pl.Status, h3, client)
		}
	}
	var extra []string
	for k := range resp.Header {
		switch k {
		case "Date", "Content-Length", "Alt-Svc", "Trailer":
		default:
			if _, ok := want[k]; !ok {
				extra = append(extra, k+": "+resp.Header.Get(k))
			}
		}
	}
	if len(extra) > 0 {
		sort.Strings(extra)
		run.Violate("invented-response-header", rep, "the client received headers the upstream did not send: %q", extra)
	}
	if method == "HEAD" {
		if pl.CL && pl.Status != 204 && pl.Status != 304 && resp.ContentLength != int64(len(pl.Body)) {
			run.Violate("head-length", rep, "Content-Length %d of a HEAD response became %d", len(pl.Body), resp.ContentLength)
		}
		return
	}
	if pl.Abort >= 0 {
		run.Count("aborted-by-upstream", 1)
		if rerr == nil {
			run.Violate("truncated-body-as-complete", rep, "the upstream died after %d of %d bytes of the response, and the client was told the response is complete with %d bytes", pl.Abort, len(pl.Body), len(rb))
		}
		if !bytes.HasPrefix(pl.Body, rb) {
			run.Violate("response-body", rep, "the client received bytes the upstream did not send")
		}
		return
	}
	if rerr != nil || !bytes.Equal(rb, pl.Body) {
		run.Violate("response-body", rep, "response body %s became %s (%v)", digest(pl.Body), digest(rb), rerr)
		return
	}
	rep["plan"] = fmt.Sprintf("status=%d header=%q len=%d cl=%v chunk=%d trailer=%q", pl.Status, pl.Header, len(pl.Body), pl.CL, pl.Chunk, pl.Trailer)
	for k, v := range pl.Trailer {
		if client == "h3" || s.Proto == "HTTP/3.0" {
			break // the HTTP/3 library does not carry trailers
		}
		if client == "h1" && resp.ContentLength >= 0 {
			break // HTTP/1.1 has trailers only with chunked responses
		}
		run.Count("trailers", 1)
		rep["got"] = fmt.Sprintf("%v %v %v %v", resp.Trailer, resp.TransferEncoding, resp.ContentLength, s.Proto)
		if fmt.Sprintf("%q", resp.Trailer[k]) != fmt.Sprintf("%q", v) {
			run.Violate("trailer", rep, "trailer %s: %q became %q", k, v, resp.Trailer[k])
		}
	}
}

package httpx

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

const secret = "SECRET-MUST-NOT-BE-SERVED"

// entry is what the oracle knows about one path below a document root.
type entry struct {
	dir  bool
	data []byte
	mod  time.Time
}

// tree is the oracle's own model of a document root (never read back from disk).
type tree struct {
	root string
	m    map[string]*entry // relative path -> entry, hidden ones included
}

func mkTree(t *testing.T, dir, name, outside string) *tree {
	tr := &tree{root: filepath.Join(dir, name), m: map[string]*entry{"": {dir: true}}}
	os.MkdirAll(tr.root, 0o755)
	mod := time.Date(2024, 2, 3, 4, 5, 6, 0, time.UTC)
	add := func(p string, size int) {
		// Parents.
		parts := strings.Split(p, "/")
		for i := 1; i < len(parts); i++ {
			tr.m[strings.Join(parts[:i], "/")] = &entry{dir: true}
		}
		data := []byte("CONTENT " + name + ":" + p + "\n")
		for _, c := range parts {
			if strings.HasPrefix(c, ".") {
				data = []byte(secret + " hidden " + p)
			}
			if strings.Contains(c, `\`) {
				data = []byte(secret + " backslash " + p)
			}
		}
		for i := 0; len(data) < size; i++ {
			data = append(data, []byte(strconv.Itoa(i*7919)+",")...)
		}
		full := tr.root + "/" + p
		os.MkdirAll(filepath.Dir(full), 0o755)
		if err := os.WriteFile(full, data, 0o644); err != nil {
			t.Fatal(err)
		}
		mod = mod.Add(time.Hour)
		os.Chtimes(full, mod, mod)
		tr.m[p] = &entry{data: data, mod: mod}
	}
	for _, p := range []string{"index.html", "a.txt", "b", "d/index.html", "d/x.txt", "d/y/z.bin", "noidx/f.css", "sp ace/a b.txt", "pct%41/%2e%2e.txt", "q?x=1", "h#ash", "dé/né.txt", "semi;a=b/c;d", "plus+/a+b", "...x", "d/..y", "d/.../z",
		".hidden", ".git/config", "d/.env", "d/.h/x.txt", ".well-known/acme", "b.txt/inner", "d/index.html.bak", "tilde~/~x", "back\\slash", "d\\x.txt", "..\\up", "big", "empty", "d/d/d/d/d/deep.txt", "colon:x", "http:/x", "idxdir/index.html/file", "a&b", "quote\"'", "new\nline", "private/s.txt", "o/t.txt", strings.Repeat("n", 255)} {
		size := 0
		if p == "big" {
			size = 300000
		}
		add(p, size)
	}
	os.WriteFile(tr.root+"/empty", nil, 0o644)
	tr.m["empty"].data = nil
	os.Chtimes(tr.root+"/empty", mod, mod)
	tr.m["empty"].mod = mod
	os.Mkdir(tr.root+"/emptydir", 0o755)
	tr.m["emptydir"] = &entry{dir: true}
	// Links: inside, to a directory, outside the root, dangling, to a hidden file.
	os.Symlink("a.txt", tr.root+"/link.txt")
	tr.m["link.txt"] = tr.m["a.txt"]
	os.Symlink("d", tr.root+"/linkd")
	for k, v := range tr.m {
		if r, ok := strings.CutPrefix(k, "d/"); ok {
			tr.m["linkd/"+r] = v
		}
	}
	tr.m["linkd"] = tr.m["d"]
	os.Symlink(outside+"/shared.txt", tr.root+"/shared.txt")
	tr.m["shared.txt"] = &entry{data: []byte("CONTENT shared"), mod: time.Date(2023, 1, 1, 0, 0, 0, 0, time.UTC)}
	os.Symlink("nowhere", tr.root+"/dangling")
	// Something that is not a regular file.
	if l, err := net.Listen("unix", tr.root+"/sock"); err == nil {
		t.Cleanup(func() { l.Close() })
	}
	return tr
}

// lookup says what a clean path (relative to the root) gets.
func (tr *tree) lookup(rel string) (status int, ent *entry, redirect string) {
	slash := strings.HasSuffix(rel, "/") || rel == ""
	key := strings.TrimSuffix(rel, "/")
	for _, c := range strings.Split(rel, "/") {
		if strings.HasPrefix(c, ".") || strings.Contains(c, `\`) {
			return 404, nil, ""
		}
	}
	if strings.ContainsRune(rel, 0) {
		return 404, nil, ""
	}
	if key == "sock" {
		return -403, nil, "" // any refusal
	}
	e := tr.m[key]
	switch {
	case e == nil:
		return 404, nil, ""
	case e.dir && !slash:
		return 301, nil, "/"
	case e.dir:
		idx := tr.m[strings.TrimPrefix(key+"/index.html", "/")]
		if idx == nil || idx.dir {
			return 403, nil, ""
		}
		return 200, idx, ""
	case slash:
		return 301, nil, "-"
	}
	return 200, e, ""
}

type sHost struct {
	name   string
	mounts []mount // in order, first match wins
}

type mount struct {
	prefix string
	tr     *tree
	up     string
}

// TestP21: static files.
func TestP21(t *testing.T) {
	run := vh.New(t, "A case is one request target sent to a static backend; the answer is compared with an independent model of the document root (never read from disk), and every body is searched for the content of files that must not be served. Distinct non-trivial = distinct (host, target, method, headers).")
	e := vp.NewEnv(t)
	rec := newRecorder()
	dir := vh.Work(t)
	outside := filepath.Join(dir, "outside")
	os.MkdirAll(outside, 0o755)
	os.WriteFile(outside+"/shared.txt", []byte("CONTENT shared"), 0o644)
	os.Chtimes(outside+"/shared.txt", time.Date(2023, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2023, 1, 1, 0, 0, 0, 0, time.UTC))
	os.WriteFile(outside+"/secret.txt", []byte(secret+" outside"), 0o644)
	os.WriteFile(dir+"/secret.txt", []byte(secret+" parent"), 0o644)
	t1, t2, t3 := mkTree(t, dir, "one", outside), mkTree(t, dir, "two", outside), mkTree(t, dir, "one-more", outside)
	alpn := &[]string{"h2", "http/1.1", "h3"}
	up := vp.NewHTTPServer(t, nil, http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		rec.add(req.Header.Get(tokHeader), &seen{Upstream: "up", Method: req.Method, URI: req.RequestURI})
	})).Addr
	bes := []*proxy.Backend{
		{ServerNames: []string{"st0.v.test"}, Mode: "LOCAL", DocumentRoot: t1.root, ALPNProtos: alpn},
		{ServerNames: []string{"st1.v.test"}, Mode: "HTTP", DocumentRoot: t1.root + "/", ALPNProtos: alpn, SanitizePath: vp.Ptr(false),
			PathOverrides: []*proxy.PathOverride{{Paths: []string{"/o/d/", "/o/e/"}, DocumentRoot: t2.root}, {Paths: []string{"/o/"}, DocumentRoot: t3.root}, {Paths: []string{"/none/"}}, {Paths: []string{"/up/"}, Addresses: []string{up}}}},
		{ServerNames: []string{"st2.v.test"}, Mode: "HTTP", Addresses: []string{up}, ALPNProtos: alpn,
			PathOverrides: []*proxy.PathOverride{{Paths: []string{"/files/"}, DocumentRoot: t2.root}}},
		{ServerNames: []string{"st3.v.test"}, Mode: "CONSOLE", ALPNProtos: alpn, DocumentRoot: t3.root},
	}
	hosts := []sHost{
		{"st0.v.test", []mount{{"/", t1, ""}}},
		{"st1.v.test", []mount{{"/o/d/", t2, ""}, {"/o/e/", t2, ""}, {"/o/", t3, ""}, {"/none/", nil, ""}, {"/up/", nil, "up"}, {"/", t1, ""}}},
		{"st2.v.test", []mount{{"/files/", t2, ""}, {"/", nil, "up"}}},
	}
	p := e.Start(e.Config(true, bes...))
	defer p.End()

	var rels []string
	for _, k := range sortedKeys(t1.m) {
		rels = append(rels, k)
	}
	rels = append(rels, "nope", "d/nope", "a.txt/x", "sock", "dangling", "../secret.txt", "../outside/secret.txt", "../one-more/a.txt", "../two/a.txt", "one/a.txt", ".", "..", "...", "index.html/", strings.Repeat("n", 256), strings.Repeat("d/", 3000)+"x", "shared.txt/..", "linkd/../a.txt", "shared.txt/../secret.txt")
	esc := func(r *rand.Rand, s string) string {
		var b strings.Builder
		mode := r.Intn(4)
		for i := 0; i < len(s); i++ {
			c := s[i]
			must := c <= ' ' || c >= 0x7f || strings.IndexByte(`%?#"<>^`+"`{|}", c) >= 0
			if c == '\\' && r.Intn(2) == 0 {
				must = true
			}
			if must || mode == 1 && r.Intn(8) == 0 && c != '/' || mode == 2 && r.Intn(3) == 0 {
				fmt.Fprintf(&b, [...]string{"%%%02x", "%%%02X"}[r.Intn(2)], c)
			} else {
				b.WriteByte(c)
			}
		}
		return b.String()
	}
	clients := map[int]*http.Client{1: p.HTTPClient(vp.ClientOpt{Protos: []string{"h2"}}), 0: p.HTTPClient(vp.ClientOpt{Protos: []string{"http/1.1"}})}
	c3, close3 := p.H3Client(vp.ClientOpt{})
	defer close3()
	clients[2] = c3
	n := vh.N(160000, 3000000)
	vh.Parallel(8, n, func(i int) {
		r := vh.Rand("P21", i)
		h := hosts[r.Intn(len(hosts))]
		mi := r.Intn(len(h.mounts))
		if h.mounts[mi].tr == nil && r.Intn(3) > 0 {
			mi = 0
		}
		base := h.mounts[mi].prefix
		rel := rels[r.Intn(len(rels))]
		if r.Intn(6) == 0 {
			rel += "/"
		}
		target := base + esc(r, rel)
		if r.Intn(3) == 0 {
			switch r.Intn(16) {
			case 0:
				target = "/d/.." + target
			case 1:
				target = "/" + target
			case 2:
				target = "//evil.example/.." + target
			case 3:
				target = target + "/.."
			case 4:
				target = strings.Replace(target, "/", "/./", 1+r.Intn(2))
			case 5:
				target = base + "%2e%2e/" + esc(r, rel)
			case 6:
				target = base + "..%2f" + esc(r, rel)
			case 7:
				target = base + "..%5c" + esc(r, rel)
			case 8:
				target = base + "%00" + esc(r, rel)
			case 9:
				target = target + "%00"
			case 10:
				target = target + "%00.txt"
			case 11:
				target = "/..%2f..%2f..%2f..%2f.." + dir + "/secret.txt"
			case 12:
				target = base + "../" + esc(r, rel)
			case 13:
				target = base + "%2f" + dir + "/secret.txt"
			case 14:
				target = target + "/."
			case 15:
				target = target + "%2f"
			}
		}
		q := ""
		if r.Intn(5) == 0 {
			q = [...]string{"?", "?a=b", "?/../x", "?x=//evil"}[r.Intn(4)]
		}
		method := [...]string{"GET", "GET", "GET", "GET", "GET", "GET", "GET", "GET", "HEAD", "HEAD", "POST", "OPTIONS"}[r.Intn(12)]
		tok := fmt.Sprintf("st%d", i)
		u, err := url.ParseRequestURI("https://" + h.name + target + q)
		if err != nil {
			return
		}
		decoded := u.Path
		hdr := http.Header{tokHeader: {tok}}
		req := &http.Request{Method: method, URL: u, Header: hdr, Host: h.name}
		pr := r.Intn(4)
		// What should happen.
		clean := specClean(decoded)
		var m *mount
		for k := range h.mounts {
			if strings.HasPrefix(clean, h.mounts[k].prefix) {
				m = &h.mounts[k]
				break
			}
		}
		slashless := "" // e.g. /o for the prefix /o/
		for _, x := range h.mounts {
			if m != nil && len(x.prefix) > len(m.prefix) && clean+"/" == x.prefix {
				slashless = x.prefix
			}
		}
		status, ent, redir := 404, (*entry)(nil), ""
		rel2 := ""
		switch {
		case strings.HasPrefix(clean, "/.sso"):
			return
		case slashless != "":
			status, redir = 301, slashless
		case m.up != "":
			status = 0
		case m.tr == nil:
			status = 404
		case method != "GET" && method != "HEAD":
			status = 405
		case clean != decoded:
			status, redir = 301, clean
		default:
			rel2 = strings.TrimPrefix(clean, m.prefix)
			status, ent, redir = m.tr.lookup(rel2)
			switch redir {
			case "/":
				redir = clean + "/"
			case "-":
				redir = strings.TrimSuffix(clean, "/")
			}
		}
		// Conditional and range requests.
		rangeLo, rangeHi, cond := -1, -1, ""
		if status == 200 && (method == "GET" || method == "HEAD") {
			size := len(ent.data)
			switch r.Intn(12) {
			case 0:
				if size > 0 {
					rangeLo = r.Intn(size)
					rangeHi = rangeLo + r.Intn(size-rangeLo)
					hdr.Set("Range", fmt.Sprintf("bytes=%d-%d", rangeLo, rangeHi))
				}
			case 1:
				if size > 0 {
					rangeLo, rangeHi = r.Intn(size), size-1
					hdr.Set("Range", fmt.Sprintf("bytes=%d-", rangeLo))
				}
			case 2:
				if size > 1 {
					k := 1 + r.Intn(size-1)
					rangeLo, rangeHi = size-k, size-1
					hdr.Set("Range", fmt.Sprintf("bytes=-%d", k))
				}
			case 3:
				cond = "fresh"
				hdr.Set("If-Modified-Since", ent.mod.Add(time.Duration(r.Intn(3))*time.Second).Format(http.TimeFormat))
			case 4:
				cond = "stale"
				hdr.Set("If-Modified-Since", ent.mod.Add(-time.Duration(1+r.Intn(100000))*time.Second).Format(http.TimeFormat))
			case 5:
				cond = "416"
				hdr.Set("Range", fmt.Sprintf("bytes=%d-", size+r.Intn(10)))
			case 6:
				cond = "unmod"
				hdr.Set("If-Unmodified-Since", ent.mod.Add(-time.Hour).Format(http.TimeFormat))
			}
		}
		var resp *http.Response
		var body []byte
		if pr == 3 {
			resp, body, err = rawGet(p, h.name, method, target+q, hdr)
		} else {
			resp, err = clients[pr].Do(req)
			if err == nil {
				body, err = io.ReadAll(resp.Body)
				resp.Body.Close()
			}
		}
		rep := map[string]any{"host": h.name, "target": target + q, "decoded": decoded, "method": method, "proto": pr, "headers": hdr}
		if status == 0 {
			run.Eval(true, h.name, target, q, method, pr)
			run.Count("forwarded", 1)
			if g := rec.get(tok); len(g) != 1 {
				run.Violate("not-forwarded", rep, "a request for an upstream path reached it %d times (%v)", len(g), resp)
			}
			return
		}
		if err != nil {
			if resp == nil && pr != 2 {
				run.Violate("no-answer", rep, "no answer: %v", err)
			} else {
				run.Violate("no-answer", rep, "no complete answer: %v", err)
			}
			return
		}
		rep["status"], rep["location"] = resp.StatusCode, resp.Header.Get("Location")
		run.Count("requests", 1)
		run.Eval(true, h.name, target, q, method, hdr.Get("Range"), cond, pr)
		if bytes.Contains(body, []byte(secret)) {
			run.Violate("leak", rep, "%s %s on %s returned a file that must not be served: %q", method, target, h.name, vh.Trunc(string(body), 100))
			return
		}
		if status != 0 {
			if g := rec.get(tok); len(g) > 0 {
				run.Violate("forwarded", rep, "a static request was forwarded to an upstream")
			}
		}
		if loc := resp.Header.Get("Location"); loc != "" {
			if host := browserTo(h.name, loc); host != h.name {
				run.Violate("redirect-host", rep, "%s on %s redirects to host %q (%q)", target, h.name, host, loc)
				return
			}
		}
		switch status {
		case -403:
			if resp.StatusCode < 300 {
				run.Violate("special", rep, "a socket was answered %d", resp.StatusCode)
			}
			return
		case 301:
			run.Count("redirects", 1)
			want := 301
			if method != "GET" && method != "HEAD" {
				want = 303
			}
			lu, err := url.Parse(resp.Header.Get("Location"))
			if resp.StatusCode != want || err != nil || lu.Path != redir || "?"+lu.RawQuery != strings.TrimSuffix(q, "?")+strings.Repeat("?", b2i(q == "" || q == "?")) {
				run.Violate("redirect", rep, "%s %s on %s was answered %d %q, not a redirect to %q with the same query", method, target, h.name, resp.StatusCode, resp.Header.Get("Location"), redir)
			}
			return
		case 200:
		default:
			run.Count(fmt.Sprintf("status-%d", status), 1)
			if resp.StatusCode != status {
				run.Violate("status", rep, "%s %s on %s was answered %d, expected %d", method, target, h.name, resp.StatusCode, status)
			}
			return
		}
		want := ent.data
		ws := 200
		switch {
		case cond == "fresh":
			ws, want = 304, nil
		case cond == "unmod":
			ws = 412
			want = nil
		case cond == "416":
			ws = 416
			if len(ent.data) == 0 {
				ws = 200
			}
		case rangeLo >= 0:
			ws, want = 206, ent.data[rangeLo:rangeHi+1]
		}
		run.Count(fmt.Sprintf("status-%d", ws), 1)
		if resp.StatusCode != ws {
			if len(ent.data) == 0 && cond == "416" {
				return
			}
			run.Violate("status", rep, "%s %s on %s was answered %d, expected %d", method, target, h.name, resp.StatusCode, ws)
			return
		}
		if ws == 416 || ws == 412 {
			return
		}
		if ws != 304 {
			if cl := resp.Header.Get("Content-Length"); cl != "" && cl != strconv.Itoa(len(want)) {
				run.Violate("length", rep, "content-length is %s, the file's content has %d bytes", cl, len(want))
			}
			if lm := resp.Header.Get("Last-Modified"); lm != ent.mod.UTC().Format(http.TimeFormat) {
				run.Violate("last-modified", rep, "last-modified is %q, the file's is %q", lm, ent.mod)
			}
		}
		if method == "HEAD" {
			want = nil
		}
		if !bytes.Equal(body, want) {
			run.Violate("content", rep, "%s %s on %s returned %d bytes %q instead of the %d bytes of the file %q", method, target, h.name, len(body), vh.Trunc(string(body), 60), len(want), vh.Trunc(string(want), 60))
		}
		if ws == 200 && len(body) > 0 {
			run.Sample(rep)
			run.Count("files-compared", 1)
		}
	})
	for _, pn := range vp.Log.TakePanics() {
		run.Violate("panic", pn, "a handler panicked: %s", vh.Trunc(pn, 300))
	}
	run.NeedAtLeast("files-compared", n/50)
	run.NeedAtLeast("status-404", n/20)
	run.NeedAtLeast("status-206", n/500)
	run.NeedAtLeast("status-304", n/500)
	run.NeedAtLeast("redirects", n/50)
	run.NeedAtLeast("forwarded", n/50)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func sortedKeys(m map[string]*entry) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	// insertion order does not matter, only that it is stable
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// browserTo is the host a browser at host ends up at.
func browserTo(host, loc string) string {
	s := strings.TrimLeft(loc, " \t\r\n\x00")
	s = strings.ReplaceAll(s, "\\", "/")
	for _, c := range []string{"\t", "\r", "\n"} {
		s = strings.ReplaceAll(s, c, "")
	}
	if i := strings.IndexByte(s, ':'); i > 0 && !strings.ContainsAny(s[:i], "/?#") {
		s = s[i+1:]
		if !strings.HasPrefix(s, "//") {
			return "scheme"
		}
	}
	if strings.HasPrefix(s, "//") {
		s = strings.TrimLeft(s, "/")
		if i := strings.IndexAny(s, "/?#"); i >= 0 {
			s = s[:i]
		}
		if i := strings.LastIndexByte(s, '@'); i >= 0 {
			s = s[i+1:]
		}
		return s
	}
	return host
}

// rawGet sends exactly this request line.
func rawGet(p *vp.P, host, method, target string, hdr http.Header) (*http.Response, []byte, error) {
	c, err := p.Dial(host, vp.ClientOpt{Protos: []string{"http/1.1"}})
	if err != nil {
		return nil, nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n", method, target, host)
	hdr.Write(&b)
	b.WriteString("\r\n")
	if _, err := c.Write(b.Bytes()); err != nil {
		return nil, nil, err
	}
	req := &http.Request{Method: method}
	resp, err := http.ReadResponse(bufio.NewReader(c), req)
	if err != nil {
		return nil, nil, err
	}
	body, err := io.ReadAll(resp.Body)
	return resp, body, err
}

package sso

import (
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// cred is one credential presentation, with what it is worth.
type cred struct {
	Kind  string
	Hdr   [][2]string
	Valid bool // an unexpired credential of this provider / for this host
	Email string
	Fresh bool // satisfies a one hour re-authentication policy on this host
	Maybe bool // acceptance under ForceReAuth is not specified
}

func (w *world) genCred(r *rand.Rand, h *host) cred {
	email := pick(r, "alice@corp.example", "bob@dom2.example", "mallory@corp.example", "eve@dom2.example.evil", "alice@corp.example@x.example", "ALICE@corp.example", "dom2.example")
	now := time.Now()
	ck := func(v string) [2]string {
		name := pick(r, "Cookie", "Cookie", "cookie", "COOKIE", "cOOkie")
		return [2]string{name, pick(r, "", "a=b; ", "TLSPROXYSID=zzz; ") + "TLSPROXYAUTH=" + v + pick(r, "", "; z=1")}
	}
	bearer := func(v string) [2]string {
		return [2]string{pick(r, "Authorization", "authorization"), pick(r, "Bearer ", "bearer ", "BEARER ") + v}
	}
	auth := func(kv ...any) string { return w.mint(with(authClaims(h.Provider, email, h.Name, now), kv...), "") }
	id := func(hn string) string { return w.mint(idClaims(h.Provider, email, hn, now), "ES256") }
	other := "idp1"
	if h.Provider == "idp1" {
		other = "idp2"
	}
	c := cred{Email: email}
	switch k := pick(r, "none", "none", "auth", "auth", "auth", "auth", "old", "otherhost", "expired", "otherprovider", "id", "id", "id-old", "id-otherhost", "id-cookie", "auth-bearer", "garbage", "wrongname", "noprovider"); k {
	case "auth":
		c = cred{k, [][2]string{ck(auth())}, true, email, true, false}
	case "old":
		c = cred{k, [][2]string{ck(w.mint(authClaims(h.Provider, email, h.Name, now.Add(-time.Duration(61+r.Intn(1000))*time.Minute)), ""))}, true, email, false, false}
	case "otherhost":
		c = cred{k, [][2]string{ck(w.mint(authClaims(h.Provider, email, "elsewhere.v.test", now), ""))}, true, email, false, false}
	case "expired":
		c.Kind, c.Hdr = k, [][2]string{ck(auth("exp", now.Add(-time.Duration(2+r.Intn(1<<(2+r.Intn(13))))*time.Second).Unix()))}
	case "otherprovider":
		c.Kind, c.Hdr = k, [][2]string{ck(w.mint(authClaims(other, email, h.Name, now), ""))}
	case "id":
		c = cred{k, [][2]string{bearer(id(h.Name))}, true, email, false, true}
	case "id-old":
		c = cred{k, [][2]string{bearer(w.mint(idClaims(h.Provider, email, h.Name, now.Add(-5*time.Hour)), "ES256"))}, true, email, false, false}
	case "id-otherhost":
		c.Kind, c.Hdr = k, [][2]string{bearer(id("z9.v.test"))}
	case "id-cookie":
		c.Kind, c.Hdr = k, [][2]string{ck(id(h.Name))}
	case "auth-bearer":
		c.Kind, c.Hdr = k, [][2]string{bearer(auth())}
	case "garbage":
		c.Kind, c.Hdr = k, [][2]string{ck(pick(r, "", "x", "a.b.c", "null", auth()[:40])), bearer(pick(r, "", "a.b.c"))}
	case "wrongname":
		c.Kind, c.Hdr = k, [][2]string{{"Cookie", pick(r, "TLSPROXYIDTOKEN", "tlsproxyauth", "TLSPROXYAUTH2", "X") + "=" + auth()}, {"X-Tlsproxy-User-Id", email}}
	case "noprovider":
		c.Kind, c.Hdr = k, [][2]string{ck(auth(pick(r, "provider", "proxyauth", "iss", "aud"), nil))}
	default:
		c.Kind = "none"
		if r.Intn(3) == 0 {
			c.Hdr = [][2]string{{"X-Tlsproxy-User-Id", "alice@corp.example"}, {"X-Email", email}}
		}
	}
	return c
}

// genTarget makes a request target; plain means that there is nothing unusual
// about it.
func genTarget(r *rand.Rand, h *host) (target string, plain bool) {
	bases := []string{"/private", "/private/x", "/private/", "/pub/a", "/", "/x/y", "/x", "/o/f", "/index.html", "/ov/private/z", "/ov/z", "/private/static/pub/a", "/private/pki", "/private/ws", "/ws", "/sshcert", "/.hid/q", "/favicon.ico"}
	p := bases[r.Intn(len(bases))]
	if r.Intn(3) == 0 {
		return p + pick(r, "", "?q=1", "?x=/private&y=%2f"), true
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		switch r.Intn(14) {
		case 0: // percent-encode one character
			i := 1 + r.Intn(max(1, len(p)-1))
			if i < len(p) && p[i] != '%' && p[i] != '/' {
				p = p[:i] + fmt.Sprintf(pick(r, "%%%02x", "%%%02X"), p[i]) + p[i+1:]
			}
		case 1:
			p = "/pub/.." + p
		case 2:
			p = "/." + p
		case 3:
			p = pick(r, "/", "//", "///") + p
		case 4:
			p = strings.Replace(p, "/", "//", 1+r.Intn(2))
		case 5:
			p = "/pub/%2e%2e" + p
		case 6:
			p = "/pub/%2e%2e%2f" + strings.TrimPrefix(p, "/")
		case 7:
			p = p + pick(r, "/..", "/../pub/a", "/%2e%2e/pub/a", "/.", "/", "%2f", "%00", ";x=y", "%20", "..;/")
		case 8:
			p = "/pub/../../.." + p
		case 9:
			p = pick(r, strings.ToUpper(p), p)
		case 10:
			p = strings.Replace(p, "/", "/%2f", 1)
		case 11:
			p = p + pick(r, "?", "?#", "?/../pub/a", "#x")
		case 12:
			p = "/pub/%252e%252e" + p
		case 13:
			p = strings.Replace(p, "/", pick(r, "\\", "/%5c", "/\\"), 1)
		}
	}
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	return p, false
}

var bypass = map[string]bool{"/.sso/": true, "/.sso/style.css": true, "/.sso/login": true, "/.sso/logout": true, "/.sso/favicon.ico": true}

// TestP10: nothing behind SSO without a valid, allowed identity.
func TestP10(t *testing.T) {
	run := vh.New(t, "A case is one request: a host with its SSO policy, a request target (plain or obfuscated), method, HTTP version and credential; the oracle decides from the policy whether it may reach the upstream or local endpoint, and the upstream's log says whether it did. Distinct non-trivial = distinct (host, target, method, version, credential kind, user).")
	e := vp.NewEnv(t)
	w := newWorld(t, e)
	methods := []string{"GET", "GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "PROPFIND", "get", "TRACE"}
	n := vh.N(100000, 1500000)
	vh.Parallel(16, n, func(i int) {
		r := vh.Rand("P10", i)
		h := w.hosts[w.names[r.Intn(len(w.names))]]
		c := w.genCred(r, h)
		target, plain := genTarget(r, h)
		method := methods[r.Intn(len(methods))]
		v := pick(r, 0, 0, 2, 3)
		hdr := append([][2]string(nil), c.Hdr...)
		ws := v == 0 && method == "GET" && strings.Contains(target, "ws") && r.Intn(2) == 0
		if ws {
			hdr = append(hdr, [2]string{"Connection", "Upgrade"}, [2]string{"Upgrade", "websocket"}, [2]string{"Sec-WebSocket-Version", "13"}, [2]string{"Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ=="})
		}
		if r.Intn(6) == 0 {
			hdr = append(hdr, [2]string{"X-Skip-Login-Confirmation", "1"})
		}
		if r.Intn(8) == 0 {
			hdr = append(hdr, pick(r, [2]string{"X-Original-Url", "/pub/a"}, [2]string{"X-Rewrite-Url", "/pub/a"}, [2]string{"X-Http-Method-Override", "GET"}, [2]string{"X-Forwarded-Host", "a4.v.test"}, [2]string{"Range", "bytes=0-3"}, [2]string{"Expect", "100-continue"}, [2]string{"If-Modified-Since", "Mon, 02 Jan 2006 15:04:05 GMT"}))
		}
		if v == 0 && !plain && r.Intn(8) == 0 && strings.HasPrefix(target, "/") {
			target = pick(r, "https://", "http://", "HTTPS://") + h.Name + target
		}
		tok := fmt.Sprintf("k%d", i)
		body := ""
		if method == "POST" || method == "PUT" || method == "PATCH" {
			body = "a=1&b=2"
		}
		var decoded string
		{
			s := target
			if i := strings.Index(s, "://"); i > 0 && !strings.HasPrefix(s, "/") {
				s = s[i+3:]
				if j := strings.IndexByte(s, '/'); j >= 0 {
					s = s[j:]
				} else {
					s = "/"
				}
			}
			if v != 0 {
				s, _, _ = strings.Cut(s, "#")
			}
			s, _, _ = strings.Cut(s, "?")
			d, err := url.PathUnescape(s)
			if err != nil {
				d = s
			}
			decoded = d
		}
		a, err := w.send(v, h.Name, method, target, tok, hdr, body)
		if err != nil {
			if v != 0 || plain {
				// e.g. a target that this client refuses to send
				run.Count("unsent", 1)
			}
			if plain {
				run.Inconclusive("request %s %s: %v", method, target, err)
			}
			a = &answer{Status: -1, Hdr: map[string][]string{}}
		}
		got := w.ups.reached(tok)
		covered := h.covered(decoded)
		satisfied := c.Valid && h.allows(c.Email) && (h.ReAuth == 0 || c.Fresh)
		rep := map[string]any{"host": h, "method": method, "target": target, "version": v, "cred": c, "status": a.Status, "location": a.Loc, "body": vh.Trunc(a.Body, 300), "upstream": got}
		run.Eval(true, h.Name, target, method, v, c.Kind, c.Email, len(hdr))
		run.Count("requests", 1)
		by := bypass[specClean(decoded)] || strings.HasPrefix(specClean(decoded), "/.sso")
		if len(got) > 0 {
			run.Count("forwarded", 1)
			for _, g := range got {
				if (h.covered(g.Path) || covered) && !satisfied && !(c.Maybe && c.Valid && h.allows(c.Email)) {
					run.Violate("forwarded:"+c.Kind, rep, "a request for %s %q on %s reached the upstream as %q with credential %q of %q, which does not satisfy the SSO policy", method, target, h.Name, g.URI, c.Kind, c.Email)
				}
			}
			if len(got) > 1 {
				run.Violate("forwarded-twice", rep, "one request reached the upstream %d times", len(got))
			}
		}
		if covered && !satisfied && !by && !(c.Maybe && c.Valid && h.allows(c.Email)) {
			run.Count("must-deny", 1)
			run.Count("deny-cred-"+c.Kind, 1)
			if strings.Contains(a.Body, marker) {
				run.Violate("content:"+c.Kind, rep, "protected content of %s%s was served to credential %q of %q", h.Name, target, c.Kind, c.Email)
			}
			if a.Status == 101 || a.Status >= 200 && a.Status < 300 {
				run.Violate("status:"+c.Kind, rep, "%s %s on %s was answered %d for credential %q of %q", method, target, h.Name, a.Status, c.Kind, c.Email)
			}
			if plain && err == nil {
				ok := a.Status == 403 || a.Status == 401
				if method == "GET" && a.Status == 302 {
					ok = strings.HasPrefix(a.Loc, "/.sso/login?redirect=")
				}
				if !ok {
					run.Violate("denial-form", rep, "a denied request was answered %d (location %q) instead of a login redirect, 401 or 403", a.Status, a.Loc)
				}
			}
		}
		if (satisfied || !covered) && plain && err == nil && !by && !ws {
			run.Count("must-allow", 1)
			clean := specClean(decoded)
			if h.Kind != "http" || c.Maybe && h.ReAuth > 0 {
				if a.Status == 403 && h.Kind == "local" && (method == "GET" || method == "HEAD") && clean != "/o/" || a.Status == 401 || a.Status == 302 {
					run.Violate("refused", rep, "%s %s on %s was answered %d although the policy is satisfied", method, target, h.Name, a.Status)
				}
				return
			}
			if h.GenID && c.Valid && strings.HasPrefix(c.Kind, "auth") || h.GenID && (c.Kind == "old" || c.Kind == "otherhost") {
				// First the ID token cookie is set.
				if a.Status != 302 || strings.TrimPrefix(a.Loc, "https://"+h.Name) != target || len(got) > 0 {
					run.Violate("idtoken-redirect", rep, "a request with no ID token yet was answered %d location %q (wanted a redirect to itself)", a.Status, a.Loc)
				}
				return
			}
			switch {
			case h.Name == "a7.v.test" && strings.HasPrefix(clean, "/private/static/"):
				if (method == "GET" || method == "HEAD") && a.Status != 200 && a.Status != 304 && a.Status != 206 {
					run.Violate("refused-static", rep, "%s %s on %s was answered %d although the policy is satisfied", method, target, h.Name, a.Status)
				}
			default:
				if len(got) != 1 || a.Status != 200 {
					run.Violate("not-forwarded", rep, "%s %s on %s was answered %d and reached the upstream %d times although the policy is satisfied", method, target, h.Name, a.Status, len(got))
				}
			}
		}
	})
	for _, pn := range vp.Log.TakePanics() {
		run.Violate("panic", pn, "a handler panicked: %s", vh.Trunc(pn, 300))
	}
	run.NeedAtLeast("must-deny", n/5)
	run.NeedAtLeast("must-allow", n/20)
	run.NeedAtLeast("forwarded", n/20)
}

package httpx

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/hex"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vh"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/zzverif/vp"
)

// xfField is one key=value of the header.
type xfField struct{ K, V string }

// specXFCC parses the header: elements are separated with commas, the fields
// of an element with semicolons, and values are quoted when they contain a
// comma, a semicolon or an equal sign. Backslash escapes the next character.
func specXFCC(s string) ([][]xfField, error) {
	var elems [][]xfField
	var cur []xfField
	i := 0
	for {
		eq := strings.IndexAny(s[i:], "=;,")
		if eq < 0 || s[i+eq] != '=' {
			return nil, fmt.Errorf("no key at %d", i)
		}
		k := s[i : i+eq]
		i += eq + 1
		var v strings.Builder
		quoted := i < len(s) && s[i] == '"'
		if quoted {
			i++
		}
		closed := false
	value:
		for i < len(s) {
			c := s[i]
			switch {
			case c == '\\':
				if i+1 >= len(s) {
					return nil, errors.New("escape at the end")
				}
				v.WriteByte(s[i+1])
				i += 2
				continue
			case quoted && c == '"':
				closed = true
				i++
				break value
			case !quoted && (c == ';' || c == ','):
				break value
			case !quoted && (c == '"' || c == '='):
				return nil, fmt.Errorf("%q in an unquoted value at %d", c, i)
			}
			v.WriteByte(c)
			i++
		}
		if quoted && !closed {
			return nil, errors.New("unterminated quote")
		}
		cur = append(cur, xfField{k, v.String()})
		if i >= len(s) {
			return append(elems, cur), nil
		}
		switch s[i] {
		case ',':
			elems, cur = append(elems, cur), nil
		case ';':
		default:
			return nil, fmt.Errorf("%q after a value at %d", s[i], i)
		}
		i++
	}
}

// splitUnescaped splits s at the unescaped separators, keeping the escapes.
func splitUnescaped(s string, sep byte) []string {
	var out []string
	start := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
		case sep:
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	return append(out, s[start:])
}

func unescapeDN(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

var dnNames = map[string]string{"C": "2.5.4.6", "O": "2.5.4.10", "OU": "2.5.4.11", "CN": "2.5.4.3", "SERIALNUMBER": "2.5.4.5", "L": "2.5.4.7", "ST": "2.5.4.8", "STREET": "2.5.4.9", "POSTALCODE": "2.5.4.17"}

// specSubject parses /A=b/C=d into the attributes it names.
func specSubject(s string) ([]string, error) {
	if !strings.HasPrefix(s, "/") {
		return nil, errors.New("no leading slash")
	}
	if s == "/" {
		return nil, nil
	}
	var out []string
	for _, rdn := range splitUnescaped(s[1:], '/') {
		for _, av := range splitUnescaped(rdn, '+') {
			n, v, ok := strings.Cut(av, "=")
			if !ok {
				return nil, fmt.Errorf("no = in %q", av)
			}
			if oid, ok := dnNames[n]; ok {
				out = append(out, oid+"="+unescapeDN(v))
				continue
			}
			h, ok := strings.CutPrefix(v, "#")
			if !ok || len(strings.Split(n, ".")) < 3 {
				return nil, fmt.Errorf("unknown attribute %q", av)
			}
			der, err := hex.DecodeString(h)
			if err != nil {
				return nil, err
			}
			var x any
			if _, err := asn1.Unmarshal(der, &x); err != nil {
				return nil, err
			}
			out = append(out, fmt.Sprintf("%s=%v", n, x))
		}
	}
	sort.Strings(out)
	return out, nil
}

func certSubject(c *x509.Certificate) []string {
	var out []string
	for _, n := range c.Subject.Names {
		out = append(out, fmt.Sprintf("%s=%v", n.Type, n.Value))
	}
	sort.Strings(out)
	return out
}

func hasCtl(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 && s[i] != '\t' || s[i] == 0x7f {
			return true
		}
	}
	return false
}

// nasty makes a value out of the characters that matter to the syntax.
func nasty(r *rand.Rand, ctl bool) string {
	toks := []string{"a", "Bob", "x y", ",", ";", "=", "\"", "\\", "/", "/CN=admin", ";Hash=00", ",By=x", "\";Subject=\"", "+", "#", " ", "é", "日本", "<", ">", "\\\"", "%2F", "%", "&", "\\,", "\\/", "O=x", "'", "/O=", ",CN=root"}
	if ctl {
		toks = append(toks, "\r\n", "\x00", "\n", "\x7f", "\t")
	}
	var b strings.Builder
	for n := 1 + r.Intn(5); n > 0; n-- {
		b.WriteString(toks[r.Intn(len(toks))])
	}
	return b.String()
}

func asciiOnly(s string) string {
	return strings.Map(func(c rune) rune {
		if c > 126 {
			return 'u'
		}
		return c
	}, s)
}

// TestP32: the client certificate header against the certificate.
func TestP32(t *testing.T) {
	run := vh.New(t, "A case is one client certificate used on one connection to a backend with some field selection; the header received by the upstream is parsed with an independent parser and compared with the certificate. Distinct non-trivial = distinct (selection, subject, SANs).")
	e := vp.NewEnv(t)
	ca := vp.NewCA("client-ca")
	// An intermediate, also cross-signed by a second root: two verified chains.
	ca2 := vp.NewCA("client-ca2")
	ikey, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	mkInt := func(parent *vp.CA, sn int64) *x509.Certificate {
		templ := &x509.Certificate{SerialNumber: big.NewInt(sn), Subject: pkix.Name{CommonName: "intermediate"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(100 * time.Hour),
			KeyUsage: x509.KeyUsageCertSign, BasicConstraintsValid: true, IsCA: true}
		der, err := x509.CreateCertificate(crand.Reader, templ, parent.Cert, ikey.Public(), parent.Key)
		if err != nil {
			t.Fatal(err)
		}
		c, _ := x509.ParseCertificate(der)
		return c
	}
	i1, i2 := mkInt(ca, 77), mkInt(ca2, 78)
	inter := &vp.CA{Cert: i1, Key: ikey}

	rec := newRecorder()
	all := []string{"cert", "chain", "hash", "subject", "uri", "dns"}
	var sels [][]string
	for m := 1; m < 1<<len(all); m++ {
		var s []string
		for k, f := range all {
			if m>>k&1 == 1 {
				s = append(s, f)
			}
		}
		r := vh.Rand("P32sel", m)
		r.Shuffle(len(s), func(a, b int) { s[a], s[b] = s[b], s[a] })
		for k := range s {
			if r.Intn(3) == 0 {
				s[k] = strings.ToUpper(s[k])
			}
		}
		if r.Intn(8) == 0 {
			s = append(s, s[0])
		}
		sels = append(sels, s)
	}
	var bes []*proxy.Backend
	up := startUpstream(t, e, rec, "up", "HTTP", "")
	alpn := &[]string{"h2", "http/1.1", "h3"}
	for k, s := range sels {
		bes = append(bes, &proxy.Backend{ServerNames: []string{fmt.Sprintf("x%d.v.test", k)}, Mode: "HTTP", Addresses: []string{up}, ALPNProtos: alpn,
			ClientAuth: &proxy.ClientAuth{RootCAs: []string{ca.PEM, ca2.PEM}, AddClientCertHeader: s}})
	}
	p := e.Start(e.Config(true, bes...))
	defer p.End()

	n := vh.N(16000, 200000)
	vh.Parallel(8, n, func(i int) {
		r := vh.Rand("P32", i)
		k := r.Intn(len(sels))
		sel := sels[k]
		ctl := r.Intn(12) == 0
		opts := []vp.CertOpts{func(c *x509.Certificate) {
			val := func() string { return nasty(r, ctl && r.Intn(3) == 0) }
			if r.Intn(8) > 0 {
				c.Subject.CommonName = val()
			}
			if r.Intn(2) == 0 {
				c.Subject.Organization = append(c.Subject.Organization, val())
			}
			if r.Intn(4) == 0 {
				c.Subject.Organization = append(c.Subject.Organization, val())
			}
			if r.Intn(3) == 0 {
				c.Subject.OrganizationalUnit = append(c.Subject.OrganizationalUnit, val())
			}
			if r.Intn(6) == 0 {
				c.Subject.StreetAddress = []string{val()}
			}
			if r.Intn(6) == 0 {
				c.Subject.Country = []string{"US"}
			}
			if r.Intn(6) == 0 {
				c.Subject.SerialNumber = val()
			}
			if r.Intn(5) == 0 {
				c.Subject.ExtraNames = append(c.Subject.ExtraNames, pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 1}, Value: val()})
			}
			for m := r.Intn(4); m > 0; m-- {
				c.DNSNames = append(c.DNSNames, asciiOnly(strings.TrimSpace(nasty(r, false)))+"x")
			}
			for m := r.Intn(4); m > 0; m-- {
				u, err := url.Parse("spiffe://td.example/" + url.PathEscape(asciiOnly(nasty(r, false))) + [...]string{"", "?q=a,b;c", "#f=\"", "/a;b=c,d"}[r.Intn(4)])
				if err == nil {
					c.URIs = append(c.URIs, u)
				}
			}
		}}
		issuer, withInt := ca, r.Intn(3)
		if withInt > 0 {
			issuer = inter
		}
		var cert tls.Certificate
		func() {
			defer func() {
				if x := recover(); x != nil {
					run.Count("uncreatable", 1)
				}
			}()
			cert = issuer.Issue(opts...)
		}()
		if cert.Leaf == nil {
			return
		}
		if withInt > 0 {
			cert.Certificate = append(cert.Certificate, i1.Raw)
		}
		if withInt > 1 {
			cert.Certificate = append(cert.Certificate, i2.Raw)
		}
		tok := fmt.Sprintf("x%d", i)
		req, _ := http.NewRequest("GET", fmt.Sprintf("https://x%d.v.test/", k), nil)
		req.Header.Set(tokHeader, tok)
		if r.Intn(2) == 0 {
			req.Header["x-forwarded-client-cert"] = []string{"Hash=forged"}
		}
		var c *http.Client
		o := vp.ClientOpt{Certs: []tls.Certificate{cert}}
		switch pr := r.Intn(5); pr {
		case 0:
			cl, closer := p.H3Client(o)
			defer closer()
			c = cl
		case 1:
			o.Protos = []string{"h2"}
			c = p.HTTPClient(o)
			defer c.CloseIdleConnections()
		default:
			o.Protos = []string{"http/1.1"}
			c = p.HTTPClient(o)
			defer c.CloseIdleConnections()
		}
		leaf := cert.Leaf
		replay := map[string]any{"selection": sel, "subject": leaf.Subject.String(), "dns": leaf.DNSNames, "uris": fmt.Sprint(leaf.URIs), "cert": hex.EncodeToString(leaf.Raw)}
		resp, err := c.Do(req)
		status := 0
		if err == nil {
			status = resp.StatusCode
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
		got := rec.get(tok)
		run.Eval(true, sel, certSubject(leaf), leaf.DNSNames, fmt.Sprint(leaf.URIs))
		run.Count("requests", 1)
		selected := func(f string) bool {
			for _, s := range sel {
				if strings.EqualFold(s, f) {
					return true
				}
			}
			return false
		}
		if len(got) == 0 {
			// A subject that cannot be put in a header must not get there in
			// another form; refusing the request is the alternative.
			if selected("subject") && hasCtl(leaf.Subject.String()) {
				run.Count("refused-control-characters", 1)
				return
			}
			run.Violate("refused", replay, "the request never reached the upstream (%d %v)", status, err)
			return
		}
		vals := got[0].Header.Values("X-Forwarded-Client-Cert")
		if len(vals) != 1 {
			run.Violate("count", replay, "the upstream received %d values: %q", len(vals), vals)
			return
		}
		replay["header"] = vals[0]
		// What the certificate says, in the configured order.
		want := [][]any{}
		for _, f := range sel {
			switch strings.ToLower(f) {
			case "cert":
				want = append(want, []any{"Cert", string(leaf.Raw)})
			case "hash":
				h := sha256.Sum256(leaf.Raw)
				want = append(want, []any{"Hash", hex.EncodeToString(h[:])})
			case "subject":
				want = append(want, []any{"Subject", certSubject(leaf)})
			case "uri":
				for _, u := range leaf.URIs {
					want = append(want, []any{"URI", u.String()})
				}
			case "dns":
				for _, d := range leaf.DNSNames {
					want = append(want, []any{"DNS", d})
				}
			case "chain":
				want = append(want, []any{"Chain"})
			}
		}
		if len(want) == 0 && vals[0] == "" {
			run.Count("empty", 1)
			return
		}
		elems, err := specXFCC(vals[0])
		if err != nil {
			run.Violate("syntax", replay, "the header does not parse: %v: %q", err, vals[0])
			return
		}
		if len(elems) != 1 {
			run.Violate("elements", replay, "one certificate became %d elements: %q", len(elems), vals[0])
			return
		}
		var dec [][]any
		for _, f := range elems[0] {
			switch f.K {
			case "Cert":
				s, err := url.QueryUnescape(f.V)
				b, rest := pem.Decode([]byte(s))
				if err != nil || b == nil || len(rest) > 0 {
					run.Violate("cert", replay, "Cert does not decode: %v", err)
					return
				}
				dec = append(dec, []any{"Cert", string(b.Bytes)})
			case "Chain":
				s, err := url.QueryUnescape(f.V)
				rest := []byte(s)
				var chain []*x509.Certificate
				for len(rest) > 0 && err == nil {
					var b *pem.Block
					if b, rest = pem.Decode(rest); b == nil {
						err = errors.New("trailing data")
						break
					}
					var x *x509.Certificate
					if x, err = x509.ParseCertificate(b.Bytes); err == nil {
						chain = append(chain, x)
					}
				}
				if err != nil || len(chain) < 2 || !bytes.Equal(chain[0].Raw, leaf.Raw) {
					run.Violate("chain", replay, "Chain does not decode to a chain of this certificate: %v %d", err, len(chain))
					return
				}
				for x := 1; x < len(chain); x++ {
					if err := chain[x-1].CheckSignatureFrom(chain[x]); err != nil {
						run.Violate("chain", replay, "Chain certificate %d is not signed by the next one: %v", x-1, err)
					}
				}
				if root := chain[len(chain)-1]; !bytes.Equal(root.Raw, ca.Cert.Raw) && !bytes.Equal(root.Raw, ca2.Cert.Raw) {
					run.Violate("chain", replay, "Chain does not end at a configured root")
				}
				if len(dec) > 0 && dec[len(dec)-1][0] == "Chain" {
					run.Count("second-chains", 1)
					continue
				}
				run.Count("chains", 1)
				dec = append(dec, []any{"Chain"})
			case "Subject":
				s, err := specSubject(f.V)
				if err != nil {
					run.Violate("subject", replay, "Subject %q does not parse: %v", f.V, err)
					return
				}
				dec = append(dec, []any{"Subject", s})
			case "URI", "DNS":
				s, err := url.QueryUnescape(f.V)
				if err != nil {
					run.Violate("escape", replay, "%s %q does not decode: %v", f.K, f.V, err)
					return
				}
				dec = append(dec, []any{f.K, s})
			case "Hash":
				dec = append(dec, []any{f.K, f.V})
			default:
				run.Violate("field", replay, "unexpected field %q", f.K)
				return
			}
			run.Count("field-"+f.K, 1)
		}
		// Repeating a field in the configuration may repeat it in the header or not.
		if len(dec) != len(want) || !reflect.DeepEqual(dec, want) {
			if sortDedup(dec) != sortDedup(want) {
				run.Violate("content", replay, "the header decodes to %v, the certificate says %v", vh.Trunc(fmt.Sprintf("%q", dec), 1500), vh.Trunc(fmt.Sprintf("%q", want), 1500))
			}
		}
	})
	for _, f := range []string{"Cert", "Hash", "Subject", "URI", "DNS", "Chain"} {
		run.NeedAtLeast("field-"+f, n/10)
	}
	run.NeedAtLeast("second-chains", 1)
}

func sortDedup(l [][]any) string {
	m := map[string]bool{}
	for _, x := range l {
		m[fmt.Sprintf("%q", x)] = true
	}
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"net/url"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"stripverif/h"
)

// addr is an address with or without port in the ways it may be written.
type addr struct{ text, ip string }

func genIP(c *h.C) (ip string, v6 bool) {
	switch c.IntN(5) {
	case 0, 1:
		return fmt.Sprintf("%d.%d.%d.%d", 1+c.IntN(223), c.IntN(256), c.IntN(256), c.IntN(256)), false
	case 2:
		return c.Pick("::1", "fe80::1", "2001:db8::8a2e:370:7334", "::ffff:10.0.0.1", "2001:db8:0:1:1:1:1:1", "fe80::1%eth0"), true
	}
	var b [16]byte
	for i := range b {
		b[i] = byte(c.Uint32())
	}
	return netip.AddrFrom16(b).String(), true
}

func genAddr(c *h.C, needPort bool) addr {
	ip, v6 := genIP(c)
	port := fmt.Sprint(c.IntN(65536))
	if needPort || c.Chance(50) {
		return addr{net.JoinHostPort(ip, port), ip}
	}
	if v6 && c.Chance(50) {
		return addr{"[" + ip + "]", ip}
	}
	return addr{ip, ip}
}

// genHost is a host with the text expected for it.
func genHost(c *h.C) (text, host string) {
	switch c.IntN(3) {
	case 0:
		n := c.Pick("example.com", "a", "localhost", "xn--bcher-kva.example", "A.B.c", "under_score.host")
		if c.Chance(50) {
			return n + ":" + fmt.Sprint(1+c.IntN(65535)), n
		}
		return n, n
	}
	ip, v6 := genIP(c)
	if v6 {
		ip = strings.Split(ip, "%")[0]
	}
	host = ip
	if v6 {
		host = "[" + ip + "]"
	}
	if c.Chance(50) {
		return host + ":" + fmt.Sprint(1+c.IntN(65535)), host
	}
	return host, host
}

func genURI(c *h.C) string {
	p := c.Pick("/", "/a/b", "/a%2Fb", "/%E6%97%A5", "/a b", "//x/y", "/a;b=c", "/a:b", "/..//x", "/a%20b%25")
	p = strings.ReplaceAll(p, " ", "%20")
	switch c.IntN(4) {
	case 0:
		p += "?"
	case 1, 2:
		p += "?" + c.Pick("a=1", "a=1&b=%20x", "x", "a=b/c?d", "q=%zz")
	}
	return p
}

func snapshot(r *http.Request) string {
	return fmt.Sprintf("%q %q %q %+v %q %q %v", r.Method, r.URL.String(), r.Host, r.Header, r.RemoteAddr, r.RequestURI, *r.URL)
}

type want struct {
	ip, host, proto, uri string
}

// bare drops the brackets of an IPv6 host.
func bare(s string) string { return strings.TrimSuffix(strings.TrimPrefix(s, "["), "]") }

func check(c *h.C, where string, w want, ip, host, proto, uri string, u *url.URL, err error) {
	if ip != w.ip {
		c.Fatal("ip", "%s: real ip %q, want %q", where, ip, w.ip)
	}
	if host != w.host && bare(w.host) != host {
		c.Fatal("host", "%s: real host %q, want %q", where, host, w.host)
	}
	if proto != w.proto {
		c.Fatal("proto", "%s: real proto %q, want %q", where, proto, w.proto)
	}
	if uri != w.uri {
		c.Fatal("uri", "%s: real uri %q, want %q", where, uri, w.uri)
	}
	if err != nil {
		c.Fatal("url", "%s: real url: %v", where, err)
	}
	if s := u.String(); s != w.proto+"://"+w.host+w.uri {
		c.Fatal("url", "%s: real url %q, want %q", where, s, w.proto+"://"+w.host+w.uri)
	}
}

func gen(c *h.C) (*http.Request, want) {
	uri := genURI(c)
	u, err := url.ParseRequestURI(uri)
	if err != nil {
		c.Inconclusive("uri %q: %v", uri, err)
	}
	req := httptest.NewRequest(c.Pick("GET", "POST"), "/", nil)
	req.URL, req.RequestURI = u, uri
	w := want{uri: uri, proto: "http"}
	var hs string
	hs, w.host = genHost(c)
	req.Host = hs
	ra := genAddr(c, true)
	req.RemoteAddr, w.ip = ra.text, ra.ip
	if c.Chance(25) {
		req.TLS = &tls.ConnectionState{}
		w.proto = "https"
	}
	hd := req.Header
	sig := ""
	if c.Chance(35) {
		n := 1 + c.IntN(3)
		var parts []string
		for i := 0; i < n; i++ {
			a := genAddr(c, false)
			if i == 0 {
				w.ip = a.ip
			}
			parts = append(parts, strings.Repeat(" ", c.IntN(2))+a.text+strings.Repeat(" ", c.IntN(2)))
		}
		hd.Set("X-Forwarded-For", strings.Join(parts, ","))
		sig += "F"
	}
	if c.Chance(25) {
		ip, _ := genIP(c)
		hd.Set("X-Real-Ip", ip)
		w.ip = ip
		sig += "R"
	}
	if c.Chance(30) {
		var s string
		s, w.host = genHost(c)
		hd.Set("X-Forwarded-Host", s)
		sig += "H"
	}
	if c.Chance(30) {
		w.proto = c.Pick("http", "https", "http", "https", "HTTPS")
		hd.Set("X-Forwarded-Proto", w.proto)
		sig += "P"
	}
	if c.Chance(30) {
		w.uri = genURI(c)
		hd.Set("X-Original-Uri", w.uri)
		sig += "U"
	}
	c.Sig("%s %s %s %s %s %s", sig, w.ip, w.host, w.proto, w.uri, req.RemoteAddr)
	c.Note("remote %q host %q uri %q headers %q", req.RemoteAddr, req.Host, uri, hd)
	if sig == "" {
		c.Count("without_forwarding", 1)
	} else {
		c.Count("with_forwarding", 1)
	}
	if strings.Contains(w.ip, ":") {
		c.Count("ipv6_clients", 1)
	}
	return req, w
}

func functions(c *h.C) {
	req, w := gen(c)
	before := snapshot(req)
	u, err := params.RealURL(req)
	check(c, "functions", w, params.RealIp(req), params.RealHost(req), params.RealProto(req), params.RealURI(req), u, err)
	u.Path, u.RawQuery, u.Host = "/changed", "x", "y"
	if a := snapshot(req); a != before {
		c.Fatal("modified", "the request changed\nfrom %s\nto   %s", before, a)
	}
}

func begin(recs []string) string {
	for _, r := range recs {
		if strings.Contains(r, "[REQ_BEG]") {
			return r
		}
	}
	return ""
}

// served goes through the params provider and the request logger.
func served(c *h.C) {
	req, w := gen(c)
	sp, _ := h.NewApp()
	sp.Provide(params.ParamsParser())
	sink := &h.LogSink{}
	sp.Filter(reqlogger.ReqLoggerFilter(sink, reqlogger.LoggerOption{FlatLine: true}))
	ran := false
	act := func(p *params.Params, r *http.Request, rw http.ResponseWriter) {
		ran = true
		u, err := p.RealURL()
		check(c, "params", w, p.RealIp(), p.RealHost(), p.RealProto(), p.RealURI(), u, err)
		rw.WriteHeader(204)
	}
	sp.Routers(strip.Any(act), strip.Router("/*:rest", strip.Any(act)))
	sp.NotFound(act)
	before := snapshot(req)
	req.Header = req.Header.Clone()
	sp.ServeHTTP(httptest.NewRecorder(), req)
	req.Header.Del("X-Reqid")
	if a := snapshot(req); a != before {
		c.Fatal("modified", "serving changed the request\nfrom %s\nto   %s", before, a)
	}
	if !ran {
		c.Fatal("not-run", "the action did not run")
	}
	line := begin(sink.All())
	f := strings.Fields(line)
	if len(f) == 0 || f[len(f)-1] != w.ip {
		c.Fatal("begin-line", "begin line %q does not end with %q", line, w.ip)
	}
	if !strings.Contains(line, " "+req.Method+" "+req.Host+req.URL.String()+" ") {
		c.Fatal("begin-line", "begin line %q lacks method, host and url of the request", line)
	}
	c.Count("begin_lines", 1)
}

// wire: a real connection over IPv4 and IPv6 (where available) and TLS.
func wire(c *h.C) {
	var got want
	var gu string
	sink := &h.LogSink{}
	sp, _ := h.NewApp()
	sp.Provide(params.ParamsParser())
	sp.Filter(reqlogger.ReqLoggerFilter(sink, reqlogger.LoggerOption{FlatLine: true}))
	sp.Routers(strip.Router("/*:rest", strip.Any(func(p *params.Params, rw http.ResponseWriter) {
		u, err := p.RealURL()
		if err != nil {
			u = &url.URL{}
		}
		got, gu = want{p.RealIp(), p.RealHost(), p.RealProto(), p.RealURI()}, u.String()
		rw.WriteHeader(204)
	})))
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	ip := "127.0.0.1"
	if c.Chance(50) {
		if l6, e := net.Listen("tcp", "[::1]:0"); e == nil {
			ln.Close()
			ln, ip = l6, "::1"
			c.Count("wire_ipv6", 1)
		}
	}
	if err != nil {
		c.Inconclusive("listen: %v", err)
	}
	srv := &httptest.Server{Listener: ln, Config: &http.Server{Handler: sp, ErrorLog: nil}}
	useTLS := c.Chance(40)
	proto := "http"
	if useTLS {
		srv.StartTLS()
		proto = "https"
	} else {
		srv.Start()
	}
	defer srv.Close()
	cl := srv.Client()
	defer cl.CloseIdleConnections()
	uri := "/a%2Fb/" + fmt.Sprint(c.IntN(100)) + "?x=%20"
	resp, err := cl.Get(srv.URL + uri)
	if err != nil {
		c.Inconclusive("get: %v", err)
	}
	io.Copy(io.Discard, resp.Body)
	resp.Body.Close()
	host := ip
	if strings.Contains(ip, ":") {
		host = "[" + ip + "]"
	}
	w := want{ip, host, proto, uri}
	if bare(got.host) == ip {
		got.host = host
	}
	if got != w || gu != proto+"://"+host+uri {
		c.Fatal("wire", "over a real connection: %+v url %q, want %+v", got, gu, w)
	}
	line := begin(sink.All())
	f := strings.Fields(line)
	if len(f) == 0 || f[len(f)-1] != ip {
		c.Fatal("begin-line", "begin line %q does not end with %q", line, ip)
	}
	c.Count("wire", 1)
	c.Sig("wire %s %s", proto, uri)
}

func main() {
	_ = bytes.MinRead
	h.Main(h.Spec{
		ID:          "C19",
		Rule:        "requests whose remote address, Host, TLS state, URI and forwarding headers (X-Real-Ip, X-Forwarded-For lists, X-Forwarded-Host, X-Forwarded-Proto, X-Original-URI) are made from known IPv4, IPv6 and host names with and without ports; the functions, the Params methods and the begin line of the request log are compared with the parts used, the request with a snapshot; also over real TCP and TLS connections",
		Assumptions: []string{"X-Real-Ip carries no port", "precedence as documented by the code: X-Real-Ip, X-Forwarded-For, connection"},
		Min:         map[string]int64{"without_forwarding": 300, "with_forwarding": 2000, "ipv6_clients": 1000, "begin_lines": 1000, "wire": 20},
		MinDistinct: 2000,
		Run: func(r *h.R) {
			r.Par("functions", r.N(1500, 75000), functions)
			r.Loop("functions", r.N(6000, 300000), functions)
			r.Par("served", r.N(500, 15000), served)
			r.Loop("served", r.N(2000, 60000), served)
			r.Loop("wire", r.N(30, 500), wire)
		},
	})
}

package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/wujiu2020/strip"
	sgzip "github.com/wujiu2020/strip/gzip"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	static "github.com/wujiu2020/strip/static-serve"
	"stripverif/h"
)

var accepts = []struct {
	lines []string
	ok    bool
}{
	{nil, false}, {[]string{""}, false}, {[]string{"gzip"}, true}, {[]string{"gzip, deflate, br"}, true}, {[]string{"deflate, gzip;q=0.5"}, true},
	{[]string{"br;q=1.0,gzip;q=0.8,*;q=0.1"}, true}, {[]string{"gzip;q=0"}, false}, {[]string{"gzip;q=0.0, identity"}, false}, {[]string{"identity"}, false},
	{[]string{"deflate, br"}, false}, {[]string{"gzip;q=0.001"}, true}, {[]string{"br, gzip; q=0 , deflate"}, false}, {[]string{"gzip ; q=1"}, true}, {[]string{"GZIP"}, true},
	{[]string{"gzip;q=0.000,br"}, false}, {[]string{"deflate,gzip"}, true}, {[]string{"notgzip, gzipped"}, false},
}

type op struct {
	kind string
	f    func(rw http.ResponseWriter, req *http.Request)
}

type scenario struct {
	ops    []op
	ret    any      // returned by the action when not nil
	code   int      // with ret
	outer  []string // filters around, outermost first; "gzip" marks the position
	inner  []string
	group  bool // gzip is a filter of the group instead
	twice  bool
	head   http.Header
	method string
	accept int
	path   string
	direct bool // the action writes a body itself
	early  bool // an outer filter answers first
	panics bool
	encd   bool // the action encodes by itself
}

func data(c *h.C, n int) []byte {
	b := make([]byte, n)
	switch c.IntN(3) {
	case 0:
		for i := range b {
			b[i] = byte(c.Uint32())
		}
	case 1:
		copy(b, "<html><body>")
		for i := 12; i < n; i++ {
			b[i] = "hello world "[i%12]
		}
	default:
		for i := range b {
			b[i] = "0123456789abcdef"[c.IntN(16)]
		}
	}
	return b
}

func size(c *h.C) int {
	switch c.IntN(9) {
	case 0:
		return 1
	case 1:
		return 100 + c.IntN(5000)
	case 2:
		if c.Chance(30) {
			return 30000 + c.IntN(200000)
		}
		if c.Chance(5) {
			return 1<<20 + c.IntN(1<<20)
		}
	}
	return 2 + c.IntN(300)
}

func gen(c *h.C) *scenario {
	s := &scenario{head: http.Header{}, method: c.Pick("GET", "GET", "GET", "POST", "HEAD", "PUT"), accept: c.IntN(len(accepts)), path: "/act"}
	add := func(kind string, f func(rw http.ResponseWriter, req *http.Request)) {
		s.ops = append(s.ops, op{kind, f})
	}
	hdr := func(k, v string, how string) {
		add("header "+k, func(rw http.ResponseWriter, req *http.Request) {
			if how == "add" {
				rw.Header().Add(k, v)
			} else {
				rw.Header().Set(k, v)
			}
		})
	}
	body := false
	write := func() {
		b := data(c, size(c))
		if !body && c.Chance(90) {
			hdr("Content-Type", c.Pick("text/html; charset=utf-8", "application/json", "image/x"), "set")
			if c.Chance(10) { // no detection wanted
				v := [][]string{nil, {}, {""}}[c.IntN(3)]
				add(fmt.Sprintf("type %q", v), func(rw http.ResponseWriter, req *http.Request) { rw.Header()["Content-Type"] = v })
				c.Count("typeless", 1)
			}
		} else if !body {
			b = append([]byte("<!DOCTYPE html>"), data(c, 3000)...) // enough for every way of detection
		}
		body = true
		s.direct = true
		switch c.IntN(4) {
		case 0:
			add(fmt.Sprintf("copy %d", len(b)), func(rw http.ResponseWriter, req *http.Request) {
				if n, err := io.Copy(rw, bytes.NewReader(b)); err == nil && n != int64(len(b)) {
					panic("short copy")
				}
			})
		case 1:
			add(fmt.Sprintf("string %d", len(b)), func(rw http.ResponseWriter, req *http.Request) { io.WriteString(rw, string(b)) })
		default:
			add(fmt.Sprintf("write %d", len(b)), func(rw http.ResponseWriter, req *http.Request) {
				if n, err := rw.Write(b); err == nil && n != len(b) {
					panic("short write")
				}
			})
		}
	}
	if c.Chance(35) {
		hdr("Vary", c.Pick("Origin", "Accept-Encoding", "Accept, Cookie", "accept-encoding, Origin", "*"), c.Pick("set", "add"))
	}
	if c.Chance(15) {
		hdr("Vary", "X-Other", "add")
	}
	if c.Chance(20) {
		hdr("Etag", `"v1"`, "set")
	}
	if c.Chance(30) {
		hdr("X-Custom", c.Pick("a", "b"), "add")
	}
	if c.Chance(8) {
		hdr("Content-Encoding", c.Pick("br", "identity2"), "set")
		s.encd = true
	}
	if c.Chance(6) { // bytes of the uncompressed representation
		hdr("Content-Range", "bytes 0-9/100", "set")
		c.Count("partial", 1)
	}
	switch k := c.IntN(13); {
	case k < 6:
		if c.Chance(40) {
			code := []int{200, 201, 404, 500, 302, 418, 206}[c.IntN(7)]
			add(fmt.Sprintf("status %d", code), func(rw http.ResponseWriter, req *http.Request) { rw.WriteHeader(code) })
		}
		flush := c.Chance(30)
		length := !flush && c.Chance(25)
		if flush && c.Chance(30) {
			add("flush", func(rw http.ResponseWriter, req *http.Request) { rw.(http.Flusher).Flush() })
			hdr("X-Late", "1", "set")
			body = true
		}
		if length {
			b := data(c, size(c))
			hdr("Content-Type", "text/x", "set")
			hdr("Content-Length", fmt.Sprint(len(b)), "set")
			s.direct = true
			if c.Chance(30) { // the header goes out before the body
				if c.Chance(50) {
					add("flush", func(rw http.ResponseWriter, req *http.Request) { rw.(http.Flusher).Flush() })
				} else {
					add("empty write", func(rw http.ResponseWriter, req *http.Request) { rw.Write(nil) })
				}
				c.Count("sized_early", 1)
			}
			add("sized write", func(rw http.ResponseWriter, req *http.Request) {
				if h := len(b) / 2; h > 0 {
					rw.Write(b[:h])
					rw.Write(b[h:])
				} else {
					rw.Write(b)
				}
			})
		} else {
			for i, n := 0, 1+c.IntN(4); i < n; i++ {
				write()
				if c.Chance(10) {
					add("empty write", func(rw http.ResponseWriter, req *http.Request) { rw.Write(nil) })
				}
				if flush {
					add("flush", func(rw http.ResponseWriter, req *http.Request) { rw.(http.Flusher).Flush() })
				}
			}
		}
	case k == 6:
		code := []int{204, 304, 200, 500, 404}[c.IntN(5)]
		add(fmt.Sprintf("only status %d", code), func(rw http.ResponseWriter, req *http.Request) { rw.WriteHeader(code) })
		if c.Chance(40) {
			add("write", func(rw http.ResponseWriter, req *http.Request) { rw.Write([]byte("body?")) })
			s.direct = code != 204 && code != 304
		}
	case k == 7:
		text := string(data(c, size(c)))
		switch c.IntN(5) {
		case 0:
			s.ret = text
		case 1:
			s.ret = []byte(text)
		case 2:
			s.ret = "reader:" + text
		case 3:
			s.ret = 201
		case 4:
			s.ret, s.code = text, 404
		}
	case k == 8:
		content := data(c, 2000)
		ext := c.Pick("a.txt", "b.html", "c.bin")
		if c.Chance(60) {
			s.head.Set("Range", c.Pick("bytes=0-99", "bytes=100-", "bytes=-50", "bytes=5000-", "bytes=0-1,5-9"))
		}
		if c.Chance(30) {
			s.head.Set("If-Modified-Since", "Fri, 01 Jan 2100 00:00:00 GMT")
		}
		add("content", func(rw http.ResponseWriter, req *http.Request) {
			http.ServeContent(rw, req, ext, time.Unix(1700000000, 0), bytes.NewReader(content))
		})
	case k == 9:
		switch c.IntN(3) {
		case 0:
			add("error", func(rw http.ResponseWriter, req *http.Request) { http.Error(rw, "failed", 503) })
			s.direct = !s.encd
		case 1:
			add("redirect", func(rw http.ResponseWriter, req *http.Request) { http.Redirect(rw, req, "/else?a=b", 302) })
		case 2:
			add("cookie", func(rw http.ResponseWriter, req *http.Request) {
				http.SetCookie(rw, &http.Cookie{Name: "a", Value: "b"})
				rw.WriteHeader(303)
			})
		}
	case k == 10:
		// nothing at all
	case k == 11:
		s.path = "/missing"
		s.ops = nil
		s.direct, s.encd = true, false
	case k == 12:
		s.path = c.Pick("/files/a.txt", "/files/dir/", "/files/none", "/files/big.txt", "/files/dir")
		s.ops = nil
		s.direct, s.encd = false, false
	}
	if len(s.ops) > 0 && c.Chance(12) {
		at := c.IntN(len(s.ops) + 1)
		s.ops = append(s.ops[:at:at], op{"panic", func(http.ResponseWriter, *http.Request) { panic(errors.New("boom")) }})
		s.panics = true
	}
	// the filters around
	for _, f := range []string{"recovery", "out", "logger", "hook", "headers", "late", "static"} {
		if f == "static" && !strings.HasPrefix(s.path, "/files") {
			continue
		}
		if f != "static" && !c.Chance(45) {
			continue
		}
		if c.Chance(50) {
			s.outer = append(s.outer, f)
		} else {
			s.inner = append(s.inner, f)
		}
	}
	if c.Chance(6) {
		s.outer = append(s.outer, "early")
		s.early = true
	}
	c.Shuffle(len(s.outer), func(i, j int) { s.outer[i], s.outer[j] = s.outer[j], s.outer[i] })
	c.Shuffle(len(s.inner), func(i, j int) { s.inner[i], s.inner[j] = s.inner[j], s.inner[i] })
	s.twice = c.Chance(12)
	s.group = c.Chance(25)
	return s
}

func (s *scenario) String() string {
	k := []string{}
	for _, o := range s.ops {
		k = append(k, o.kind)
	}
	ret := ""
	if s.ret != nil {
		ret = fmt.Sprintf(" returns %T (%d)", s.ret, s.code)
	}
	return fmt.Sprintf("%s %s head %v accept %q outer %q inner %q group %v twice %v ops %q%s", s.method, s.path, s.head, accepts[s.accept].lines, s.outer, s.inner, s.group, s.twice, k, ret)
}

var root string

func (s *scenario) filter(name string) any {
	switch name {
	case "recovery":
		return strip.RecoveryFilter()
	case "out":
		return strip.GenericOutFilter()
	case "logger":
		return reqlogger.ReqLoggerFilter(log.New(io.Discard, "", 0), reqlogger.LoggerOption{FlatLine: true})
	case "hook":
		return func(rw http.ResponseWriter) {
			rw.(strip.ResponseWriter).Before(func(w strip.ResponseWriter) {
				w.Header().Add("Vary", "X-Hook")
				w.Header().Set("X-Hook", fmt.Sprint(w.Status()))
			})
		}
	case "headers":
		return func(rw http.ResponseWriter) {
			rw.Header().Set("X-Early", "1")
			rw.Header().Add("Vary", "Cookie")
		}
	case "late": // like an error page filter: writes through the current writer if nothing is there yet
		return func(ctx strip.Context) {
			ctx.Next()
			if ctx.Written() {
				return
			}
			var rw http.ResponseWriter
			ctx.Find(&rw, "")
			rw.Header().Set("Content-Type", "text/x-late")
			rw.WriteHeader(599)
			io.WriteString(rw, "late page")
		}
	case "early":
		return func(rw http.ResponseWriter, ctx strip.Context) {
			rw.Header().Set("Content-Type", "text/x-early")
			io.WriteString(rw, "early page")
			ctx.Next()
		}
	case "static":
		return static.ServeFilter("/files", root)
	}
	panic(name)
}

func (s *scenario) app(zip bool) *strip.Strip {
	sp := strip.New()
	sp.SetLogger(strip.NewLogger(log.New(io.Discard, "", 0)))
	sp.Config.RunMode = "dev"
	for _, f := range s.outer {
		sp.Filter(s.filter(f))
	}
	// without compression another filter takes the place in the chain
	place := func() any {
		if zip {
			return sgzip.All()
		}
		return func(ctx strip.Context) {
			if accepts[s.accept].ok {
				ctx.Next()
			}
		}
	}
	if !s.group {
		sp.Filter(place())
	}
	for _, f := range s.inner {
		sp.Filter(s.filter(f))
	}
	if s.twice {
		sp.Filter(place())
	}
	run := func(rw http.ResponseWriter, req *http.Request) {
		for _, o := range s.ops {
			o.f(rw, req)
		}
	}
	var act any = run
	switch r := s.ret.(type) {
	case int:
		act = func(rw http.ResponseWriter, req *http.Request) int { run(rw, req); return r }
	case []byte:
		act = func(rw http.ResponseWriter, req *http.Request) []byte { run(rw, req); return r }
	case string:
		act = func(rw http.ResponseWriter, req *http.Request) string { run(rw, req); return r }
		if s.code != 0 {
			act = func(rw http.ResponseWriter, req *http.Request) (string, int) { run(rw, req); return r, s.code }
		}
		if strings.HasPrefix(r, "reader:") {
			act = func(rw http.ResponseWriter, req *http.Request) io.Reader { run(rw, req); return strings.NewReader(r) }
		}
	}
	parts := []strip.Handler{"/act", strip.Any(act)}
	if s.group {
		parts = append(parts, strip.Filter(place()))
	}
	sp.Routers(strip.Router("/act", parts[1:]...))
	return sp
}

type outcome struct {
	status  int
	head    http.Header
	raw     []byte
	flushed bool
	panic   string
	err     string
}

func (s *scenario) request(url string) *http.Request {
	req := httptest.NewRequest(s.method, url+s.path, nil)
	for k, v := range s.head {
		req.Header[k] = v
	}
	if l := accepts[s.accept].lines; l != nil {
		req.Header["Accept-Encoding"] = l
	}
	return req
}

func record(s *scenario, zip bool) (o outcome) {
	sp := s.app(zip)
	rec := httptest.NewRecorder()
	func() {
		defer func() {
			if e := recover(); e != nil {
				o.panic = fmt.Sprint(e)
			}
		}()
		sp.ServeHTTP(rec, s.request("http://example.com"))
	}()
	res := rec.Result()
	o.status, o.head, o.raw, o.flushed = res.StatusCode, res.Header, rec.Body.Bytes(), rec.Flushed
	return
}

func wire(s *scenario, zip bool) (o outcome) {
	srv := httptest.NewUnstartedServer(s.app(zip))
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	defer srv.Close()
	tr := &http.Transport{DisableCompression: true}
	defer tr.CloseIdleConnections()
	req := s.request(srv.URL)
	req.RequestURI = ""
	res, err := tr.RoundTrip(req)
	if err != nil {
		o.err = "request"
		return
	}
	defer res.Body.Close()
	o.status, o.head = res.StatusCode, res.Header
	o.raw, err = io.ReadAll(res.Body)
	if err != nil {
		o.err = "body"
	}
	if res.ContentLength >= 0 {
		o.head.Set("Content-Length", fmt.Sprint(res.ContentLength))
	}
	return
}

func tokens(hd http.Header) map[string]bool {
	m := map[string]bool{}
	for _, l := range hd["Vary"] {
		for _, t := range strings.Split(l, ",") {
			if t = strings.ToLower(strings.TrimSpace(t)); t != "" {
				m[t] = true
			}
		}
	}
	return m
}

func headers(hd http.Header, drop ...string) string {
	var ks []string
	skip := map[string]bool{"Date": true, "X-Reqid": true, "X-Response-Time": true, "Content-Encoding": true, "Content-Length": true, "Vary": true}
	for _, d := range drop {
		skip[d] = true
	}
	for k, v := range hd {
		if skip[k] {
			continue
		}
		ks = append(ks, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func gunzip(b []byte) ([]byte, error) {
	r := bytes.NewReader(b)
	br := bufio.NewReader(r)
	z, err := gzip.NewReader(br)
	if err != nil {
		return nil, err
	}
	z.Multistream(false)
	out, err := io.ReadAll(z)
	if err != nil {
		return out, err
	}
	if br.Buffered() > 0 || r.Len() > 0 {
		return out, fmt.Errorf("%d bytes follow the compressed stream", br.Buffered()+r.Len())
	}
	return out, nil
}

// compare judges the run with the filter against the one without.
func compare(c *h.C, s *scenario, over string, plain, zip outcome) {
	ok := accepts[s.accept].ok
	if plain.panic != zip.panic {
		c.Fatal("panic-differs", "%s: panic %q, without filter %q", over, zip.panic, plain.panic)
	}
	// the page of a caught panic does not fit a length announced before, which
	// compression takes away
	if plain.err != zip.err && !(s.panics && plain.err == "body") {
		c.Fatal("transport", "%s: transport error %q, without filter %q", over, zip.err, plain.err)
	}
	if plain.err != "" {
		c.Count("broken_off", 1)
		return
	}
	if plain.status != zip.status {
		c.Fatal("status", "%s: status %d, without filter %d", over, zip.status, plain.status)
	}
	pe, ze := plain.head.Get("Content-Encoding"), zip.head.Get("Content-Encoding")
	compressed := ze != pe
	headless := over == "wire" && s.method == "HEAD"
	body := zip.raw
	if compressed {
		if !ok {
			c.Fatal("not-accepted", "%s: Content-Encoding %q for Accept-Encoding %q", over, ze, accepts[s.accept].lines)
		}
		if ze != "gzip" || pe != "" {
			c.Fatal("encoding", "%s: Content-Encoding %q, without filter %q", over, ze, pe)
		}
		if !headless {
			b, err := gunzip(zip.raw)
			if err != nil {
				c.Fatal("broken-stream", "%s: announced gzip, but decoding %d bytes gives %d bytes and %v (raw %q)", over, len(zip.raw), len(b), err, h.Short(string(zip.raw)))
			}
			body = b
			c.Count("decoded_bytes", len(b))
		}
		c.Count("compressed", 1)
	} else {
		c.Count("not_compressed", 1)
	}
	if !headless && !bytes.Equal(body, plain.raw) && !(strings.Contains(string(plain.raw), "<head><title>PANIC") && strings.Contains(string(body), "<head><title>PANIC")) {
		c.Fatal("body", "%s: body of %d bytes %q, without filter %d bytes %q (encoding %q)", over, len(body), h.Short(string(body)), len(plain.raw), h.Short(string(plain.raw)), ze)
	}
	drop := []string{}
	if over == "record" && plain.head["Content-Type"] == nil {
		drop = append(drop, "Content-Type") // the recorder does not detect
	}
	if a, b := headers(plain.head, drop...), headers(zip.head, drop...); a != b {
		c.Fatal("headers", "%s: headers %s\nwithout filter %s", over, b, a)
	}
	if l := zip.head.Get("Content-Length"); l != "" && !headless && !s.panics && l != fmt.Sprint(len(zip.raw)) && zip.status != 304 && (len(zip.raw) > 0 || over == "wire" || compressed) && s.method != "HEAD" {
		c.Fatal("length", "%s: Content-Length %s with a body of %d bytes", over, l, len(zip.raw))
	}
	if compressed && headless && plain.head.Get("Content-Length") != "" && zip.head.Get("Content-Length") == plain.head.Get("Content-Length") {
		c.Fatal("length", "%s: HEAD keeps the length %s of the uncompressed body", over, zip.head.Get("Content-Length"))
	}
	pv, zv := tokens(plain.head), tokens(zip.head)
	for t := range pv {
		if !zv[t] {
			c.Fatal("vary-lost", "%s: Vary %q lost %q", over, zip.head["Vary"], t)
		}
	}
	for t := range zv {
		if !pv[t] && t != "accept-encoding" {
			c.Fatal("vary-added", "%s: Vary %q, without filter %q", over, zip.head["Vary"], plain.head["Vary"])
		}
	}
	if compressed && !zv["accept-encoding"] && !zv["*"] {
		c.Fatal("vary-missing", "%s: compressed with Vary %q", over, zip.head["Vary"])
	}
	if compressed && plain.head.Get("Content-Range") != "" {
		c.Fatal("partial", "%s: a part of a body (Content-Range %s) is compressed", over, plain.head.Get("Content-Range"))
	}
	if plain.flushed != zip.flushed {
		c.Fatal("flushed", "%s: flushed %v, without filter %v", over, zip.flushed, plain.flushed)
	}
	// what the action writes itself is compressed
	if ok && !compressed && s.direct && !s.early && !s.panics && !s.encd && len(plain.raw) > 0 && plain.head.Get("Content-Range") == "" && pe == "" && !(s.group && s.path != "/act" && !s.twice) {
		c.Fatal("not-compressed", "%s: a body of %d bytes is not compressed for Accept-Encoding %q", over, len(plain.raw), accepts[s.accept].lines)
	}
}

func recorded(c *h.C) {
	s := gen(c)
	c.Note("%v", s)
	compare(c, s, "record", record(s, false), record(s, true))
	stat(c, s)
}

func stat(c *h.C, s *scenario) {
	c.Sig("%v", s)
	if accepts[s.accept].ok {
		c.Count("accepting", 1)
	}
	if s.panics {
		c.Count("panics", 1)
	}
	if s.twice {
		c.Count("twice", 1)
	}
	if s.early {
		c.Count("early", 1)
	}
}

func overWire(c *h.C) {
	s := gen(c)
	c.Note("%v", s)
	compare(c, s, "wire", wire(s, false), wire(s, true))
	c.Count("wire", 1)
	stat(c, s)
}

// streaming: what is flushed arrives while the handler still runs.
func streaming(c *h.C) {
	n := 2 + c.IntN(4)
	var chunks [][]byte
	for i := 0; i < n; i++ {
		chunks = append(chunks, data(c, 1+c.IntN(3000)))
	}
	next := make(chan struct{})
	sp, _ := h.NewApp()
	if c.Chance(50) {
		sp.Filter(strip.RecoveryFilter())
	}
	sp.Filter(sgzip.All())
	sp.Routers(strip.Router("/s", strip.Any(func(rw http.ResponseWriter) {
		rw.Header().Set("Content-Type", "text/event-stream")
		for _, b := range chunks {
			rw.Write(b)
			rw.(http.Flusher).Flush()
			select {
			case <-next:
			case <-time.After(20 * time.Second):
				return
			}
		}
	})))
	srv := httptest.NewServer(sp)
	defer srv.Close()
	tr := &http.Transport{DisableCompression: true}
	defer tr.CloseIdleConnections()
	req, _ := http.NewRequest("GET", srv.URL+"/s", nil)
	req.Header.Set("Accept-Encoding", "gzip")
	res, err := tr.RoundTrip(req)
	if err != nil {
		c.Inconclusive("%v", err)
	}
	defer res.Body.Close()
	if res.Header.Get("Content-Encoding") != "gzip" {
		c.Fatal("stream-plain", "the stream is not compressed")
	}
	got := make(chan error, 1)
	step := make(chan struct{})
	go func() {
		z, err := gzip.NewReader(res.Body)
		if err != nil {
			got <- err
			return
		}
		for _, b := range chunks {
			buf := make([]byte, len(b))
			if _, err := io.ReadFull(z, buf); err != nil {
				got <- err
				return
			}
			if !bytes.Equal(buf, b) {
				got <- errors.New("other bytes")
				return
			}
			got <- nil
			<-step
		}
		rest, err := io.ReadAll(z)
		if err == nil && len(rest) > 0 {
			err = fmt.Errorf("%d extra bytes", len(rest))
		}
		got <- err
	}()
	for i := 0; i <= n; i++ {
		select {
		case err := <-got:
			if err != nil {
				c.Fatal("stream", "chunk %d: %v", i, err)
			}
		case <-time.After(10 * time.Second):
			c.Fatal("not-flushed", "chunk %d was flushed but did not arrive in 10s", i)
		}
		if i < n {
			next <- struct{}{}
			step <- struct{}{}
			c.Count("flushed_chunks", 1)
		}
	}
	c.Sig("stream %d %d", n, len(chunks[0]))
}

// hijacked connections are the handler's.
func hijack(c *h.C) {
	text := fmt.Sprintf("HTTP/1.1 299 Own\r\nContent-Length: 5\r\nConnection: close\r\n\r\n%05d", c.IntN(99999))
	sp, _ := h.NewApp()
	sp.Filter(sgzip.All())
	sp.Routers(strip.Router("/h", strip.Any(func(rw http.ResponseWriter) {
		conn, _, err := rw.(http.Hijacker).Hijack()
		if err != nil {
			panic(err)
		}
		io.WriteString(conn, text)
		conn.Close()
	})))
	srv := httptest.NewUnstartedServer(sp)
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	defer srv.Close()
	conn, err := net.Dial("tcp", srv.Listener.Addr().String())
	if err != nil {
		c.Inconclusive("%v", err)
	}
	defer conn.Close()
	io.WriteString(conn, "GET /h HTTP/1.1\r\nHost: x\r\nAccept-Encoding: gzip\r\n\r\n")
	conn.SetReadDeadline(time.Now().Add(20 * time.Second))
	got, _ := io.ReadAll(conn)
	if string(got) != text {
		c.Fatal("hijack", "hijacked connection carried %q, want %q", got, text)
	}
	c.Count("hijacks", 1)
	c.Sig("hijack %s", text)
}

// concurrent requests through one filter do not mix.
func concurrent(c *h.C) {
	sp, _ := h.NewApp()
	sp.Filter(strip.RecoveryFilter(), sgzip.All())
	body := func(id string) []byte { return []byte(strings.Repeat("<"+id+">", 50+len(id)*100)) }
	sp.Routers(strip.Router("/c", strip.Router("/:id", strip.Any(func(rw http.ResponseWriter, info *strip.RouteInfo) {
		b := body(info.Get("id"))
		rw.Header().Set("Content-Type", "text/x")
		for len(b) > 0 {
			n := min(len(b), 333)
			rw.Write(b[:n])
			b = b[n:]
			if len(b)%2 == 0 {
				rw.(http.Flusher).Flush()
			}
		}
	}))))
	srv := httptest.NewServer(sp)
	defer srv.Close()
	tr := &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 16}
	defer tr.CloseIdleConnections()
	var wg sync.WaitGroup
	errs := make(chan string, 200)
	for g := 0; g < 16; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 12; i++ {
				id := fmt.Sprintf("%d-%d", g, i)
				req, _ := http.NewRequest("GET", srv.URL+"/c/"+id, nil)
				want := (g+i)%3 != 0
				if want {
					req.Header.Set("Accept-Encoding", "gzip")
				}
				res, err := tr.RoundTrip(req)
				if err != nil {
					continue
				}
				raw, err := io.ReadAll(res.Body)
				res.Body.Close()
				if want && err == nil {
					raw, err = gunzip(raw)
				}
				if err != nil || !bytes.Equal(raw, body(id)) || want != (res.Header.Get("Content-Encoding") == "gzip") {
					errs <- fmt.Sprintf("%s: %v %d bytes %q", id, err, len(raw), h.Short(string(raw)))
				}
			}
		}()
	}
	wg.Wait()
	select {
	case e := <-errs:
		c.Fatal("concurrent", "%s", e)
	default:
	}
	c.Count("concurrent", 16*12)
	c.Sig("concurrent %d", c.Index)
}

func main() {
	h.Main(h.Spec{
		ID:          "C25",
		Rule:        "generated responses (headers, statuses, writes of many sizes, flushes, explicit lengths, ranges, conditional requests, errors, redirects, panics, returned values, static files, not found) pass the same application with and without the compression filter, which stands anywhere among recovery, result rendering, request logger, header and hook filters, early and late writers, as a group filter or twice; recorded and over real connections; status, headers, decoded body, length, variation and encoding are compared, a gzip stream must be one complete member with nothing behind it; flushed chunks must arrive while the handler waits",
		Assumptions: []string{"no outer filter writes a body after an inner handler has written one", "the content type is set or evident from the first write"},
		Min:         map[string]int64{"compressed": 800, "not_compressed": 1000, "accepting": 1500, "panics": 100, "twice": 200, "early": 50, "wire": 200, "flushed_chunks": 40, "hijacks": 5, "concurrent": 100},
		MinDistinct: 2000,
		Run: func(r *h.R) {
			root = filepath.Join(os.TempDir(), "files")
			os.MkdirAll(filepath.Join(root, "dir"), 0o755)
			os.WriteFile(filepath.Join(root, "a.txt"), []byte("file a"), 0o644)
			os.WriteFile(filepath.Join(root, "big.txt"), bytes.Repeat([]byte("line of text\n"), 9000), 0o644)
			os.WriteFile(filepath.Join(root, "dir", "index.html"), []byte("<html>index</html>"), 0o644)
			r.Loop("recorded", r.N(4000, 100000), recorded)
			r.Loop("wire", r.N(500, 10000), overWire)
			r.Loop("streaming", r.N(20, 300), streaming)
			r.Loop("hijack", r.N(10, 50), hijack)
			r.Loop("concurrent", r.N(2, 40), concurrent)
		},
	})
}

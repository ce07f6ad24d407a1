// C40: whatever happened, nothing a request used is kept.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"mime/multipart"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	zip "github.com/wujiu2020/strip/gzip"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/sessions"
	static "github.com/wujiu2020/strip/static-serve"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/apires"
	"stripverif/fake"
	"stripverif/h"
)

var quiet = log.New(io.Discard, "", 0)

type drop struct{}

func (drop) Print(...interface{}) {}

type Token struct{ V string }
type Sub struct{ V string }
type key struct{ V string }

var closed, opened atomic.Int64

type source struct {
	io.Reader
	f *os.File
}

func (s source) Close() error { closed.Add(1); return s.f.Close() }

func open(path string) source {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	opened.Add(1)
	return source{f, f}
}

type Ctl struct {
	Ctx strip.Context  `inject`
	Tok *Token         `inject`
	Sub Sub            `inject`
	Log strip.Logger   `inject`
	P   *params.Params `inject`
	buf []byte
}

func (s *Ctl) Get(a string, n int) string {
	s.buf = make([]byte, 200)
	var m map[string]string
	var l []string
	s.P.Bind(&m, "m")
	s.P.Bind(&l, "l")
	s.Log.Info("get", a, s.Tok.V)
	return fmt.Sprint("get ", a, n, s.Sub.V, m, l)
}
func (s *Ctl) Post(a string) *apires.ResBody {
	return apires.With(map[string]string{"a": a, "t": s.Tok.V})
}
func (s *Ctl) Put(a string) *apires.ResError {
	return errBase.WithData(map[string]string{"a": a}, "m "+s.Tok.V)
}
func (s *Ctl) Delete(a string) { panic(fmt.Errorf("boom %s %s", a, s.Tok.V)) }

var errBase = apires.NewResError(409, 12, "base")

type app struct {
	sp    *strip.Strip
	parts string
	sess  bool
	dir   string
	b     *fake.Backend
}

var backend *fake.Backend

func build(c *h.C) *app {
	a := &app{dir: filepath.Join(c.Dir(), "static")}
	sp := strip.New()
	a.sp = sp
	sp.Config.RunMode = []strip.Mode{strip.ModeProd, strip.ModeDev, strip.ModeTest}[c.IntN(3)]
	if c.Chance(50) { // parts of uploads are files
		cfg, err := config.LoadIniFromReader(strings.NewReader("max_memory = 100\n"))
		if err != nil {
			c.Inconclusive("config: %v", err)
		}
		mode := sp.Config.RunMode
		sp.ImportConfig(cfg)
		sp.Config.RunMode = mode
		a.parts += " spill"
	}
	sp.SetLogger(strip.NewLogger(drop{}))
	sp.Provide(params.ParamsParser())
	sp.Provide(func(req *http.Request) *Token { return &Token{req.URL.Path} })
	sp.Provide(func(t *Token) Sub { return Sub{"sub-" + t.V} })
	add := func(name string, pct int, f any) {
		if c.Chance(pct) {
			sp.Filter(f)
			a.parts += " " + name
		}
	}
	filters := []func(){
		func() { add("recovery", 85, strip.RecoveryFilter()) },
		func() {
			add("reqlog", 60, reqlogger.ReqLoggerFilter(drop{}, reqlogger.LoggerOption{FlatLine: c.Chance(50), LineInfo: c.Chance(50)}))
		},
		func() { add("gzip", 60, zip.All()) },
		func() { add("out", 85, strip.GenericOutFilter()) },
		func() {
			add("ctx", 50, func(ctx strip.Context, req *http.Request) {
				g, cancel := context.WithTimeout(ctx, time.Hour)
				defer cancel()
				v := &key{req.URL.Path}
				ctx.ReplaceContext(utils.CtxWithValue(g, v))
				ctx.ProvideAs(&Token{"named"}, (*Token)(nil), "n")
				ctx.Next()
			})
		},
		func() {
			add("hook", 50, func(rw http.ResponseWriter, req *http.Request) {
				p := req.URL.Path
				rw.(strip.ResponseWriter).Before(func(w strip.ResponseWriter) { w.Header().Set("X-Hook", p) })
			})
		},
		func() {
			if c.Chance(40) {
				a.sess, a.b = true, backend
				backend.Fresh()
				prov, err := backend.Sessions(sessions.Config{SecretKey: "secret", SessionExpire: 600}, "s", false)
				if err != nil {
					c.Inconclusive("sessions: %v", err)
				}
				m := sessions.NewSessionManager(prov)
				cfg := &sessions.CookieConfig{CookieName: "SID", CookieRememberName: "R", RememberExpire: 600}
				a.parts += " sessions"
				sp.Filter(func(ctx strip.Context, req *http.Request, rw http.ResponseWriter) {
					st, _, err := m.Start(cfg, rw, req)
					if err != nil {
						panic(err)
					}
					st.Set("p", req.URL.Path)
					if len(req.URL.Path)%3 == 0 {
						st.Flush()
						st, _, err = m.Regenerate(cfg, rw, req)
						if err != nil {
							panic(err)
						}
					}
					ctx.ProvideAs(st, (*sessions.SessionStore)(nil))
					ctx.Next()
					st.Flush()
					if len(req.URL.Path)%2 == 0 {
						m.Destroy(cfg, rw, req)
					}
				})
			}
		},
		func() {
			add("static", 75, static.ServeFilter("/st", a.dir, static.StaticOption{AnyMethod: c.Chance(30), TryFilesThen: c.Pick("", "", "fallback.txt", "missing.txt")}))
		},
	}
	if c.Chance(50) {
		rest := filters[1:]
		c.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	}
	for _, f := range filters {
		f()
	}
	file := filepath.Join(a.dir, "a.txt")
	mod := &Ctl{}
	sp.Routers(
		strip.Router("/c/:a", strip.Get(mod), strip.Post(mod), strip.Put(Ctl{}), strip.Delete(mod),
			strip.Router("/:n", strip.Get(mod), strip.Any(func(i *strip.RouteInfo) string { return i.Get("n") }))),
		strip.Router("/w/*:rest", strip.Any(func(i *strip.RouteInfo, rw http.ResponseWriter, cx strip.Context) {
			// more than one lookup of things provided on the way
			var t Token
			cx.Find(&t, "")
			var none *bytes.Buffer
			cx.Find(&none, "x")
			io.WriteString(rw, i.Get("rest")+t.V)
			rw.(http.Flusher).Flush()
			io.WriteString(rw, strings.Repeat("w", 300))
		})),
		strip.Router("/v/:x:go", strip.Any(func(i *strip.RouteInfo) (string, int) { return i.Get("x"), 202 })),
		strip.Router("/file", strip.Any(func() io.ReadCloser { return open(file) })),
		strip.Router("/file/:id", strip.Any(func() (io.ReadCloser, int) { return open(file), 206 })),
		strip.Router("/raw/:x", strip.Any(func(i *strip.RouteInfo) *apires.RawBody { return apires.RawWith("r "+i.Get("x"), 203) })),
		strip.Router("/panic/:x", strip.Any(func(i *strip.RouteInfo) { panic("p " + i.Get("x")) })),
		strip.Router("/nil", strip.Any(func() error { return nil })),
		strip.Router("/up", strip.Any(func(p *params.Params) string {
			n := 0
			for _, fs := range p.Files {
				for _, fh := range fs {
					f, err := fh.Open()
					if err != nil {
						panic(err)
					}
					b, _ := io.ReadAll(f)
					n += len(b)
					f.Close()
				}
			}
			return fmt.Sprint(n)
		})),
		strip.Router("/bigup", strip.Any(func(req *http.Request) (string, int) {
			if err := req.ParseMultipartForm(1); err != nil {
				return err.Error(), 400
			}
			return fmt.Sprint(len(req.MultipartForm.File)), 200
		})),
		strip.Router("/uppanic", strip.Any(func(req *http.Request) {
			req.ParseMultipartForm(1)
			panic("with files")
		})),
		strip.Router("/upabort", strip.Any(func(p *params.Params, req *http.Request) {
			req.ParseMultipartForm(1)
			panic(http.ErrAbortHandler)
		})),
		strip.Router("/dep/:x", strip.Any(func(m map[string]bool) {})), // can not be resolved
		strip.Router("/slow/:x", strip.Any(func(ctx strip.Context, rw http.ResponseWriter) {
			select {
			case <-ctx.Done():
			case <-time.After(300 * time.Microsecond):
			}
			io.WriteString(rw, "late")
		})),
		strip.Router("/over/:x", strip.Any(func(rw http.ResponseWriter) {
			hj, ok := rw.(http.Hijacker)
			if !ok {
				panic("no hijacker")
			}
			conn, _, err := hj.Hijack()
			if err != nil {
				rw.WriteHeader(501)
				return
			}
			io.WriteString(conn, "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 2\r\n\r\nhi")
			conn.Close()
		})),
	)
	sp.NotFound(func(rw http.ResponseWriter, req *http.Request) {
		rw.WriteHeader(404)
		io.WriteString(rw, "none for "+req.URL.Path)
	})
	return a
}

var serial int

var kinds = []string{"c", "c2", "put", "deep", "w", "v", "file", "fileid", "raw", "panic", "nil", "up", "bigup", "uppanic", "upabort", "dep", "slow", "none", "static", "index", "staticnone", "noindex", "redirect", "under", "delete", "method", "head", "verbless"}

// request makes a request like no other before.
func (a *app) request(c *h.C, base, k string) (*http.Request, string) {
	serial++
	u := fmt.Sprintf("u%d-%d", serial, c.IntN(1000))
	if k == "" {
		k = kinds[c.IntN(len(kinds))]
	}
	method, path := c.Pick("GET", "GET", "POST"), ""
	var body io.Reader = http.NoBody
	ctype := ""
	switch k {
	case "c":
		method, path = c.Pick("GET", "POST"), "/c/"+u
	case "put":
		method, path = "PUT", "/c/"+u
	case "head":
		method, path = "HEAD", "/c/"+u
	case "c2":
		method, path = c.Pick("GET", "PUT"), fmt.Sprintf("/c/%s/%d", u, serial)
	case "deep": // no such path
		path = fmt.Sprintf("/c/%s/%d/%s/x", u, serial, u)
	case "verbless":
		path = "/v/" + u
	case "delete":
		method, path = "DELETE", "/c/"+u
	case "method":
		method, path = "M"+strings.ToUpper(u), "/c/"+u
	case "w":
		path = "/w/" + u + "/x/" + u
	case "v":
		path = "/v/" + u + ":go"
	case "file":
		path = "/file"
	case "fileid":
		path = "/file/" + u
	case "raw", "panic", "dep", "slow":
		path = "/" + k + "/" + u
	case "nil":
		path = "/nil"
	case "none":
		path = "/none/" + u
	case "static":
		method, path = c.Pick("GET", "HEAD", "GET"), "/st/"+c.Pick("a.txt", "b.bin", "sub/c.html")
	case "index":
		path = "/st/sub/"
	case "staticnone":
		path = "/st/" + u
	case "noindex":
		path = c.Pick("/st/", "/st/dir/")
	case "redirect":
		path = c.Pick("/st/sub", "/st/dir")
	case "under":
		path = "/st/a.txt/x"
	case "up", "bigup", "uppanic", "upabort":
		method, path = "POST", "/"+k
		var b bytes.Buffer
		mw := multipart.NewWriter(&b)
		mw.WriteField("k"+u, u)
		f, _ := mw.CreateFormFile("f"+u, u+".txt")
		f.Write(bytes.Repeat([]byte("x"), 1+c.IntN(3000)))
		mw.Close()
		body, ctype = &b, mw.FormDataContentType()
	}
	if (method == "POST" || method == "PUT") && ctype == "" && c.Chance(50) {
		body = strings.NewReader("f" + u + "=" + u + "&l[]=1")
		ctype = "application/x-www-form-urlencoded"
	}
	q := url.Values{"q" + u: {u}, "l[]": {u, "2"}, "m[" + u + "]": {u}}
	req, err := http.NewRequest(method, base+path+"?"+q.Encode(), body)
	if err != nil {
		c.Inconclusive("request: %v", err)
	}
	if ctype != "" {
		req.Header.Set("Content-Type", ctype)
	}
	if c.Chance(50) {
		req.Header.Set("Accept-Encoding", c.Pick("gzip", "gzip, deflate", "identity"))
	}
	if c.Chance(30) {
		req.Header.Set("X-Reqid", "client-"+u+"-0123456789")
	}
	req.Header.Set("X-Forwarded-For", fmt.Sprintf("10.%d.%d.%d", serial>>16&255, serial>>8&255, serial&255))
	if k == "static" && c.Chance(40) {
		req.Header.Set(c.Pick("Range", "If-Modified-Since"), c.Pick("bytes=0-3", "bytes=99999-", time.Now().Add(time.Hour).UTC().Format(http.TimeFormat)))
	}
	return req, k
}

// null takes responses.
type null struct {
	hd     http.Header
	status int
	fail   int // writes until the client is gone
}

func (n *null) Header() http.Header { return n.hd }
func (n *null) WriteHeader(s int)   { n.status = s }
func (n *null) Flush()              {}
func (n *null) Write(b []byte) (int, error) {
	if n.fail > 0 {
		if n.fail--; n.fail == 0 {
			n.fail = 1
			return 0, errors.New("client gone")
		}
	}
	return len(b), nil
}

func heap() (bytes, objects int64) {
	var m runtime.MemStats
	for i := 0; i < 4; i++ {
		runtime.GC()
		debug.FreeOSMemory()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc), int64(m.HeapObjects)
}

func fds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(d)
}

// memory: many different requests, the heap is as before.
func memory(c *h.C) {
	a := build(c)
	c.Note("app%s mode %s", a.parts, a.sp.Config.RunMode)
	one := func(kind string) {
		req, k := a.request(c, "http://example.com", kind)
		r := httptest.NewRequest(req.Method, "http://example.com"+req.URL.RequestURI(), req.Body)
		r.Header = req.Header
		w := &null{hd: http.Header{}}
		if c.Chance(10) {
			w.fail = 1 + c.IntN(3)
		}
		ctx, cancel := context.WithCancel(context.Background())
		if c.Chance(10) {
			cancel()
		}
		func() {
			defer func() {
				// without the recovery filter, or aborted
				if e := recover(); e != nil {
					c.Count("panics to the server", 1)
				}
			}()
			a.sp.ServeHTTP(w, r.WithContext(ctx))
		}()
		cancel()
		c.Count("requests "+k, 1)
		c.Beat()
	}
	clear := func() {
		if a.b != nil {
			a.b.Fresh()
		}
	}
	for i := 0; i < 300; i++ {
		one("")
	}
	g0 := runtime.NumGoroutine()
	n := c.R().N(150, 600)
	// one kind after the other
	list := append([]string{""}, kinds...)
	c.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	for _, kind := range list[:c.R().N(10, len(list))] {
		for i := 0; i < 20; i++ {
			one(kind)
		}
		clear()
		b0, o0 := heap()
		grown := ""
		for round := 1; ; round++ {
			for i := 0; i < n; i++ {
				one(kind)
			}
			clear()
			b1, o1 := heap()
			c.Eval(n)
			c.Count("heaps compared", 1)
			if b1-b0 <= int64(n)*20 || (o1-o0)*5 <= int64(n)*2 {
				break
			}
			grown += fmt.Sprintf(" %d bytes in %d objects", b1-b0, o1-o0)
			if round == 4 {
				c.Fail("memory", "every time %d requests of kind %q (empty: mixed) were served, more memory stayed in use:%s", n, kind, grown)
				break
			}
			b0, o0 = b1, o1
		}
		c.Sig("memory%s %s %s", a.parts, a.sp.Config.RunMode, kind)
	}
	settle(c, "goroutines", g0+4, runtime.NumGoroutine)
	temporary(c)
	if o, cl := opened.Load(), closed.Load(); o != cl {
		// a reader is only closed when results are rendered
		if strings.Contains(a.parts, " out") {
			c.Fail("reader", "%d readers returned by actions, %d closed", o, cl)
		}
		opened.Store(0)
		closed.Store(0)
	}
}

func temporary(c *h.C) {
	if left, _ := filepath.Glob(filepath.Join(os.TempDir(), "*")); len(left) > 0 {
		c.Fatal("temporary", "temporary files left: %q", left)
	}
}

// settle waits until the number of things is not above the limit.
func settle(c *h.C, what string, limit int, f func() int) {
	n := 0
	for i := 0; i < 600; i++ {
		if n = f(); n <= limit {
			return
		}
		if i%20 == 0 {
			c.Beat()
		}
		time.Sleep(10 * time.Millisecond)
	}
	extra := ""
	if what == "goroutines" {
		b := make([]byte, 1<<20)
		extra = string(b[:runtime.Stack(b, true)])
	} else if what == "files" {
		d, _ := os.ReadDir("/proc/self/fd")
		for _, e := range d {
			l, _ := os.Readlink("/proc/self/fd/" + e.Name())
			extra += l + "\n"
		}
	}
	c.Fatal(what, "%d %s, there should be no more than %d\n%s", n, what, limit, extra)
}

// server: files, connections and goroutines behind a real server.
func server(c *h.C) {
	a := build(c)
	c.Note("app%s mode %s", a.parts, a.sp.Config.RunMode)
	if !strings.Contains(a.parts, " out") {
		// nobody would close what actions return
		a.sp.Filter(strip.GenericOutFilter())
		a.parts += " out"
	}
	// lost files are not to be closed by finalizers
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	runtime.GC()
	time.Sleep(time.Millisecond)
	srv := httptest.NewUnstartedServer(a.sp)
	srv.Config.ErrorLog = quiet
	srv.Start()
	tr := &http.Transport{MaxIdleConnsPerHost: 4, DisableCompression: true}
	cl := &http.Client{Transport: tr, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	n := 0
	round := func(kind string, m int) {
		for i := 0; i < m; i++ {
			n++
			c.Beat()
			req, k := a.request(c, srv.URL, kind)
			switch {
			case kind == "" && c.Chance(6): // taken over
				k = "over"
				resp, err := cl.Get(srv.URL + fmt.Sprint("/over/", i))
				if err != nil {
					c.Fatal("over", "%v", err)
				}
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
			case c.Chance(6): // gone at some point
				k = "abort"
				conn, err := net.Dial("tcp", srv.Listener.Addr().String())
				if err != nil {
					c.Inconclusive("dial: %v", err)
				}
				var b bytes.Buffer
				req.Write(&b)
				out := b.Bytes()
				conn.Write(out[:c.IntN(len(out)+1)])
				if c.Chance(30) {
					time.Sleep(time.Duration(c.IntN(400)) * time.Microsecond)
				}
				conn.Close()
			default:
				resp, err := cl.Do(req)
				if err != nil {
					if strings.Contains(err.Error(), "EOF") { // a panic that passed
						c.Count("panics to the server", 1)
						break
					}
					c.Fatal("request", "%s %s: %v", req.Method, req.URL, err)
				}
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
			}
			c.Count("requests "+k, 1)
		}
		tr.CloseIdleConnections()
	}
	round("", c.R().N(60, 300))
	round(kinds[c.IntN(len(kinds))], c.R().N(30, 200))
	round(c.Pick("index", "index", "static", "staticnone", "noindex", "redirect", "under", "file", "fileid"), c.R().N(30, 200))
	tr.CloseIdleConnections()
	srv.Close()
	// the server and its clients are gone, files and goroutines too
	// the clients of the session backend keep idle connections, two ends each
	settle(c, "files", baseFds+4, func() int { return fds() - 2*backend.Open() })
	settle(c, "goroutines", baseGo+4, func() int { return runtime.NumGoroutine() - 2*backend.Open() })
	temporary(c)
	c.Eval(n)
	c.Count("servers", 1)
	c.Sig("server%s %s", a.parts, a.sp.Config.RunMode)
}

var baseFds, baseGo int

// configs: loading configuration keeps no file open.
func configs(c *h.C) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	dir := filepath.Join(c.Dir(), fmt.Sprint("conf", c.Index))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	before := fds()
	for i := 0; i < 60; i++ {
		p := filepath.Join(dir, fmt.Sprint(i, ".ini"))
		text := c.Pick("a = 1\n[s]\nb = 2\n", "[broken\n", "", "x\n", "\xef\xbb\xbfa=1", "= 3\n", "[]\n", "a = \"open\n")
		os.WriteFile(p, []byte(text), 0o644)
		config.LoadIniFile(p)
		config.LoadIniFile(p + ".none")
		config.LoadIniFile(dir)
	}
	if after := fds(); after > before+5 {
		c.Fail("config-files", "loading 60 files raised the open files from %d to %d", before, after)
	}
	c.Count("configuration files", 60)
	c.Sig("config %d", c.Index%8)
}

// workers: nothing runs after Wait.
func workers(c *h.C) {
	before := runtime.NumGoroutine()
	limit := 1 + c.IntN(6)
	fail := c.Chance(40)
	var ran atomic.Int64
	for r := 0; r < 6; r++ {
		w := utils.NewWorker(limit)
		n := c.IntN(40)
		for i := 0; i < n; i++ {
			i := i
			if c.Chance(50) {
				w.RunTask(func() { ran.Add(1) })
			} else {
				w.RunTask(func() error {
					ran.Add(1)
					if fail && i%7 == 3 {
						return errors.New("failed")
					}
					return nil
				})
			}
		}
		w.Wait()
		if c.Chance(50) {
			w.Close()
		}
	}
	settle(c, "goroutines", before, runtime.NumGoroutine)
	c.Count("worker tasks", int(ran.Load()))
	c.Sig("worker %d %v", limit, fail)
}

func main() {
	h.Main(h.Spec{
		ID:          "C40",
		Rule:        "applications of a random set of filters (recovery, request log, compression, results, replaced contexts, hooks, sessions on redis, static files) serve thousands of requests, no two alike (paths, parameters, names, methods, ids, uploads, panics, readers, missing dependencies, taken over connections, clients gone); memory: heap in use before and after; server: open files, goroutines and temporary files after a real server has stopped; configuration files and workers likewise; distinct by filters and mode",
		Assumptions: []string{"the garbage collector and /proc/self/fd tell what is in use", "growth by less than 20 bytes or 0.4 objects per request, or which does not go on for four rounds, is not growth with the number of requests"},
		Min:         map[string]int64{"heaps compared": 4, "servers": 4, "configuration files": 60, "worker tasks": 100},
		MinDistinct: 10,
		Run: func(r *h.R) {
			dir := filepath.Join(r.Dir, "static")
			os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
			os.MkdirAll(filepath.Join(dir, "dir"), 0o755)
			os.WriteFile(filepath.Join(dir, "a.txt"), bytes.Repeat([]byte("text "), 200), 0o644)
			os.WriteFile(filepath.Join(dir, "b.bin"), bytes.Repeat([]byte{0, 1, 2}, 2000), 0o644)
			os.WriteFile(filepath.Join(dir, "sub", "c.html"), []byte("<html>"), 0o644)
			os.WriteFile(filepath.Join(dir, "sub", "index.html"), []byte("<html>index"), 0o644)
			os.WriteFile(filepath.Join(dir, "fallback.txt"), []byte("fallback"), 0o644)
			// others' temporary files do not count
			os.Setenv("TMPDIR", filepath.Join(r.Dir, "tmp"))
			os.MkdirAll(os.TempDir(), 0o755)
			backend = fake.NewBackend("redis")
			// warm up what is made once
			baseFds, baseGo = fds(), runtime.NumGoroutine()
			r.Loop("memory", r.N(8, 120), memory)
			r.Loop("server", r.N(40, 400), server)
			r.Loop("config", r.N(6, 60), configs)
			r.Loop("worker", r.N(40, 2000), workers)
		},
	})
}

// C41: what happens on a live connection passes through all filters.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	gocontext "context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/wujiu2020/strip"
	zip "github.com/wujiu2020/strip/gzip"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	static "github.com/wujiu2020/strip/static-serve"
	"stripverif/h"
)

// patience is far more than anything here takes
const patience = 20 * time.Second

type drop struct{}

func (drop) Print(...interface{}) {}

// script is one exchange; the handler and the client follow it.
type script struct {
	c     *h.C
	id    string
	kind  string // stream upload leave takeover
	proto string // 1.0 1.1 2
	enc   bool   // the client accepts gzip

	status   int
	early    bool // the header is flushed before the body
	chunks   [][]byte
	tail     []byte // written, never flushed
	pieces   int
	result   bool // the action ends with a result to render
	boom     bool // or with a panic
	expect   bool // 100-continue
	refuse   bool // answer without reading
	later    bool // a taken over connection is served after the handler
	preset   bool // header and status set before taking over
	stubborn bool // the handler keeps writing after the client has left

	armed chan struct{}
	step  chan struct{}
	over  chan struct{} // the outermost filter is done
	gone  atomic.Bool

	mu   sync.Mutex
	fire map[string]bool
	errs []string
}

func (s *script) bad(format string, a ...any) {
	s.mu.Lock()
	s.errs = append(s.errs, fmt.Sprintf(format, a...))
	s.mu.Unlock()
}

func (s *script) String() string {
	return fmt.Sprintf("%s http/%s enc=%v status=%d early=%v chunks=%d tail=%d pieces=%d result=%v boom=%v expect=%v refuse=%v later=%v preset=%v stubborn=%v",
		s.kind, s.proto, s.enc, s.status, s.early, len(s.chunks), len(s.tail), s.pieces, s.result, s.boom, s.expect, s.refuse, s.later, s.preset, s.stubborn)
}

// wait for a channel, with patience.
func (s *script) wait(ch chan struct{}, what string) bool {
	select {
	case <-ch:
		return true
	case <-time.After(patience):
		s.bad("%s did not happen in %v", what, patience)
		return false
	}
}

type app struct {
	mu      sync.Mutex
	scripts map[string]*script
	parts   string
}

func (a *app) find(id string) *script { a.mu.Lock(); defer a.mu.Unlock(); return a.scripts[id] }

type Res struct{ body string }

func (r Res) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	io.WriteString(rw, r.body)
}

// handle is the action.
func (a *app) handle(ctx strip.Context, rw http.ResponseWriter, req *http.Request) string {
	i := strings.LastIndex(req.URL.Path, "/")
	s := a.find(req.URL.Path[i+1:])
	if s == nil {
		rw.WriteHeader(404)
		return "unknown"
	}
	switch s.kind {
	case "stream":
		s.stream(rw)
	case "upload":
		s.upload(rw, req)
	case "leave":
		s.leave(ctx, rw, req)
	case "takeover":
		s.takeover(rw)
	}
	if s.boom {
		panic("after " + s.kind)
	}
	if s.result {
		return "RESULT"
	}
	return ""
}

func (s *script) split(rw io.Writer, b []byte) {
	for n := len(b)/s.pieces + 1; len(b) > 0; {
		if n > len(b) {
			n = len(b)
		}
		if m, err := rw.Write(b[:n]); err != nil || m != n {
			s.bad("write of %d bytes: %d %v", n, m, err)
		}
		b = b[n:]
	}
}

func (s *script) stream(rw http.ResponseWriter) {
	if s.status != 0 {
		rw.WriteHeader(s.status)
	}
	rw.Header().Set("X-Id", s.id)
	if s.early {
		rw.(http.Flusher).Flush()
		if !s.wait(s.step, "the header's arrival") {
			return
		}
	}
	for i, b := range s.chunks {
		s.split(rw, b)
		rw.(http.Flusher).Flush()
		if !s.wait(s.step, fmt.Sprint("the arrival of chunk ", i)) {
			return
		}
	}
	s.split(rw, s.tail)
}

func (s *script) upload(rw http.ResponseWriter, req *http.Request) {
	if s.expect && !s.wait(s.step, "the start") {
		return
	}
	if s.refuse {
		rw.WriteHeader(417)
		io.WriteString(rw, "refused")
		return
	}
	for i, b := range s.chunks {
		got := make([]byte, len(b))
		if _, err := io.ReadFull(req.Body, got); err != nil || !bytes.Equal(got, b) {
			s.bad("part %d of the body is not what was sent: %v", i, err)
		}
		select {
		case s.armed <- struct{}{}:
		case <-time.After(patience):
			s.bad("part %d was never waited for", i)
		}
	}
	if rest, err := io.ReadAll(req.Body); err != nil || len(rest) > 0 {
		s.bad("after the body: %d bytes, %v", len(rest), err)
	}
	if s.status != 0 {
		rw.WriteHeader(s.status)
	}
	fmt.Fprintf(rw, "read %d", len(s.chunks))
}

func (s *script) leave(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	if s.early {
		rw.Header().Set("X-Id", s.id)
		s.split(rw, s.tail)
		rw.(http.Flusher).Flush()
	}
	notify := map[string]<-chan struct{}{
		"the strip.Context":             ctx.Done(),
		"the context it returns":        ctx.GetContext().Done(),
		"the context of the request":    req.Context().Done(),
		"a context derived from it":     derived(ctx),
		"a context of the request's":    derived(req.Context()),
		"the close notification":        nil,
		"the close notification, again": nil,
	}
	var wg sync.WaitGroup
	var up sync.WaitGroup
	var once sync.Once
	note := rw.(http.CloseNotifier).CloseNotify()
	told := make(chan struct{})
	for name, ch := range notify {
		wg.Add(1)
		up.Add(1)
		name, ch := name, ch
		go func() {
			defer wg.Done()
			up.Done()
			ok := false
			if ch != nil {
				select {
				case <-ch:
					ok = true
				case <-time.After(patience):
				}
			} else {
				// only one of the readers gets the value
				select {
				case <-note:
					ok = true
					once.Do(func() { close(told) })
				case <-told:
					ok = true
				case <-time.After(patience):
				}
			}
			if ok && !s.gone.Load() {
				s.bad("%s tells the client has gone, it has not", name)
			}
			if !ok {
				s.bad("%s does not tell that the client has gone", name)
			}
			s.mu.Lock()
			s.fire[name] = ok
			s.mu.Unlock()
		}()
	}
	up.Wait()
	close(s.armed)
	wg.Wait()
	if ctx.Err() == nil || req.Context().Err() == nil {
		s.bad("the client has gone, but the errors of the contexts are %v and %v", ctx.Err(), req.Context().Err())
	}
	if s.stubborn {
		for i := 0; i < 20; i++ {
			rw.Write(bytes.Repeat([]byte("late"), 500))
			rw.(http.Flusher).Flush()
		}
	}
}

func derived(ctx gocontext.Context) <-chan struct{} {
	type k struct{}
	d, cancel := gocontext.WithCancel(gocontext.WithValue(ctx, k{}, 1))
	_ = cancel
	return d.Done()
}

func (s *script) takeover(rw http.ResponseWriter) {
	if s.preset {
		rw.Header().Set("X-Preset", "1")
		rw.WriteHeader(202)
	}
	conn, buf, err := rw.(http.Hijacker).Hijack()
	if s.proto == "2" {
		if err == nil {
			s.bad("a stream of HTTP/2 was taken over")
		}
		rw.WriteHeader(501)
		io.WriteString(rw, "not here")
		return
	}
	if err != nil {
		s.bad("hijack: %v", err)
		return
	}
	talk := func() {
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(patience))
		for i, b := range s.chunks {
			got := make([]byte, len(b))
			if _, err := io.ReadFull(buf, got); err != nil || !bytes.Equal(got, b) {
				s.bad("message %d is not what the client has sent: %v", i, err)
				return
			}
			buf.WriteString(fmt.Sprintf("%d:%d;", i, len(b)))
			buf.Flush()
		}
		conn.Write(s.tail)
	}
	if s.later {
		go func() {
			if s.wait(s.over, "the end of the request") {
				talk()
			} else {
				conn.Close()
			}
		}()
	} else {
		talk()
	}
	if n, err := rw.Write([]byte("STRAY")); err == nil && n > 0 {
		s.bad("a write to the response of a taken over connection reports %d bytes, no error", n)
	}
}

func build(c *h.C) (*app, *strip.Strip) {
	a := &app{scripts: map[string]*script{}}
	sp := strip.New()
	sp.Config.RunMode = []strip.Mode{strip.ModeProd, strip.ModeDev}[c.IntN(2)]
	sp.SetLogger(strip.NewLogger(drop{}))
	sp.Provide(params.ParamsParser())
	// the outermost filter
	sp.Filter(func(ctx strip.Context, req *http.Request) {
		s := a.find(req.URL.Path[strings.LastIndex(req.URL.Path, "/")+1:])
		if s != nil {
			defer close(s.over)
		}
		ctx.Next()
	})
	type part struct {
		name string
		pct  int
		f    func() any
	}
	parts := []part{
		{"recovery", 85, func() any { return strip.RecoveryFilter() }},
		{"reqlog", 60, func() any {
			return reqlogger.ReqLoggerFilter(drop{}, reqlogger.LoggerOption{FlatLine: c.Chance(50), LineInfo: c.Chance(50)})
		}},
		{"gzip", 70, func() any { return zip.All() }},
		{"out", 85, func() any { return strip.GenericOutFilter() }},
		{"static", 40, func() any { return static.ServeFilter("/st", c.Dir()) }},
		{"hook", 50, func() any {
			return func(rw http.ResponseWriter) {
				rw.(strip.ResponseWriter).Before(func(w strip.ResponseWriter) { w.Header().Set("X-Hook", "1") })
			}
		}},
		{"ctx", 50, func() any {
			return func(ctx strip.Context) {
				g, cancel := gocontext.WithTimeout(ctx.GetContext(), time.Hour)
				defer cancel()
				ctx.ReplaceContext(g)
				ctx.Next()
			}
		}},
		{"req", 50, func() any {
			return func(ctx strip.Context, req *http.Request) {
				type k struct{}
				ctx.Provide(req.WithContext(gocontext.WithValue(req.Context(), k{}, 2)))
			}
		}},
		{"next", 50, func() any { return func(ctx strip.Context) { ctx.Next() } }},
	}
	c.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	var in []any // of these, some are filters of a router
	for _, p := range parts {
		if !c.Chance(p.pct) {
			continue
		}
		f := p.f()
		if len(in) > 0 || c.Chance(20) {
			in = append(in, f)
			a.parts += " /" + p.name
		} else {
			sp.Filter(f)
			a.parts += " " + p.name
		}
	}
	action := strip.Any(a.handle)
	if c.Chance(30) {
		action = strip.Any(func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) any {
			return Res{a.handle(ctx, rw, req)}
		})
	}
	if len(in) > 0 {
		sp.Routers(strip.Router("/live", strip.Filter(in...), strip.Router("/:id", action)))
	} else {
		sp.Routers(strip.Router("/live/:id", action))
	}
	return a, sp
}

var serial atomic.Int64

func gen(c *h.C) *script {
	s := &script{c: c, id: fmt.Sprint("s", serial.Add(1)), kind: c.Pick("stream", "stream", "upload", "leave", "leave", "takeover", "takeover"),
		proto: c.Pick("1.1", "1.1", "1.1", "2"), enc: c.Chance(50), early: c.Chance(50), pieces: 1 + c.IntN(3),
		armed: make(chan struct{}), step: make(chan struct{}), over: make(chan struct{}), fire: map[string]bool{},
		result: c.Chance(30), boom: c.Chance(10), expect: c.Chance(30), refuse: c.Chance(30), later: c.Chance(50), preset: c.Chance(30), stubborn: c.Chance(30)}
	if c.Chance(40) {
		s.status = []int{200, 201, 202, 404, 500}[c.IntN(5)]
	}
	text := func(max int) []byte {
		b := make([]byte, 1+c.IntN(max))
		if c.Chance(40) { // does not compress
			for i := range b {
				b[i] = byte(c.IntN(256))
			}
		} else {
			copy(b, strings.Repeat(c.Pick("abc", "x", "<p>text</p>\n"), max/3+1))
		}
		return b
	}
	for n := 1 + c.IntN(4); len(s.chunks) < n; {
		s.chunks = append(s.chunks, text([]int{1, 20, 500, 6000, 70000}[c.IntN(5)]))
	}
	if c.Chance(60) {
		s.tail = text(3000)
	}
	switch s.kind {
	case "stream":
		if c.Chance(15) {
			s.proto = "1.0"
		}
		s.boom = false
	case "upload":
		if s.proto == "2" {
			s.expect = false
		}
		s.refuse = s.refuse && s.expect
		s.boom, s.result = false, false
	case "takeover":
		if s.proto == "2" {
			s.boom = false
		}
	}
	return s
}

// decoded gives the body as the client sees it.
func decoded(resp *http.Response) io.Reader {
	if resp.Header.Get("Content-Encoding") != "gzip" {
		return resp.Body
	}
	return &lazy{r: resp.Body}
}

// lazy reads the gzip header when it is needed.
type lazy struct {
	r io.Reader
	z *gzip.Reader
}

func (l *lazy) Read(p []byte) (int, error) {
	if l.z == nil {
		z, err := gzip.NewReader(l.r)
		if err != nil {
			return 0, err
		}
		l.z = z
	}
	return l.z.Read(p)
}

type client struct {
	addr string
	h2   *httptest.Server
}

// request sends the header of a request of HTTP/1.
func (cl *client) request(s *script, method, extra string) (conn net.Conn, br *bufio.Reader, err error) {
	conn, err = net.Dial("tcp", cl.addr)
	if err != nil {
		return
	}
	conn.SetDeadline(time.Now().Add(2 * patience))
	head := fmt.Sprintf("%s /live/%s HTTP/%s\r\nHost: x\r\n", method, s.id, s.proto)
	if s.enc {
		head += "Accept-Encoding: gzip\r\n"
	}
	_, err = io.WriteString(conn, head+extra+"\r\n")
	return conn, bufio.NewReader(conn), err
}

func (cl *client) do2(ctx gocontext.Context, s *script, method string, body io.Reader) (*http.Response, error) {
	req, err := http.NewRequestWithContext(ctx, method, cl.h2.URL+"/live/"+s.id, body)
	if err != nil {
		return nil, err
	}
	if s.enc {
		req.Header.Set("Accept-Encoding", "gzip")
	}
	resp, err := cl.h2.Client().Do(req)
	if err == nil && resp.ProtoMajor != 2 {
		s.c.Inconclusive("no HTTP/2: %s", resp.Proto)
	}
	return resp, err
}

// within runs f, which may not take long.
func (s *script) within(what string, f func() error) bool {
	ch := make(chan error, 1)
	go func() { ch <- f() }()
	select {
	case err := <-ch:
		if err != nil {
			s.bad("%s: %v", what, err)
			return false
		}
		return true
	case <-time.After(patience):
		s.bad("%s: not in %v", what, patience)
		return false
	}
}

func (s *script) release() {
	select {
	case s.step <- struct{}{}:
	case <-time.After(patience):
		s.bad("the handler does not go on")
	}
}

func (cl *client) stream(s *script) {
	var resp *http.Response
	if !s.within("the response's header", func() (err error) {
		if s.proto == "2" {
			resp, err = cl.do2(gocontext.Background(), s, "GET", nil)
			return
		}
		_, br, err := cl.request(s, "GET", "")
		if err == nil {
			resp, err = http.ReadResponse(br, nil)
		}
		return
	}) {
		return
	}
	defer resp.Body.Close()
	want := s.status
	if want == 0 {
		want = 200
	}
	if resp.StatusCode != want {
		s.bad("status %d, want %d", resp.StatusCode, want)
	}
	if resp.Header.Get("X-Id") != s.id {
		s.bad("header of %q", resp.Header.Get("X-Id"))
	}
	if s.early {
		s.release()
	}
	body := decoded(resp)
	for i, b := range s.chunks {
		got := make([]byte, len(b))
		if !s.within(fmt.Sprint("flushed chunk ", i), func() error {
			if n, err := io.ReadFull(body, got); err != nil {
				return fmt.Errorf("%d of %d bytes, %v", n, len(got), err)
			}
			if !bytes.Equal(got, b) {
				return errors.New("other bytes")
			}
			return nil
		}) {
			return
		}
		s.c.Count("flushed chunks", 1)
		s.release()
	}
	s.within("the end of the response", func() error {
		rest, err := io.ReadAll(body)
		if err == nil && !bytes.Equal(rest, s.tail) {
			err = fmt.Errorf("%d bytes %q, want %d", len(rest), h.Short(string(rest)), len(s.tail))
		}
		return err
	})
}

func (cl *client) upload(s *script) {
	finish := func(resp *http.Response) error {
		b, err := io.ReadAll(decoded(resp))
		resp.Body.Close()
		want, text := s.status, fmt.Sprint("read ", len(s.chunks))
		if want == 0 {
			want = 200
		}
		if s.refuse {
			want, text = 417, "refused"
		}
		if err != nil || resp.StatusCode != want || string(b) != text {
			err = fmt.Errorf("response %d %q, %v, want %d %q", resp.StatusCode, b, err, want, text)
		}
		return err
	}
	parts := func(w io.Writer) error {
		for i, b := range s.chunks {
			if _, err := w.Write(b); err != nil {
				return err
			}
			if !s.wait(s.armed, fmt.Sprint("the reading of part ", i)) {
				return errors.New("stopped")
			}
			s.c.Count("uploaded parts", 1)
		}
		return nil
	}
	if s.proto == "2" {
		pr, pw := io.Pipe()
		go func() {
			err := parts(pw)
			pw.CloseWithError(err)
		}()
		s.within("upload", func() error {
			resp, err := cl.do2(gocontext.Background(), s, "POST", pr)
			if err == nil {
				err = finish(resp)
			}
			return err
		})
		return
	}
	extra := "Transfer-Encoding: chunked\r\nContent-Type: application/octet-stream\r\n"
	if s.expect {
		extra += "Expect: 100-continue\r\n"
	}
	conn, br, err := cl.request(s, "POST", extra)
	if err != nil {
		s.bad("request: %v", err)
		return
	}
	defer conn.Close()
	if s.expect {
		conn.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
		if b, err := br.Peek(1); err == nil {
			b, _ = br.Peek(br.Buffered())
			s.bad("the server sends %q before the handler does anything", b)
			return
		}
		conn.SetReadDeadline(time.Now().Add(patience))
		br = bufio.NewReader(conn)
		s.release()
		if !s.refuse {
			line, err := br.ReadString('\n')
			if err != nil || !strings.Contains(line, " 100 ") {
				s.bad("expected to be told to continue, got %q %v", line, err)
				return
			}
			br.ReadString('\n')
		}
	}
	if !s.refuse {
		w := chunked{conn}
		if err := parts(w); err != nil {
			s.bad("sending: %v", err)
			return
		}
		io.WriteString(conn, "0\r\n\r\n")
	}
	s.within("response", func() error {
		resp, err := http.ReadResponse(br, nil)
		if err == nil {
			err = finish(resp)
		}
		return err
	})
}

type chunked struct{ w io.Writer }

func (c chunked) Write(b []byte) (int, error) {
	_, err := c.w.Write([]byte(strconv.FormatInt(int64(len(b)), 16) + "\r\n" + string(b) + "\r\n"))
	return len(b), err
}

func (cl *client) leave(s *script) {
	ctx, cancel := gocontext.WithCancel(gocontext.Background())
	defer cancel()
	closer := cancel
	if s.proto == "2" {
		go func() {
			resp, err := cl.do2(ctx, s, "GET", nil)
			if err == nil {
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
			}
		}()
	} else {
		conn, _, err := cl.request(s, "GET", "")
		if err != nil {
			s.bad("request: %v", err)
			return
		}
		closer = func() { conn.Close() }
	}
	if !s.wait(s.armed, "the handler's start") {
		return
	}
	time.Sleep(time.Duration(s.pieces-1) * time.Millisecond)
	s.gone.Store(true)
	closer()
	s.wait(s.over, "the end of the request")
	s.c.Count("departures", len(s.fire))
}

func (cl *client) takeover(s *script) {
	if s.proto == "2" {
		s.within("response", func() error {
			resp, err := cl.do2(gocontext.Background(), s, "GET", nil)
			if err != nil {
				return err
			}
			b, err := io.ReadAll(decoded(resp))
			resp.Body.Close()
			if err != nil || resp.StatusCode != 501 || string(b) != "not here" {
				err = fmt.Errorf("response %d %q %v", resp.StatusCode, b, err)
			}
			return err
		})
		return
	}
	conn, err := net.Dial("tcp", cl.addr)
	if err != nil {
		s.bad("dial: %v", err)
		return
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(2 * patience))
	head := fmt.Sprintf("GET /live/%s HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: talk\r\n", s.id)
	if s.enc {
		head += "Accept-Encoding: gzip\r\n"
	}
	out := []byte(head + "\r\n")
	if s.early { // the first message comes along with the request
		out = append(out, s.chunks[0]...)
	}
	conn.Write(out)
	if s.later && !s.wait(s.over, "the end of the request") {
		return
	}
	br := bufio.NewReader(conn)
	for i, b := range s.chunks {
		if i > 0 || !s.early {
			conn.Write(b)
		}
		want := fmt.Sprintf("%d:%d;", i, len(b))
		got := make([]byte, len(want))
		if n, err := io.ReadFull(br, got); err != nil || string(got) != want {
			s.bad("message %d was answered with %q, want %q, %v", i, got[:n], want, err)
			return
		}
		s.c.Count("messages", 1)
	}
	rest, err := io.ReadAll(br)
	if err != nil || !bytes.Equal(rest, s.tail) {
		s.bad("the connection ended with %q, want %d bytes, %v", h.Short(string(rest)), len(s.tail), err)
	}
}

func exchange(c *h.C) {
	a, sp := build(c)
	tlsSrv := httptest.NewUnstartedServer(sp)
	tlsSrv.EnableHTTP2 = true
	tlsSrv.Config.ErrorLog = log.New(io.Discard, "", 0)
	tlsSrv.TLS = &tls.Config{}
	tlsSrv.StartTLS()
	srv := httptest.NewUnstartedServer(sp)
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	cl := &client{addr: srv.Listener.Addr().String(), h2: tlsSrv}
	c.Note("filters%s (with /: of the router), mode %s", a.parts, sp.Config.RunMode)
	var list []*script
	for n := 1 + c.IntN(6); len(list) < n; {
		s := gen(c)
		list = append(list, s)
		a.scripts[s.id] = s
	}
	var wg sync.WaitGroup
	for _, s := range list {
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch s.kind {
			case "stream":
				cl.stream(s)
			case "upload":
				cl.upload(s)
			case "leave":
				cl.leave(s)
			case "takeover":
				cl.takeover(s)
			}
			c.Beat()
		}()
	}
	wg.Wait()
	for _, s := range list {
		s.mu.Lock()
		for _, e := range s.errs {
			c.Stop() // others would wait in vain as well
			c.Fail(s.kind, "%s: %s", s, e)
		}
		s.mu.Unlock()
		c.Count("exchanges "+s.kind, 1)
		c.Sig("%s http/%s %v %v %v %v %v %v%s", s.kind, s.proto, s.enc, s.early, s.result, s.boom, s.later, s.expect, a.parts)
	}
	c.Eval(len(list))
	srv.CloseClientConnections()
	tlsSrv.CloseClientConnections()
	srv.Close()
	tlsSrv.Close()
}

func main() {
	h.Main(h.Spec{
		ID:          "C41",
		Rule:        "exchanges over real connections (HTTP/1.0, 1.1 and 2) behind random orders of global and router filters, several at a time: streams (each flushed chunk has to arrive, decoded, before the handler may go on), uploads (each part is sent only when the one before was read; 100-continue), departures (every context and close notification fires after the client has left, none before), taken over connections (both directions, during and after the handler, with results, panics and writes after it); distinct by kind, protocol, options and filters",
		Assumptions: []string{"what should happen at once happens within 20 s", "net/http notices closed connections"},
		Min:         map[string]int64{"flushed chunks": 200, "uploaded parts": 100, "departures": 200, "messages": 100},
		MinDistinct: 200,
		Run: func(r *h.R) {
			r.Loop("exchange", r.N(400, 8000), exchange)
		},
	})
}

package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand/v2"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/wujiu2020/strip"
	zip "github.com/wujiu2020/strip/gzip"
	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/apires"
	"stripverif/h"
)

// Token is provided per request.
type Token struct{ V string }

// Sub depends on Token and is provided by a function.
type Sub struct{ V string }

// Shared is provided once for the whole application.
type Shared struct{ N int64 }

var inflight, maxInflight atomic.Int64

var yielding atomic.Bool

func yield(n int) {
	if !yielding.Load() {
		return
	}
	switch n % 4 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(n%7) * 10 * time.Microsecond)
	}
}

// Ctl is a struct controller with injected fields.
type Ctl struct {
	Ctx    strip.Context       `inject`
	Rw     http.ResponseWriter `inject`
	Req    *http.Request       `inject`
	Tok    *Token              `inject`
	Sub    Sub                 `inject`
	Log    strip.Logger        `inject`
	RLog   strip.ReqLogger     `inject`
	Params *params.Params      `inject`
	Cfg    *strip.Config       `inject`
	Base   string
	Seen   []string
}

func (s *Ctl) report(args ...any) string {
	s.Seen = append(s.Seen, s.Tok.V)
	s.Base += "!" // never seen by another request
	var b strings.Builder
	fmt.Fprintf(&b, "base=%s tok=%s sub=%s hdr=%s reqid=%v seen=%d args=%v ", s.Base, s.Tok.V, s.Sub.V, s.Req.Header.Get("X-Tok"), s.RLog.ReqId() == s.Req.Header.Get("X-Reqid"), len(s.Seen), args)
	yield(len(s.Tok.V) + len(args))
	var a struct{ A, B string }
	s.Params.BindValuesToStruct(&a)
	var list []string
	s.Params.Bind(&list, "l")
	m := map[string]string{}
	s.Params.Bind(&m, "m")
	fmt.Fprintf(&b, "a=%q b=%q l=%q m=%v v=%s path=%s", a.A, a.B, list, m, dump(s.Params.Values), s.Params.Route.Path)
	var app strip.Context
	var same bool
	if err := utils.CtxFindValue(s.Ctx, &app); err == nil {
		var t *Token
		same = app.Find(&t, "") == nil && t.V == s.Tok.V
	}
	fmt.Fprintf(&b, " app=%v", same)
	s.Log.Info("LOG", s.Tok.V)
	return b.String()
}

func dump(v url.Values) string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s=%q;", k, v[k])
	}
	return s
}

func (s *Ctl) Get(id string, n int) string  { return s.report(id, n) }
func (s *Ctl) Post(id string) (string, int) { return s.report(id), 201 }
func (s *Ctl) Put(id string, n uint8) *apires.ResBody {
	return apires.With(map[string]string{"r": s.report(id, n)})
}
func (s *Ctl) Delete() *apires.ResError {
	return errShared.WithData(s.report(), "gone "+s.Tok.V)
}
func (s *Ctl) Patch() io.Reader { return strings.NewReader(s.report()) }

var errShared = apires.NewResError(410, 77, "base message")

// value controller
type ValCtl struct {
	Ctl
	Arr [4]int
}

func (v ValCtl) Head() {
	v.Rw.Header().Set("X-Rep", fmt.Sprint(len(v.report())))
	v.Rw.WriteHeader(204)
}
func (v ValCtl) Foo(rest string) []byte {
	v.Arr[0]++
	return []byte(fmt.Sprint(v.Arr, v.report(rest)))
}

func build(sink strip.LogPrinter, variant int) *strip.Strip {
	sp := strip.New()
	sp.SetLogger(strip.NewLogger(sink))
	sp.Provide(params.ParamsParser())
	sp.Provide(func(req *http.Request) *Token { yield(1); return &Token{req.Header.Get("X-Tok")} })
	sp.Provide(func(t *Token) Sub { yield(2); return Sub{"sub-" + t.V} })
	sp.Provide(func(t Token, s Sub) fmt.Stringer { return bytes.NewBufferString(t.V + "/" + s.V) })
	sp.Provide(&Shared{})
	filters := []any{
		strip.RecoveryFilter(),
		reqlogger.ReqLoggerFilter(sink, reqlogger.LoggerOption{FlatLine: true, LineInfo: variant&1 == 1}),
		zip.All(),
		strip.GenericOutFilter(),
		func(ctx strip.Context, req *http.Request, rw http.ResponseWriter) {
			n := inflight.Add(1)
			defer inflight.Add(-1)
			for o := maxInflight.Load(); n > o && !maxInflight.CompareAndSwap(o, n); o = maxInflight.Load() {
			}
			rw.Header().Set("X-Pre", req.Header.Get("X-Tok"))
			ctx.ProvideAs(&named{req.Header.Get("X-Tok")}, (*Iface)(nil), "tok")
			yield(len(req.URL.Path))
			ctx.Next()
		},
	}
	if variant&2 == 2 { // compression outermost
		filters[1], filters[2] = filters[2], filters[1]
	}
	sp.Filter(filters...)
	auth := func(req *http.Request, rw http.ResponseWriter, i Sub) {
		yield(3)
		if strings.HasSuffix(req.Header.Get("X-Tok"), "7") {
			rw.WriteHeader(403)
			io.WriteString(rw, "denied "+i.V)
		}
	}
	mod := &Ctl{Base: "b"}
	var nilCtl *Ctl
	sp.Routers(
		strip.Router("/s/:id/:n", strip.Get(mod), strip.Put(mod).Action("Put")),
		strip.Router("/s/:id", strip.Get(nilCtl), strip.Post(Ctl{Base: "v"}), strip.All(mod)),
		strip.Router("/s/:id/:n/deep", strip.Delete(mod), strip.Patch(mod)),
		strip.Router("/v", strip.Filter(auth), strip.Head(ValCtl{}), strip.Get(&ValCtl{Ctl: Ctl{Base: "x"}}).Action("Foo"),
			strip.Router("/*:rest", strip.Get(ValCtl{}).Action("Foo"), strip.Any(func(rw http.ResponseWriter, req *http.Request, info *strip.RouteInfo, s fmt.Stringer) (string, int) {
				yield(len(info.Values.Get("rest")))
				return s.(*bytes.Buffer).String() + " rest=" + info.Values.Get("rest") + " " + req.Header.Get("X-Tok"), 202
			}))),
		strip.Router("/f/:a:go", strip.Any(func(req *http.Request, info *strip.RouteInfo, p *params.Params, t Token, cx strip.Context) apires.RawBody {
			var i Iface
			err := cx.Find(&i, "tok")
			yield(5)
			return *apires.RawWith(fmt.Sprintf("a=%s t=%s v=%s i=%v %v", info.Get("a"), t.V, dump(p.Values), i.Name(), err))
		})),
		strip.Router("/raw", strip.Any(func(t Token) *apires.RawBody { return apires.RawWith("raw "+t.V, 203) })),
		strip.Router("/panic", strip.Any(func(t Token) { panic("boom " + t.V) })),
		strip.Router("/multi", strip.Any(func(p *params.Params, t Token) (string, int) {
			s := t.V
			var names []string
			for k := range p.Files {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				for _, fh := range p.Files[k] {
					f, err := fh.Open()
					if err != nil {
						return err.Error(), 500
					}
					b, _ := io.ReadAll(f)
					f.Close()
					s += fmt.Sprintf(" %s:%s:%s", k, fh.Filename, b)
				}
			}
			return s + dump(p.Form), 200
		})),
	)
	sp.NotFound(func(rw http.ResponseWriter, t Token) {
		rw.WriteHeader(404)
		io.WriteString(rw, "nothing for "+t.V)
	})
	return sp
}

type Iface interface{ Name() string }
type named struct{ s string }

func (n *named) Name() string { return n.s }

var _ inject.Provider = nil

// rq describes a request; make builds it anew each time.
type rq struct {
	method, path, query, ctype, body, tok, ae, reqid string
}

func (q rq) make() *http.Request {
	u := "http://ex.com" + q.path
	if q.query != "" {
		u += "?" + q.query
	}
	r := httptest.NewRequest(q.method, u, strings.NewReader(q.body))
	r.Header.Set("X-Tok", q.tok)
	if q.ctype != "" {
		r.Header.Set("Content-Type", q.ctype)
	}
	if q.ae != "" {
		r.Header.Set("Accept-Encoding", q.ae)
	}
	if q.reqid != "" {
		r.Header.Set("X-Reqid", q.reqid)
	}
	return r
}

var tokN atomic.Int64

func genReq(r *rand.Rand) rq {
	q := rq{tok: fmt.Sprintf("T%d-%d", tokN.Add(1), r.IntN(10))}
	w := func() string { return fmt.Sprintf("%s%d", q.tok, r.IntN(100)) }
	switch r.IntN(9) {
	case 0, 1:
		q.method, q.path = "GET", fmt.Sprintf("/s/%s/%d", w(), r.IntN(100000))
		if r.IntN(3) == 0 {
			q.method = "PUT"
		}
	case 2:
		q.method, q.path = []string{"GET", "POST", "DELETE", "PATCH"}[r.IntN(4)], "/s/"+w()
	case 3:
		q.method, q.path = []string{"DELETE", "PATCH"}[r.IntN(2)], "/s/"+w()+"/5/deep"
	case 4:
		q.method, q.path = []string{"GET", "HEAD"}[r.IntN(2)], "/v"
	case 5:
		q.method, q.path = []string{"GET", "PUT"}[r.IntN(2)], "/v/"+w()+"/"+w()
	case 6:
		q.method, q.path = "POST", "/f/"+w()+":go"
	case 7:
		q.method, q.path = "POST", []string{"/raw", "/panic", "/none/" + q.tok}[r.IntN(3)]
	case 8:
		q.method, q.path = "POST", "/multi"
	}
	if r.IntN(2) == 0 {
		q.query = fmt.Sprintf("A=%s&l[]=%s&l[]=%s&m[k]=%s", w(), w(), w(), w())
	}
	if q.path == "/multi" || q.method == "POST" && r.IntN(4) == 0 {
		var b bytes.Buffer
		mw := multipart.NewWriter(&b)
		mw.SetBoundary("bnd" + q.tok)
		mw.WriteField("B", w())
		mw.WriteField("l[1]", w())
		f, _ := mw.CreateFormFile("up", q.tok+".txt")
		io.WriteString(f, "content of "+q.tok)
		mw.Close()
		q.ctype, q.body = mw.FormDataContentType(), b.String()
	} else if q.method != "GET" && q.method != "HEAD" && r.IntN(2) == 0 {
		q.ctype, q.body = "application/x-www-form-urlencoded", fmt.Sprintf("B=%s&l[2]=%s&m[z]=%s", w(), w(), w())
	}
	if r.IntN(8) == 0 { // compressors are slow under the race detector
		q.ae = "gzip"
	}
	if r.IntN(3) == 0 {
		q.reqid = fmt.Sprintf("client-%s-%06d", q.tok, r.IntN(1000000))
	}
	return q
}

// canon is what the client sees, generated ids and times dropped.
func canon(q rq, code int, hd http.Header, body []byte) string {
	hd = hd.Clone()
	if q.reqid == "" {
		hd.Set("X-Reqid", fmt.Sprint(len(hd.Values("X-Reqid"))))
	}
	hd.Del("X-Response-Time")
	hd.Del("Date")
	hd.Del("Connection")
	if hd.Get("Content-Encoding") == "gzip" && len(body) > 0 {
		zr, err := gzip.NewReader(bytes.NewReader(body))
		if err == nil {
			var d []byte
			d, err = io.ReadAll(zr)
			if err == nil {
				body = d
			}
		}
	}
	var hs []string
	for k, v := range hd {
		hs = append(hs, fmt.Sprintf("%s: %q", k, v))
	}
	sort.Strings(hs)
	return fmt.Sprintf("%d\n%s\n\n%s", code, strings.Join(hs, "\n"), body)
}

// tokenLog checks that a log record carries one request's id only.
type tokenLog struct {
	mu   sync.Mutex
	recs []string
}

func (l *tokenLog) Print(v ...interface{}) {
	s := fmt.Sprint(v...)
	l.mu.Lock()
	l.recs = append(l.recs, s)
	l.mu.Unlock()
}

func run(c *h.C) {
	variant := c.IntN(4)
	n := 2 + c.IntN(23)
	per := 1 + c.IntN(4)
	work := make([][]rq, n)
	total := 0
	for i := range work {
		for j := 0; j < per; j++ {
			work[i] = append(work[i], genReq(c.Rand))
			total++
		}
	}
	wire := c.Chance(15)
	want := map[rq]string{}
	rlog := &tokenLog{}
	ref := build(rlog, variant)
	for _, w := range work {
		for _, q := range w {
			rec := h.Serve(ref, q.make())
			want[q] = canon(q, rec.Code, rec.Result().Header, body(wire, q, rec))
			if rec.Code == 500 && q.path != "/panic" {
				c.Fatal("alone-500", "%s %s alone: %s\n%s", q.method, q.path, want[q], strings.Join(h.Panics(rlog.recs), "\n"))
			}
			if q.path != "/panic" && q.method != "HEAD" && rec.Code != 204 && rec.Body.Len() > 0 && !strings.Contains(want[q], q.tok) {
				c.Fatal("own-token", "%s %s alone does not answer with its token: %s", q.method, q.path, want[q])
			}
		}
	}
	log := &tokenLog{}
	sp := build(log, variant)
	var srv *httptest.Server
	if wire {
		srv = httptest.NewServer(sp)
		defer srv.Close()
	}
	var cl *http.Client
	if wire {
		cl = &http.Client{Transport: &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 32}}
		defer cl.CloseIdleConnections()
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	var mu sync.Mutex
	ids := map[string]string{}
	for i := range work {
		wg.Add(1)
		go func(w []rq) {
			defer wg.Done()
			<-start
			for _, q := range w {
				var got string
				var hd http.Header
				if wire {
					r := q.make()
					r.RequestURI = ""
					r.URL.Host = strings.TrimPrefix(srv.URL, "http://")
					resp, err := cl.Do(r)
					if err != nil {
						c.Fail("wire-error", "%v", err)
						return
					}
					b, _ := io.ReadAll(resp.Body)
					resp.Body.Close()
					hd = resp.Header.Clone()
					hd.Del("Content-Length")
					got = canon(q, resp.StatusCode, hd, b)
				} else {
					rec := httptest.NewRecorder()
					sp.ServeHTTP(rec, q.make())
					hd = rec.Result().Header
					got = canon(q, rec.Code, hd, rec.Body.Bytes())
				}
				mu.Lock()
				id := hd.Get("X-Reqid")
				if o, ok := ids[id]; ok && q.reqid == "" {
					c.Fail("shared-id", "requests %s and %s got the same id %s", o, q.tok, id)
				}
				ids[id] = q.tok
				mu.Unlock()
				if wire {
					got = strip1(got)
				}
				w := want[q]
				if wire {
					w = strip1(w)
				}
				if got != w {
					c.Fail("differs", "%s %s?%s (token %s, %s, accept %q) served among %d concurrent requests answered\n%s\nalone it answers\n%s", q.method, q.path, q.query, q.tok, q.ctype, q.ae, total, got, w)
				}
			}
		}(work[i])
	}
	yielding.Store(true)
	defer yielding.Store(false)
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	<-done
	for _, s := range log.recs {
		c.Count("log_lines", 1)
		i := strings.Index(s, "LOG T")
		if i < 0 {
			continue
		}
		tok := strings.Fields(strings.ReplaceAll(s[i+4:], "\\n", " "))[0]
		a := strings.Index(s, "][")
		b := strings.Index(s[a+2:], "]")
		if a < 0 || b < 0 || ids[s[a+2:a+2+b]] != tok {
			c.Fatal("log-id", "line %q carries an id of another request: want that of %s", s, tok)
		}
		c.Count("identified_lines", 1)
	}
	c.Count("concurrent_requests", total)
	c.Sig("variant %d wire %v goroutines %d each %d first %s %s", variant, wire, n, per, work[0][0].method, work[0][0].path)
}

// strip1 drops what net/http adds or removes on the wire.
func strip1(s string) string {
	var out []string
	for i, l := range strings.Split(s, "\n") {
		if i > 0 && (strings.HasPrefix(l, "Content-Length: ") || strings.HasPrefix(l, "Content-Type: [\"text/plain")) {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func main() {
	h.Main(h.Spec{
		ID:          "C09",
		Rule:        "each case builds a new application (4 filter orders) holding recovery, request logger, compression, result rendering, parameter parsing, providers, struct (value, pointer, nil pointer) and function actions, API results; 2-24 goroutines released together send 1-4 random requests each (in process, or over loopback), and every response is compared with that of the same request served alone by another instance, log lines are matched to request ids, and the race detector watches",
		Assumptions: []string{"sequential serving on another instance is the reference", "schedules are those the Go scheduler and the yields inserted in handlers produce"},
		Min:         map[string]int64{"concurrent_requests": 5000, "identified_lines": 1000},
		MinDistinct: 100,
		Run: func(r *h.R) {
			r.Loop("mix", r.N(220, 8000), run)
			r.Loop("meta", 1, func(c *h.C) {
				c.Count("max_in_flight", int(maxInflight.Load()))
				if maxInflight.Load() < 4 {
					c.Inconclusive("at most %d requests were in flight", maxInflight.Load())
				}
			})
		},
	})
}

// body is what a client of that kind gets to see.
func body(wire bool, q rq, rec *httptest.ResponseRecorder) []byte {
	if wire && q.method == "HEAD" {
		return nil
	}
	return rec.Body.Bytes()
}

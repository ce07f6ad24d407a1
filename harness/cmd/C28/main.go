package main

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/gzip"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/helpers"
	"stripverif/classic"
	"stripverif/h"
)

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// seen maps every id ever given to the request it was given to.
var seen sync.Map

// fresh makes ids from many goroutines; no two may be equal.
func fresh(c *h.C) {
	workers, per := 2+c.IntN(12), 2000
	out := make([][]string, workers)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for w := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for i := 0; i < per; i++ {
				out[w] = append(out[w], reqlogger.NewReqId())
			}
		}()
	}
	from := time.Now()
	close(gate)
	wg.Wait()
	all := map[string]bool{}
	for w, ids := range out {
		for i, id := range ids {
			if all[id] {
				c.Fatal("duplicate", "id %q given twice (again goroutine %d call %d)", id, w, i)
			}
			all[id] = true
			if n := len(id); n < 10 || n > 32 {
				c.Fatal("id-length", "id %q", id)
			}
			if _, nano := reqlogger.DecodeReqId(id); nano < from.Add(-time.Minute).UnixNano() || nano > time.Now().Add(time.Minute).UnixNano() {
				c.Fatal("id-time", "id %q decodes to the time %d, it is %d", id, nano, time.Now().UnixNano())
			}
			if _, dup := seen.LoadOrStore(id, "fresh"); dup {
				c.Fatal("duplicate", "id %q given in an earlier case, too", id)
			}
		}
	}
	c.Count("fresh_ids", len(all))
	c.Eval(len(all))
	c.Sig("fresh %d %d", workers, c.Index)
}

// plan is one request and what its handler does.
type plan struct {
	token   string
	sent    string // id sent by the client
	has     bool
	status  int // 0: none set
	size    int
	chunks  int
	setHdr  bool // the handler sets its own id header
	lines   int
	panics  bool
	flush   bool
	path    string
	method  string
	gz      bool
	hookSet bool // a hook changes the status
	gap     int

	// observed by the handler
	inReq   string
	inLog   string
	headers [2]string
}

type setup struct {
	opt       reqlogger.LoggerOption
	begEmpty  bool
	endEmpty  bool
	begMark   bool
	endMark   bool
	idFilter  bool
	prefix    string
	recInside bool
	recOut    bool
	gzip      bool
	noise     bool
}

func reqPlan(c *h.C, s setup, i int) *plan {
	p := &plan{token: fmt.Sprintf("tok-%d-%d", c.Index, i), method: c.Pick("GET", "GET", "POST", "PUT", "DELETE"), path: c.Pick("/x", "/x", "/p/one", "/none")}
	switch c.IntN(5) {
	case 0, 1:
	case 2:
		p.has, p.sent = true, idText(c, c.IntN(45))
	case 3:
		p.has, p.sent = true, idText(c, []int{9, 10, 11, 31, 32, 33}[c.IntN(6)])
	case 4:
		p.has, p.sent = true, idText(c, 10+c.IntN(23))
	}
	p.status = []int{0, 0, 200, 201, 302, 400, 404, 418, 500, 503, 204, 304, 206, 301}[c.IntN(14)]
	p.size = []int{0, 0, 1, 3, 511, 1024, 1500, 5000, 70000}[c.IntN(9)]
	if p.status == 204 || p.status == 304 {
		p.size = 0
	}
	p.chunks = 1 + c.IntN(4)
	p.setHdr = c.Chance(25)
	p.lines = c.IntN(5)
	p.panics = (s.recInside || s.recOut) && c.Chance(12)
	p.flush = c.Chance(15)
	p.gz = s.gzip && c.Chance(60)
	p.hookSet = p.size > 0 && !p.panics && p.status != 204 && p.status != 304 && c.Chance(10)
	p.gap = c.IntN(4)
	return p
}

func idText(c *h.C, n int) string {
	const ab = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_=[]%:/. +"
	b := make([]byte, n)
	for i := range b {
		b[i] = ab[c.IntN(len(ab))]
	}
	if n > 0 {
		b[0], b[n-1] = 'a', 'z' // header values lose outer blanks
	}
	return string(b)
}

func want(p *plan, s setup, out string) bool {
	id := out
	if s.idFilter {
		if !strings.HasPrefix(id, "F-") {
			return false
		}
		id = id[2:]
	}
	if n := len(p.sent); n >= 10 && n <= 32 {
		return id == p.sent
	}
	return len(id) > 0 && id != p.sent
}

type planKey struct{}

func app(c *h.C, s setup, plans *sync.Map, sink strip.LogPrinter) *strip.Strip {
	sp, _ := h.NewApp()
	sp.Config.RunMode = strip.ModeProd
	get := func(req *http.Request) *plan {
		v, ok := plans.Load(req.Header.Get("X-Token"))
		if !ok {
			panic("no plan")
		}
		return v.(*plan)
	}
	if s.recOut {
		sp.Filter(strip.RecoveryFilter())
	}
	opt := s.opt
	if s.idFilter {
		opt.ReqidFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, content string) string {
			return "F-" + content
		}
	}
	if s.prefix != "" {
		opt.PrefixFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, content string) string {
			return s.prefix + content
		}
	}
	if s.begEmpty || s.begMark {
		opt.ReqBegFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, content string) string {
			if s.begEmpty {
				return ""
			}
			return content + " begmark"
		}
	}
	if s.endEmpty || s.endMark {
		opt.ReqEndFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, content string) string {
			if s.endEmpty {
				return ""
			}
			return content + " endmark"
		}
	}
	sp.Filter(reqlogger.ReqLoggerFilter(sink, opt))
	if s.recInside {
		sp.Filter(strip.RecoveryFilter())
	}
	if s.gzip {
		sp.Filter(gzip.All())
	}
	sp.Filter(func(ctx strip.Context, log strip.Logger, req *http.Request) {
		p := get(req)
		p.headers[0] = req.Header.Get(reqlogger.HeaderReqid)
		log.Infof("line %s filter", p.token)
		if s.noise {
			runtime.Gosched()
		}
		ctx.Next()
		log.Infof("line %s after", p.token)
	})
	act := func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, log strip.Logger, rlog strip.ReqLogger) {
		p := get(req)
		p.inReq, p.inLog = req.Header.Get(reqlogger.HeaderReqid), rlog.ReqId()
		p.headers[1] = rw.Header().Get(reqlogger.HeaderReqid)
		if p.setHdr {
			rw.Header().Set(reqlogger.HeaderReqid, "forged-by-handler")
			rw.Header()["x-reqid"] = []string{"forged"}
			delete(rw.Header(), "x-reqid")
			rw.Header().Add(reqlogger.HeaderReqid, "forged-twice")
		}
		for i := 0; i < p.lines; i++ {
			switch i % 5 {
			case 0:
				log.Warnf("line %s warn", p.token)
			case 1:
				rlog.Info("line", p.token, "info")
			case 2:
				var l strip.Logger
				if err := utils.CtxFindValue(req.Context(), &l); err != nil {
					panic(err)
				}
				l.Infof("line %s reqctx", p.token)
			case 3:
				helpers.GetLogger(ctx.GetContext()).Infof("line %s appctx", p.token)
			case 4:
				helpers.GetLogger(req.Context()).Noticef("line %s\nmulti %s", p.token, p.token)
			}
			if s.noise {
				runtime.Gosched()
			}
		}
		for i := 0; i < p.gap; i++ {
			runtime.Gosched()
		}
		if p.panics {
			panic("boom " + p.token)
		}
		if p.hookSet {
			rw.(strip.ResponseWriter).Before(func(rw strip.ResponseWriter) { rw.WriteHeader(299) })
		}
		if p.status != 0 {
			rw.WriteHeader(p.status)
		}
		body := strings.Repeat("z", p.size)
		for i := 0; i < p.chunks && body != ""; i++ {
			n := len(body)
			if i < p.chunks-1 {
				n = (n + 1) / 2
			}
			rw.Write([]byte(body[:n]))
			body = body[n:]
			if p.flush {
				rw.(http.Flusher).Flush()
			}
		}
	}
	type ctl = struct{}
	sp.Routers(strip.Router("/x", strip.All(act)), strip.Router("/p/:a", strip.All(&control{}).Filter(act)))
	sp.NotFound(act)
	return sp
}

type control struct {
	Log strip.Logger  `inject`
	Req *http.Request `inject`
}

func (k *control) Get()    { k.do() }
func (k *control) Post()   { k.do() }
func (k *control) Put()    { k.do() }
func (k *control) Delete() { k.do() }
func (k *control) do()     { k.Log.Infof("line %s struct", k.Req.Header.Get("X-Token")) }

func newSetup(c *h.C) setup {
	s := setup{
		begEmpty: c.Chance(8), endEmpty: c.Chance(8), begMark: c.Chance(15), endMark: c.Chance(15),
		idFilter: c.Chance(15), prefix: c.Pick("", "", "[pre]", "[a b]"), recInside: c.Chance(50), recOut: c.Chance(50), gzip: c.Chance(20), noise: c.Chance(50),
	}
	if s.recOut {
		s.recInside = false // equal filters run once
	}
	s.opt.ColorMode, s.opt.LineInfo, s.opt.ShortLine, s.opt.FlatLine = c.Chance(30), c.Chance(50), c.Chance(50), c.Chance(50)
	if c.Chance(10) {
		s.opt.LogStackLevel = strip.LevelError
	}
	return s
}

var sizeRe = regexp.MustCompile(`\[REQ_END\] (\d+) ([0-9.]+)k ([0-9.]+)ms`)

// check compares the records of one request with what was sent and received.
func check(c *h.C, s setup, p *plan, recs []string, code int, hdr http.Header, rawLen int, known bool, host string) {
	ids := hdr[reqlogger.HeaderReqid]
	if len(ids) != 1 {
		c.Fatal("response-id", "%d id headers in the response: %q", len(ids), ids)
	}
	id := ids[0]
	if !want(p, s, id) {
		c.Fatal("wrong-id", "the client sent %q (%d bytes, present %v) and the response has %q", p.sent, len(p.sent), p.has, id)
	}
	if hdr.Get(reqlogger.HeaderResponseTime) == "" {
		c.Fatal("response-time", "no response time")
	}
	if n := len(p.sent); n < 10 || n > 32 {
		if was, dup := seen.LoadOrStore(strings.TrimPrefix(id, "F-"), p.token); dup {
			c.Fatal("duplicate", "the id %q of %s was given to %v before", id, p.token, was)
		}
		c.Count("generated", 1)
	} else {
		c.Count("client_ids", 1)
	}
	if p.headers[0] != id || p.inReq != id || p.inLog != id || p.headers[1] != id {
		c.Fatal("handler-id", "response id %q; request header in filter %q, in action %q, logger %q, response header in action %q", id, p.headers[0], p.inReq, p.inLog, p.headers[1])
	}
	if !known {
		c.Fatal("unlogged", "no record for %q", p.token)
	}
	var beg, end, lines int
	last := ""
	for i, r := range recs {
		r = ansi.ReplaceAllString(r, "")
		j := strings.Index(r, "]")
		if j < 0 || !strings.HasPrefix(r[j+1:], "["+id+"]"+s.prefix) {
			c.Fatal("line-id", "a line of request %q is logged as %q", id, h.Short(r))
		}
		if s.opt.FlatLine && strings.Contains(r, "\n") {
			c.Fatal("multiline", "a record in flat mode has several lines: %q", r)
		}
		last = r
		switch {
		case strings.Contains(r, "[REQ_BEG]"):
			beg++
			if i != 0 {
				c.Fatal("order", "begin line is record %d", i)
			}
			if !strings.Contains(r, "[REQ_BEG] "+p.method+" "+host+p.path) {
				c.Fatal("begin", "begin line %q of %s %s", r, p.method, p.path)
			}
			if s.begMark && !strings.Contains(r, " begmark") {
				c.Fatal("begin-filter", "%q", r)
			}
		case strings.Contains(r, "[REQ_END]"):
			end++
			m := sizeRe.FindStringSubmatch(r)
			if m == nil {
				c.Fatal("end-format", "%q", r)
			}
			if m[1] != fmt.Sprint(code) {
				c.Fatal("end-status", "logged status %s, sent %d", m[1], code)
			}
			if rawLen >= 0 && m[2] != fmt.Sprintf("%0.3f", float64(rawLen)/1024) {
				c.Fatal("end-size", "logged size %sk, sent %d bytes", m[2], rawLen)
			}
			if s.endMark && !strings.Contains(r, " endmark") {
				c.Fatal("end-filter", "%q", r)
			}
		default:
			lines++
			if !strings.Contains(r, p.token) {
				c.Fatal("foreign", "record %q under the id %q of %s", h.Short(r), id, p.token)
			}
		}
	}
	completed := !p.panics || s.recInside
	wantBeg, wantEnd := 1, 1
	if s.begEmpty {
		wantBeg = 0
	}
	if s.endEmpty || !completed {
		wantEnd = 0
	}
	if beg != wantBeg || end != wantEnd {
		c.Fatal("count", "%d begin and %d end lines, want %d and %d", beg, end, wantBeg, wantEnd)
	}
	if wantEnd == 1 && !strings.Contains(last, "[REQ_END]") {
		c.Fatal("order", "last record is %q", h.Short(last))
	}
	n := p.lines + 1
	if completed && !(p.panics && s.recInside) {
		n++ // after
	}
	if p.panics {
		n++ // logged by the recovery
	}
	if p.path == "/p/one" && !p.panics && p.status == 0 && p.size == 0 {
		n++
	}
	if lines != n {
		c.Fatal("lost-lines", "%d of %d lines logged by the handlers are there", lines, n)
	}
	c.Count("records", len(recs))
	c.Count(fmt.Sprintf("status_%d", code), 1)
}

func describe(p *plan) string { return fmt.Sprintf("%+v", *p) }

// split sorts the records by request, using the tokens and ids.
func split(recs []string, id string) (out []string) {
	for _, r := range recs {
		if strings.Contains(r, "["+id+"]") {
			out = append(out, r)
		}
	}
	return
}

// recorded drives one application with concurrent requests.
func recorded(c *h.C) {
	s := newSetup(c)
	sink := &h.LogSink{}
	plans := &sync.Map{}
	sp := app(c, s, plans, sink)
	n := 1
	if c.Chance(60) {
		n = 2 + c.IntN(12)
	}
	ps := make([]*plan, n)
	for i := range ps {
		ps[i] = reqPlan(c, s, i)
		if i > 0 && ps[i].has && len(ps[i].sent) >= 10 {
			ps[i].sent += "" // ids of clients may be anything but are unique here
		}
		plans.Store(ps[i].token, ps[i])
	}
	uniq := map[string]bool{}
	for _, p := range ps {
		if len(p.sent) >= 10 && uniq[p.sent] {
			c.Skip()
		}
		uniq[p.sent] = true
	}
	c.Note("setup %+v", s)
	c.Sig("%+v %s", s, describe(ps[0]))
	recs := make([]*httptest.ResponseRecorder, n)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	var escaped atomic.Int32
	for i, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					escaped.Add(1)
				}
			}()
			<-gate
			req := h.Req(p.method, p.path)
			req.Header.Set("X-Token", p.token)
			if p.has {
				req.Header.Set(reqlogger.HeaderReqid, p.sent)
			}
			if p.gz {
				req.Header.Set("Accept-Encoding", "gzip")
			}
			recs[i] = h.Serve(sp, req)
		}()
	}
	close(gate)
	wg.Wait()
	if escaped.Load() > 0 {
		c.Fatal("escaped", "a panic escaped")
	}
	all := sink.All()
	sum := 0
	for i, p := range ps {
		sub := split(all, recs[i].Header().Get(reqlogger.HeaderReqid))
		sum += len(sub)
		c.Note("plan %s records %q", describe(p), sub)
		check(c, s, p, sub, recs[i].Code, recs[i].Result().Header, recs[i].Body.Len(), len(sub) > 0, "example.com")
	}
	if sum != len(all) {
		c.Fatal("stray", "%d records, %d belong to the requests: %q", len(all), sum, all)
	}
	if n > 1 {
		c.Count("concurrent", n)
	}
	c.Eval(n)
}

// wire does the same over connections.
func wire(c *h.C) {
	s := newSetup(c)
	sink := &h.LogSink{}
	plans := &sync.Map{}
	sp := app(c, s, plans, sink)
	srv := httptest.NewServer(sp)
	defer srv.Close()
	cl := &http.Client{Transport: &http.Transport{DisableCompression: true}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	defer cl.CloseIdleConnections()
	n := 8
	var mu sync.Mutex
	type got struct {
		code int
		hdr  http.Header
		n    int
		err  error
	}
	out := map[string]got{}
	var wg sync.WaitGroup
	ps := make([]*plan, n)
	for i := range ps {
		ps[i] = reqPlan(c, s, i)
		ps[i].token = "w" + ps[i].token
		if len(ps[i].sent) >= 10 {
			ps[i].sent = ps[i].sent[:len(ps[i].sent)-1] + string(rune('A'+i))
		}
		plans.Store(ps[i].token, ps[i])
	}
	c.Sig("wire %+v %s", s, describe(ps[0]))
	for _, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			req, _ := http.NewRequest(p.method, srv.URL+p.path, nil)
			req.Header.Set("X-Token", p.token)
			if p.has {
				req.Header.Set(reqlogger.HeaderReqid, p.sent)
			}
			if p.gz {
				req.Header.Set("Accept-Encoding", "gzip")
			}
			res, err := cl.Do(req)
			g := got{err: err}
			if err == nil {
				b, _ := io.ReadAll(res.Body)
				res.Body.Close()
				g.code, g.hdr, g.n = res.StatusCode, res.Header, len(b)
			}
			mu.Lock()
			out[p.token] = g
			mu.Unlock()
		}()
	}
	wg.Wait()
	// the end line may come after the client has the response
	srv.Close()
	all := sink.All()
	for _, p := range ps {
		g := out[p.token]
		if g.err != nil {
			c.Fatal("wire-error", "%v", g.err)
		}
		sub := split(all, g.hdr.Get(reqlogger.HeaderReqid))
		c.Note("plan %s records %q", describe(p), sub)
		check(c, s, p, sub, g.code, g.hdr, g.n, len(sub) > 0, strings.TrimPrefix(srv.URL, "http://"))
	}
	c.Count("wire", n)
	c.Eval(n)
}

func main() {
	h.Main(h.Spec{
		ID:   "C28",
		Rule: "ids made by up to 13 goroutines at once, all kept and compared; applications with random logger options (id, prefix, begin and end filters, colour, line info, flat), recovery inside or outside, compression inside, serving one to 13 concurrent requests (recorded or over connections) with client ids of 0 to 44 bytes; handlers log through the injected logger, the request logger and both contexts, set statuses, write in pieces, forge the id header or panic. Every record, response header and id seen by a handler is attributed and compared. Distinct by options and plan.",
		Assumptions: []string{
			"a request whose panic passes through the logging filter has no end line (it did not complete)",
			"no filter outside of the logging filter changes the response; no hook changes the status of a response without body",
			"clients of one case use different ids",
		},
		Run: func(r *h.R) {
			r.Loop("classic", r.N(300, 10000), classic.Ids)
			r.Loop("fresh", r.N(25, 500), fresh)
			r.Loop("recorded", r.N(1200, 60000), recorded)
			r.Loop("wire", r.N(60, 2000), wire)
		},
		Min:         map[string]int64{"classic_ids": 800, "fresh_ids": 100000, "generated": 800, "client_ids": 800, "concurrent": 1500, "wire": 400, "records": 8000},
		MinDistinct: 900,
	})
}

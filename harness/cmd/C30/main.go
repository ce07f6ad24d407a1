package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils/apires"
	"stripverif/classic"
	"stripverif/h"
)

// payload is what the action of one request returns.
type payload struct {
	c    *h.C
	text string
	code int
	body any // dynamic value for the interface shapes
	rd   *reader
	// wrapped result parts
	res  *apires.ResBody
	raw  *apires.RawBody
	rerr *apires.ResError
	cust *custom
	hand http.Handler

	early func(rw http.ResponseWriter) // writes before returning
}

// reader streams in pieces; it can fail, panic and be closed.
type reader struct {
	data   []byte
	piece  int
	fail   error
	panics bool
	closes atomic.Int32
	reads  int
	eof    bool
}

func (r *reader) Read(p []byte) (int, error) {
	r.reads++
	if r.closes.Load() > 0 {
		return 0, errors.New("read after close")
	}
	if len(r.data) == 0 {
		if r.panics {
			panic("reader panic")
		}
		if r.fail != nil {
			return 0, r.fail
		}
		r.eof = true
		return 0, io.EOF
	}
	n := min(r.piece, len(p), len(r.data))
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.piece%2 == 1 && len(r.data) == 0 && r.fail == nil && !r.panics {
		r.eof = true
		return n, io.EOF
	}
	return n, nil
}

type closer struct{ *reader }

func (c closer) Close() error { c.closes.Add(1); return nil }

// wto also implements io.WriterTo.
type wto struct{ closer }

func (w wto) WriteTo(dst io.Writer) (int64, error) {
	n, err := dst.Write(w.data)
	w.data = nil
	w.eof = true
	return int64(n), err
}

type custom struct {
	text   string
	status int
	calls  int
}

func (x *custom) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	x.calls++
	if ctx == nil || req == nil {
		panic("nil arguments")
	}
	rw.Header().Set("X-Custom", req.URL.Path)
	if x.status != 0 {
		rw.WriteHeader(x.status)
	}
	rw.Write([]byte(x.text))
}

type named int

// ctl is a struct controller with one action per shape.
type ctl struct {
	P  *payload            `inject`
	RW http.ResponseWriter `inject`
}

func (t *ctl) e() *payload {
	if t.P.early != nil {
		t.P.early(t.RW)
	}
	return t.P
}
func (t *ctl) Str() string                      { return t.e().text }
func (t *ctl) StrInt() (string, int)            { return t.e().text, t.P.code }
func (t *ctl) Bytes() []byte                    { return []byte(t.e().text) }
func (t *ctl) BytesInt() ([]byte, int)          { return []byte(t.e().text), t.P.code }
func (t *ctl) BytesNil() []byte                 { t.e(); return nil }
func (t *ctl) BytesNilInt() ([]byte, int)       { return nil, t.e().code }
func (t *ctl) Reader() io.Reader                { return t.e().rd }
func (t *ctl) ReaderInt() (io.Reader, int)      { return t.e().rd, t.P.code }
func (t *ctl) ReaderPtr() *reader               { return t.e().rd }
func (t *ctl) Closer() io.ReadCloser            { return closer{t.e().rd} }
func (t *ctl) CloserInt() (io.ReadCloser, int)  { return closer{t.e().rd}, t.P.code }
func (t *ctl) CloserVal() closer                { return closer{t.e().rd} }
func (t *ctl) ReaderIsCloser() io.Reader        { return wto{closer{t.e().rd}} }
func (t *ctl) ReaderNil() io.Reader             { t.e(); return nil }
func (t *ctl) CloserNil() io.ReadCloser         { t.e(); return nil }
func (t *ctl) ReaderNilInt() (io.Reader, int)   { return nil, t.e().code }
func (t *ctl) Int() int                         { return t.e().code }
func (t *ctl) Named() named                     { return named(t.e().code) }
func (t *ctl) None()                            { t.e() }
func (t *ctl) Handler() http.Handler            { return t.e().hand }
func (t *ctl) HandlerInt() (http.Handler, int)  { return t.e().hand, t.P.code }
func (t *ctl) HandlerFunc() http.HandlerFunc    { return t.e().hand.ServeHTTP }
func (t *ctl) HandlerNil() http.Handler         { t.e(); return nil }
func (t *ctl) HandlerFuncNil() http.HandlerFunc { t.e(); return nil }
func (t *ctl) Result() strip.ActionResult       { return t.e().cust }
func (t *ctl) ResultInt() (strip.ActionResult, int) {
	return t.e().cust, t.P.code
}
func (t *ctl) ResultNil() strip.ActionResult      { t.e(); return nil }
func (t *ctl) ResultTypedNil() strip.ActionResult { t.e(); var n *apires.ResError; return n }
func (t *ctl) Res() *apires.ResBody               { return t.e().res }
func (t *ctl) ResNil() *apires.ResBody            { t.e(); return nil }
func (t *ctl) ResResult() strip.ActionResult      { return t.e().res }
func (t *ctl) Raw() *apires.RawBody               { return t.e().raw }
func (t *ctl) RawResult() strip.ActionResult      { return t.e().raw }
func (t *ctl) RawNil() *apires.RawBody            { t.e(); return nil }
func (t *ctl) Err() *apires.ResError              { return t.e().rerr }
func (t *ctl) ErrNil() *apires.ResError           { t.e(); return nil }
func (t *ctl) Error() error                       { return t.e().rerr }
func (t *ctl) ErrorNil() error                    { t.e(); return nil }
func (t *ctl) ErrorTypedNil() error               { t.e(); var n *apires.ResError; return n }
func (t *ctl) AnyRes() interface{}                { return t.e().res }
func (t *ctl) AnyRaw() interface{}                { return t.e().raw }
func (t *ctl) AnyStr() interface{}                { return t.e().text }
func (t *ctl) AnyBytes() interface{}              { return []byte(t.e().text) }
func (t *ctl) AnyCloser() interface{}             { return closer{t.e().rd} }
func (t *ctl) AnyStrInt() (interface{}, int)      { return t.e().text, t.P.code }
func (t *ctl) AnyNil() interface{}                { t.e(); return nil }
func (t *ctl) AnyNilInt() (interface{}, int)      { return nil, t.e().code }
func (t *ctl) AnyTypedNil() interface{}           { t.e(); var n *apires.RawBody; return n }
func (t *ctl) BufferVal() *bytes.Buffer           { return bytes.NewBufferString(t.e().text) }
func (t *ctl) StringsReader() *strings.Reader     { return strings.NewReader(t.e().text) }

var shapes []string

func init() {
	typ := reflect.TypeOf(&ctl{})
	for i := 0; i < typ.NumMethod(); i++ {
		shapes = append(shapes, typ.Method(i).Name)
	}
}

// asFunc makes a function action from the method.
func asFunc(name string) interface{} {
	m, _ := reflect.TypeOf(&ctl{}).MethodByName(name)
	in := []reflect.Type{reflect.TypeOf(&payload{}), reflect.TypeOf((*http.ResponseWriter)(nil)).Elem()}
	var out []reflect.Type
	for i := 0; i < m.Type.NumOut(); i++ {
		out = append(out, m.Type.Out(i))
	}
	return reflect.MakeFunc(reflect.FuncOf(in, out, false), func(a []reflect.Value) []reflect.Value {
		t := &ctl{P: a[0].Interface().(*payload), RW: a[1].Interface().(http.ResponseWriter)}
		return m.Func.Call([]reflect.Value{reflect.ValueOf(t)})
	}).Interface()
}

type expect struct {
	status  int
	body    string
	json    any // compared as JSON when set
	isJSON  bool
	header  string // value of X-Custom
	closes  int    // -1: not checked
	partial bool   // the body may end early (failing reader)
	panics  bool
}

type item struct {
	A string         `json:"a"`
	B []int          `json:"b,omitempty"`
	M map[string]any `json:"m"`
}

func jsonValue(c *h.C) any {
	switch c.IntN(7) {
	case 0:
		return map[string]any{"k": "v<>&\u2028", "n": float64(c.IntN(100)), "l": []any{nil, true, "x"}}
	case 1:
		return item{A: c.Pick("", "x", "日本", "\x00\"")}
	case 2:
		return &item{A: "p", B: []int{1, 2, 3}, M: map[string]any{"z": 1.5}}
	case 3:
		return []string{}
	case 4:
		return float64(12)
	case 5:
		return true
	default:
		return struct{}{}
	}
}

func one(c *h.C) {
	name := shapes[c.IntN(len(shapes))]
	size := []int{0, 1, 5, 600, 4096, 4097, 40000, 300000}[c.IntN(8)]
	if c.Chance(2) {
		size = 1<<20 + c.IntN(2<<20)
	}
	alpha := "abc<>&\x00\xff\n%s日"
	text := strings.Repeat(alpha, size/len(alpha)+1)[:size]
	statuses := []int{200, 201, 204, 304, 202, 299, 301, 400, 403, 404, 418, 451, 500, 503, 599}
	code := statuses[c.IntN(len(statuses))]
	p := &payload{c: c, text: text, code: code}
	p.rd = &reader{data: []byte(text), piece: []int{1 + c.IntN(7), 511, 4096, 100000}[c.IntN(4)]}
	if size > 5000 && p.rd.piece < 8 {
		p.rd.piece = 1000
	}
	readerEnds := c.IntN(10)
	if readerEnds == 0 {
		p.rd.fail = errors.New("broken")
	} else if readerEnds == 1 {
		p.rd.panics = true
	}
	p.cust = &custom{text: text, status: []int{0, 0, 202, 404}[c.IntN(4)]}
	p.hand = http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		rw.Header().Set("X-Custom", req.URL.Path)
		if p.cust.status != 0 {
			rw.WriteHeader(p.cust.status)
		}
		rw.Write([]byte(text))
	})
	apiStatus := append([]int{0, 204}, statuses...)[c.IntN(len(statuses)+2)]
	val := jsonValue(c)
	switch {
	case c.Chance(15):
		p.res = apires.Ret(apiStatus)
		val = struct{}{}
	case c.Chance(15):
		p.res = apires.With(val)
		apiStatus = 200
	case c.Chance(15):
		p.res = &apires.ResBody{Status: apiStatus, Body: val}
	default:
		p.res = apires.With(val, apiStatus)
	}
	if apiStatus == 0 {
		apiStatus = 200
	}
	errStatus, errCode := statuses[c.IntN(len(statuses))], c.IntN(3)*100
	msg := c.Pick("", "msg", "<m>\"\n")
	var data any
	if c.Chance(50) {
		data = val
		p.rerr = apires.NewResError(errStatus, errCode, msg, data)
	} else {
		p.rerr = apires.NewResError(errStatus, errCode, msg)
	}
	rawKind := c.IntN(7)
	rawStatus := append([]int{0, 204}, statuses...)[c.IntN(len(statuses)+2)]
	var rawBody any
	switch rawKind {
	case 0:
		rawBody = text
	case 1:
		rawBody = []byte(text)
	case 2:
		rawBody = p.rd
	case 3:
		rawBody = closer{p.rd}
	case 4:
		rawBody = val
		if val == (struct{}{}) {
			rawBody = item{A: "r"}
		}
	case 5:
		rawBody = nil
	case 6:
		rawBody = wto{closer{p.rd}}
	}
	switch {
	case rawBody == nil:
		p.raw = apires.RawRet(rawStatus)
	case c.Chance(20):
		p.raw = apires.RawWith(rawBody)
		rawStatus = 200
	default:
		p.raw = apires.RawWith(rawBody, rawStatus)
	}
	structCtl, dev := c.Chance(50), c.Chance(30)
	level := c.Pick("app", "group", "own", "late")
	early := c.IntN(12)
	earlyStatus := 0
	earlyBody := ""
	switch early {
	case 0:
		earlyStatus = 206
	case 1:
		earlyBody = "early"
	case 2:
		earlyStatus, earlyBody = 409, "early"
	}
	if early < 3 {
		p.early = func(rw http.ResponseWriter) {
			if earlyStatus != 0 {
				rw.WriteHeader(earlyStatus)
			}
			if earlyBody != "" {
				rw.Write([]byte(earlyBody))
			}
		}
	}
	overWire := c.Chance(8)
	c.Note("shape %s struct %v dev %v level %s size %d code %d api %d err %d/%d raw %T %d early %d reader %d piece %d wire %v", name, structCtl, dev, level, size, code, apiStatus, errStatus, errCode, rawBody, rawStatus, early, readerEnds, p.rd.piece, overWire)
	c.Sig("%s %v %v %s %d %d %d %d %T %d %d %d", name, structCtl, dev, level, size, code, apiStatus, errStatus, rawBody, rawStatus, early, readerEnds)

	// what the client should get
	left := false // nothing to send
	w := expect{status: 200, closes: -1}
	usesReader, withCloser := false, false
	jsonErr := func() {
		m := map[string]any{}
		if errCode != 0 {
			m["code"] = errCode
		}
		if msg != "" {
			m["message"] = msg
		}
		if data != nil {
			m["data"] = data
		}
		w.status, w.json, w.isJSON = errStatus, m, true
	}
	jsonRes := func() {
		w.status, w.json, w.isJSON = apiStatus, val, true
		if apiStatus == 204 {
			w.json, w.isJSON = nil, false
		}
	}
	raw := func() {
		if rawStatus != 0 {
			w.status = rawStatus
		}
		if rawStatus == 204 {
			usesReader, withCloser = false, rawKind == 3 || rawKind == 6
			if withCloser {
				w.closes = 1
			}
			return
		}
		switch rawKind {
		case 0, 1:
			w.body = text
		case 2:
			w.body, usesReader = text, true
		case 3, 6:
			w.body, usesReader, withCloser = text, true, true
		case 4:
			w.json, w.isJSON = rawBody, true
		}
	}
	base := name
	switch base {
	case "Str", "Bytes", "AnyStr", "AnyBytes", "BufferVal", "StringsReader":
		w.body = text
	case "StrInt", "BytesInt", "AnyStrInt":
		w.body, w.status = text, code
	case "Reader", "ReaderPtr":
		w.body, usesReader = text, true
	case "ReaderInt":
		w.body, w.status, usesReader = text, code, true
	case "Closer", "CloserVal", "ReaderIsCloser", "AnyCloser":
		w.body, usesReader, withCloser = text, true, true
	case "CloserInt":
		w.body, w.status, usesReader, withCloser = text, code, true, true
	case "BytesNilInt", "ReaderNilInt", "Int", "Named", "AnyNilInt":
		w.status = code
	case "None", "BytesNil", "ReaderNil", "CloserNil", "HandlerNil", "HandlerFuncNil", "ResultNil", "ResultTypedNil", "ResNil", "RawNil", "ErrNil", "ErrorNil", "ErrorTypedNil", "AnyNil", "AnyTypedNil":
		left = true
	case "Handler", "HandlerFunc", "Result":
		w.body, w.header = text, "/x"
		if p.cust.status != 0 {
			w.status = p.cust.status
		}
	case "HandlerInt", "ResultInt":
		w.body, w.header, w.status = text, "/x", code
		if p.cust.status != 0 {
			w.status = p.cust.status
		}
	case "Res", "ResResult", "AnyRes":
		jsonRes()
	case "Raw", "RawResult", "AnyRaw":
		raw()
	case "Err", "Error":
		jsonErr()
	default:
		c.Fatal("shape", "no expectation for %s", name)
	}
	wtoUsed := name == "ReaderIsCloser" || (rawKind == 6 && strings.Contains(name, "Raw"))
	if wtoUsed && (p.rd.fail != nil || p.rd.panics) {
		c.Skip()
	}
	if usesReader && withCloser {
		w.closes = 1
	}
	if usesReader && p.rd.panics {
		w.panics = true
	}
	if early < 3 {
		left = false
		w = expect{status: 200, body: earlyBody, closes: -1}
		if earlyStatus != 0 {
			w.status = earlyStatus
		}
		usesReader = false
	}
	if (w.status == 204 || w.status == 304) && early >= 3 {
		// such responses have no body
		if w.panics {
			c.Skip()
		}
		overWire = true // not judged by the recorder
		w.body, w.json, w.isJSON = "", nil, false
		if usesReader {
			c.Count("closed_without_body", 1)
		}
		usesReader = false
	}
	statusSet := strings.HasSuffix(name, "Int") || strings.Contains(name, "Raw") && rawStatus != 0
	if w.panics && w.body == "" && !statusSet {
		w.status = 500 // nothing was written before the panic
	}

	sp, sink := h.NewApp()
	sp.Config.RunMode = strip.ModeProd
	if dev && !w.panics {
		sp.Config.RunMode = strip.ModeDev
	}
	preset := ""
	if c.Chance(30) {
		preset = c.Pick("text/html", "application/octet-stream", "application/json")
	}
	sp.Filter(strip.RecoveryFilter(), func(ctx strip.Context, rw http.ResponseWriter) {
		ctx.Provide(p)
		if preset != "" {
			rw.Header().Set("Content-Type", preset)
		}
		ctx.Next()
		if left && ctx.Written() {
			c.Fail("nil-written", "%s: nothing is returned, and the response is written with %d", name, rw.(strip.ResponseWriter).Status())
		}
	})
	var handler interface{}
	var mh strip.MethodHandler
	if structCtl {
		mh = strip.Any(&ctl{}).Action(name)
	} else {
		handler = asFunc(name)
		mh = strip.Any(handler)
	}
	out := strip.GenericOutFilter()
	touched := 0
	noise := func(ctx strip.Context) { touched++; ctx.Next() }
	switch level {
	case "app":
		sp.Filter(out, noise)
		sp.Routers(strip.Router("/x", mh))
	case "group":
		sp.Routers(strip.Filter(noise, out), strip.Router("/x", mh))
	case "own":
		sp.Routers(strip.Router("/x", mh.Filter(out)))
	case "late":
		sp.Filter(noise, noise2, out)
		sp.Routers(strip.Filter(noise), strip.Router("/x", mh.Filter(noise2)))
	}
	method := "GET"
	if c.Chance(10) {
		method = "POST"
	}
	var gotCode int
	var gotHdr http.Header
	var body []byte
	if overWire && !w.panics {
		srv := httptest.NewServer(sp)
		req, _ := http.NewRequest(method, srv.URL+"/x", nil)
		res, err := (&http.Transport{}).RoundTrip(req)
		if err != nil {
			c.Fatal("wire", "%v", err)
		}
		body, err = io.ReadAll(res.Body)
		if err != nil {
			c.Fatal("wire", "reading the body: %v", err)
		}
		res.Body.Close()
		srv.Close()
		gotCode, gotHdr = res.StatusCode, res.Header
		c.Count("wire", 1)
	} else {
		rec := h.Serve(sp, h.Req(method, "/x"))
		gotCode, gotHdr, body = rec.Code, rec.Result().Header, rec.Body.Bytes()
	}
	c.Eval(1)
	c.Count("shape_"+name, 1)
	if early < 3 {
		c.Count("already_written", 1)
	}
	if w.panics != (len(h.Panics(sink.All())) > 0) {
		c.Fatal("panic", "panics %q", h.Panics(sink.All()))
	}
	if gotCode != w.status {
		c.Fatal("status", "status %d, want %d; body %q", gotCode, w.status, h.Short(string(body)))
	}
	if w.isJSON {
		want, _ := json.Marshal(w.json)
		var a, b any
		if err := json.Unmarshal(body, &a); err != nil {
			c.Fatal("json", "body %q: %v", h.Short(string(body)), err)
		}
		json.Unmarshal(want, &b)
		if !reflect.DeepEqual(a, b) {
			c.Fatal("json", "body %q, want %q", h.Short(string(body)), want)
		}
		if ct := gotHdr.Get("Content-Type"); ct != "application/json; charset=UTF-8" {
			c.Fatal("content-type", "%q", ct)
		}
		c.Count("json", 1)
	} else if w.panics && gotCode == 500 && string(body) != w.body {
		// page of the recovery
	} else if string(body) != w.body {
		c.Fatal("body", "body of %d bytes %q, want %d bytes %q", len(body), h.Short(string(body)), len(w.body), h.Short(w.body))
	}
	if !w.isJSON && !w.panics {
		// other results have no type of their own
		want := preset
		if want == "" && w.body != "" {
			want = "-"
			if !overWire {
				want = "" // the recorder does not look
			} else if !usesReader {
				want = http.DetectContentType([]byte(w.body))
			}
		}
		jsonLike := strings.Contains(name, "Res") || strings.Contains(name, "Err") || strings.Contains(name, "Raw")
		if ct := gotHdr.Get("Content-Type"); ct != want && want != "-" && !(jsonLike && w.body == "") && w.body != "" {
			c.Fatal("content-type", "%q, want %q", ct, want)
		}
		c.Count("plain_type", 1)
	}
	if gotHdr.Get("X-Custom") != w.header {
		c.Fatal("header", "%q", gotHdr.Get("X-Custom"))
	}
	if n := int(p.rd.closes.Load()); w.closes >= 0 && n != w.closes {
		c.Fatal("closed", "closed %d times, want %d", n, w.closes)
	}
	if w.closes > 0 {
		c.Count("closed", 1)
	}
	if usesReader && !p.rd.panics && p.rd.fail == nil && !p.rd.eof {
		c.Fatal("streamed", "the reader was not read to its end")
	}
	if usesReader {
		c.Count("streamed", 1)
	}
}

func noise2(ctx strip.Context) { ctx.Next() }

// parallel: results of concurrent requests never mix.
func parallel(c *h.C) {
	sp, _ := h.NewApp()
	var m sync.Map
	sp.Filter(strip.GenericOutFilter(), func(ctx strip.Context, req *http.Request) {
		v, _ := m.Load(req.Header.Get("X-K"))
		ctx.Provide(v.(*payload))
	})
	names := []string{"Str", "StrInt", "BytesInt", "CloserInt", "Int", "AnyStrInt", "Err"}
	for _, n := range names {
		sp.Routers(strip.Router("/"+n, strip.Any(&ctl{}).Action(n)), strip.Router("/f/"+n, strip.Any(asFunc(n))))
	}
	var wg sync.WaitGroup
	n := 16
	for i := 0; i < n; i++ {
		name := names[c.IntN(len(names))]
		text := fmt.Sprintf("text-%d-%d", i, c.IntN(1000))
		code := 200 + c.IntN(100)
		if code == 204 {
			code = 205
		}
		p := &payload{text: text, code: code, rd: &reader{data: []byte(text), piece: 3}, rerr: apires.NewResError(code, code, text)}
		key := fmt.Sprint(i)
		m.Store(key, p)
		path := "/" + name
		if c.Chance(50) {
			path = "/f/" + name
		}
		c.Sig("par %s %d", path, code)
		wg.Add(1)
		go func() {
			defer wg.Done()
			req := h.Req("GET", path)
			req.Header.Set("X-K", key)
			rec := h.Serve(sp, req)
			want, status := text, code
			switch name {
			case "Str":
				status = 200
			case "Int":
				want = ""
			case "Err":
				want = fmt.Sprintf(`{"code":%d,"message":%q}`, code, text)
			}
			if rec.Code != status || rec.Body.String() != want {
				c.Fail("mixed", "%s: %d %q, want %d %q", path, rec.Code, rec.Body.String(), status, want)
			}
		}()
	}
	wg.Wait()
	c.Eval(n)
	c.Count("parallel", n)
}

func main() {
	h.Main(h.Spec{
		ID:   "C30",
		Rule: "51 result shapes (strings, bytes, readers, closers, status codes, bodies with status, handlers, action results, API results, errors and raw bodies of every body kind, nil and typed nil of each) as function and struct actions, with the rendering filter on application, group or handler level, bodies up to 300 kB in pieces, failing and panicking readers, responses already written, development mode, recorded and over connections; status, body, content type, streaming to the end and closing are compared with a model. Distinct by parameters.",
		Assumptions: []string{
			"status codes are valid final ones; 204 is used with API results and raw bodies only",
			"a result given to a response already written is not closed",
		},
		Run: func(r *h.R) {
			r.Loop("classic", r.N(300, 10000), classic.Results)
			r.Par("one", r.N(3000, 100000), one)
			r.Loop("one", r.N(12000, 400000), one)
			r.Loop("parallel", r.N(60, 3000), parallel)
		},
		Min:         map[string]int64{"classic_results": 500, "json": 800, "closed": 600, "streamed": 1000, "already_written": 1500, "wire": 400, "parallel": 800},
		MinDistinct: 8000,
	})
}

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils/apires"
	"stripverif/h"
)

// model is what an error or result renders as.
type model struct {
	status int
	code   int
	msg    string
	data   any
	depth  int

	raw    bool
	result bool
	body   any
}

func (m model) json() any {
	if m.result || m.raw {
		b, _ := json.Marshal(m.body)
		var v any
		json.Unmarshal(b, &v)
		if m.body == nil {
			v = map[string]any{}
		}
		return v
	}
	o := map[string]any{}
	if m.code != 0 {
		o["code"] = m.code
	}
	if m.msg != "" {
		o["message"] = m.msg
	}
	if m.data != nil {
		o["data"] = m.data
	}
	b, _ := json.Marshal(o)
	var v any
	json.Unmarshal(b, &v)
	return v
}

// shared is one predefined value used by everybody.
type shared struct {
	err *apires.ResError
	act strip.ActionResult
	m   model
}

var statuses = []int{200, 201, 299, 400, 401, 403, 404, 409, 418, 500, 503, 599}

type detail struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
}

func dataValue(r *rand.Rand) any {
	switch r.IntN(9) {
	case 7: // an error of the same kind
		return apires.NewResError(418, r.IntN(50), "inner", "data")
	case 8:
		return "100% text"
	case 0:
		return "text data"
	case 1:
		return errors.New("err data")
	case 2:
		return detail{r.IntN(100), "b"}
	case 3:
		return &detail{A: r.IntN(100)}
	case 4:
		return map[string]int{"x": r.IntN(100)}
	case 5:
		return []string{"l"}
	default:
		return r.IntN(1000) + 1
	}
}

func predefine(c *h.C) *shared {
	st := statuses[c.IntN(len(statuses))]
	s := &shared{}
	k := c.IntN(10)
	switch {
	case k < 6:
		s.m = model{status: st, code: c.IntN(4) * 1000, msg: c.Pick("", "predefined", "m2 <&>")}
		if c.Chance(40) {
			s.m.data = dataValue(c.Rand)
			s.err = apires.NewResError(st, s.m.code, s.m.msg, s.m.data)
		} else {
			s.err = apires.NewResError(st, s.m.code, s.m.msg)
		}
		s.act = s.err
	case k < 8:
		s.m = model{status: st, result: true}
		switch c.IntN(4) {
		case 0:
			s.act = apires.Ret(st)
		case 1:
			s.m.body = detail{1, "shared"}
			s.act = apires.With(s.m.body, st)
		case 2:
			s.m.status = 200
			s.act = &apires.ResBody{}
		case 3:
			s.m.status, s.m.body = 200, []int{1, 2}
			s.act = &apires.ResBody{Body: s.m.body}
		}
	default:
		s.m = model{status: st, raw: true}
		switch c.IntN(4) {
		case 0:
			s.m.body = "raw text"
		case 1:
			s.m.body = []byte("raw bytes")
		case 2:
			s.m.body = detail{2, "raw"}
		case 3:
			s.m.status, s.m.body = 200, detail{3, ""}
			s.act = &apires.RawBody{Body: s.m.body}
		}
		if s.act == nil {
			s.act = apires.RawWith(s.m.body, st)
		}
	}
	return s
}

// derive specialises an error and tells what the result should be.
func derive(r *rand.Rand, e *apires.ResError, m model) (*apires.ResError, model) {
	m.depth++
	tag := r.IntN(100000)
	switch r.IntN(6) {
	case 4: // nothing replaces the data, too
		m.data = nil
		return e.WithData(nil), m
	case 5: // texts with the marks of formats
		switch r.IntN(3) {
		case 0:
			m.msg = fmt.Sprintf("100%% of %d", tag)
			return e.WithMsgf("100%% of %d", tag), m
		case 1:
			m.msg = "is %d %s %!"
			return e.WithMsgf("is %s", "%d %s %!"), m
		default:
			m.msg = "%v%%"
			return e.WithMsg(m.msg), m
		}
	case 0:
		m.msg = fmt.Sprintf("msg %d", tag)
		if r.IntN(6) == 0 {
			m.msg = ""
		}
		return e.WithMsg(m.msg), m
	case 1:
		m.msg = fmt.Sprintf("fmt %d %q", tag, "x")
		return e.WithMsgf("fmt %d %q", tag, "x"), m
	case 2:
		m.data = dataValue(r)
		switch v := m.data.(type) {
		case error:
			m.msg = v.Error()
		case string:
			m.msg = v
		}
		return e.WithData(m.data), m
	default:
		m.data = dataValue(r)
		m.msg = fmt.Sprintf("with %d", tag)
		if r.IntN(4) == 0 {
			m.msg = ""
		}
		return e.WithData(m.data, m.msg), m
	}
}

// pieces is a plain reader.
type pieces struct {
	s string
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	if p.s == "" {
		return 0, io.EOF
	}
	n := copy(b, p.s[:min(p.n, len(p.s))])
	p.s = p.s[n:]
	runtime.Gosched()
	return n, nil
}

type job struct{ act any }

func app() *strip.Strip {
	sp, _ := h.NewApp()
	sp.Filter(strip.GenericOutFilter(), func(ctx strip.Context, req *http.Request) {
		j, _ := jobs.Load(req.Header.Get("X-Job"))
		ctx.Provide(j.(*job))
	}, func(rw http.ResponseWriter, req *http.Request) {
		if t := req.Header.Get("X-Preset"); t != "" {
			rw.Header().Set("Content-Type", t)
		}
	})
	sp.Routers(
		strip.Router("/res", strip.Get(func(j *job) strip.ActionResult { return j.act.(strip.ActionResult) })),
		strip.Router("/any", strip.Get(func(j *job) interface{} { return j.act })),
		strip.Router("/err", strip.Get(func(j *job) error { e, _ := j.act.(error); return e })),
	)
	return sp
}

var jobs sync.Map

// render sends the value through an application and compares.
func render(c *h.C, sp *strip.Strip, key string, act strip.ActionResult, m model, path string) {
	jobs.Store(key, &job{act})
	req := h.Req("GET", path)
	req.Header.Set("X-Job", key)
	if len(key)%2 == 0 { // a filter with a default type
		req.Header.Set("X-Preset", "text/html")
	}
	rec := h.Serve(sp, req)
	jobs.Delete(key)
	c.Count("rendered", 1)
	if rec.Code != m.status {
		c.Fail("status", "status %d, want %d for %+v: %q", rec.Code, m.status, m, rec.Body.String())
		return
	}
	if m.raw {
		if s, ok := m.body.(string); ok {
			if rec.Body.String() != s {
				c.Fail("raw", "%q, want %q", rec.Body.String(), s)
			}
			return
		}
		if s, ok := m.body.([]byte); ok {
			if rec.Body.String() != string(s) {
				c.Fail("raw", "%q, want %q", rec.Body.String(), s)
			}
			return
		}
	}
	if ct := rec.Header().Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		c.Fail("content-type", "%q", ct)
	}
	var got any
	if err := json.Unmarshal(rec.Body.Bytes(), &got); err != nil || !reflect.DeepEqual(got, m.json()) {
		want, _ := json.Marshal(m.json())
		c.Fail("body", "rendered %q, want %s (derived %d times)", rec.Body.String(), want, m.depth)
	}
}

// query checks what an error says about itself.
func query(c *h.C, e *apires.ResError, m model, others []*shared) {
	if e.HttpCode() != m.status {
		c.Fail("httpcode", "HttpCode %d, want %d", e.HttpCode(), m.status)
	}
	if ok, st := apires.GetHttpCode(e); !ok || st != m.status {
		c.Fail("gethttpcode", "%v %d, want %d", ok, st, m.status)
	}
	if ok, _ := apires.GetHttpCode(errors.New("x")); ok {
		c.Fail("gethttpcode", "a foreign error has a code")
	}
	if !apires.IsResError(e) || apires.IsResError(errors.New("x")) || apires.IsResError(nil) {
		c.Fail("isreserror", "IsResError")
	}
	var got any
	if err := json.Unmarshal([]byte(e.Error()), &got); err != nil || !reflect.DeepEqual(got, m.json()) {
		c.Fail("error-text", "Error() is %q", e.Error())
	}
	var list []*apires.ResError
	want := false
	for _, o := range others {
		if o.err != nil {
			list = append(list, o.err)
			want = want || o.m.status == m.status && o.m.code == m.code
			if one := e.EqualAny(o.err); one != (o.m.status == m.status && o.m.code == m.code) {
				c.Fail("equal", "%d/%d equal to %d/%d: %v", m.status, m.code, o.m.status, o.m.code, one)
			}
		}
	}
	if e.EqualAny(list...) != want {
		c.Fail("equal", "EqualAny of %d: %v", len(list), !want)
	}
	if e.EqualAny() || !e.EqualAny(e) {
		c.Fail("equal", "EqualAny of nothing or itself")
	}
	c.Count("queries", 1)
}

func one(c *h.C) {
	pool := make([]*shared, 2+c.IntN(5))
	for i := range pool {
		pool[i] = predefine(c)
		c.Note("%+v", pool[i].m)
	}
	sp := app()
	dev := c.Chance(25)
	if dev {
		sp.Config.RunMode = strip.ModeDev
	}
	workers := 1
	if c.Chance(70) {
		workers = 2 + c.IntN(7)
	}
	steps := 4 + c.IntN(12)
	c.Sig("%d %d %v %+v", workers, steps, dev, pool[0].m)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for w := 0; w < workers; w++ {
		a, b := c.Uint64(), c.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(a, b))
			<-gate
			key := fmt.Sprintf("%d-%d", c.Index, w)
			type der struct {
				e *apires.ResError
				m model
			}
			var mine []der
			for i := 0; i < steps && !c.Failed(); i++ {
				s := pool[r.IntN(len(pool))]
				path := "/res"
				if r.IntN(3) == 0 {
					path = "/any"
				}
				switch k := r.IntN(12); {
				case k >= 10: // an own body, read in pieces
					b := make([]byte, 1+r.IntN(20000))
					for i := range b {
						b[i] = byte('a' + (i+w*7+r.IntN(2))%26)
					}
					rd := &pieces{string(b), 1 + r.IntN(5000)}
					m := model{status: 299, raw: true, body: string(b)}
					render(c, sp, key, apires.RawWith(rd, 299), m, path)
					c.Count("readers", 1)
				case k < 3:
					if s.err != nil && r.IntN(3) == 0 {
						path = "/err"
					}
					render(c, sp, key, s.act, s.m, path)
				case k < 6 && s.err != nil:
					e, m := derive(r, s.err, s.m)
					for r.IntN(2) == 0 {
						mine = append(mine, der{e, m})
						e, m = derive(r, e, m)
					}
					mine = append(mine, der{e, m})
					render(c, sp, key, e, m, path)
					c.Count("derived", 1)
				case k < 8 && len(mine) > 0:
					d := mine[r.IntN(len(mine))]
					render(c, sp, key, d.e, d.m, "/err")
					query(c, d.e, d.m, pool)
				case s.err != nil:
					query(c, s.err, s.m, pool)
				default:
					runtime.Gosched()
				}
			}
			for _, d := range mine {
				render(c, sp, key, d.e, d.m, "/res")
			}
		}()
	}
	close(gate)
	wg.Wait()
	// the predefined values are as before
	for i, s := range pool {
		if s.err != nil {
			if s.err.Status != s.m.status || s.err.Code != s.m.code || s.err.Message != s.m.msg || !reflect.DeepEqual(s.err.Data, s.m.data) || s.err.Body != s.err {
				c.Fail("changed", "predefined error %d is now %+v, was %+v", i, s.err, s.m)
			}
		}
		render(c, sp, fmt.Sprintf("%d-end", c.Index), s.act, s.m, "/res")
	}
	c.Eval(workers * steps)
	if workers > 1 {
		c.Count("concurrent", 1)
	}
}

func main() {
	h.Main(h.Spec{
		ID:          "C31",
		Rule:        "pools of two to six predefined errors, results and raw bodies (with and without status, body and data) used by up to eight goroutines that return them from actions in three ways, derive chains of specialised errors (WithMsg, WithMsgf, WithData of seven kinds of data), render these repeatedly and query them; every rendering is compared with a model, the predefined values afterwards with what they were, and the race detector watches. Distinct by pool and shape of the run.",
		Assumptions: []string{"errors are made by NewResError; data given to them is not changed by its owner"},
		Run:         func(r *h.R) { r.Loop("one", r.N(700, 30000), one) },
		Min:         map[string]int64{"rendered": 10000, "derived": 2500, "queries": 4000, "readers": 2000, "concurrent": 300},
		MinDistinct: 500,
	})
}

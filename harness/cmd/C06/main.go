package main

import (
	gocontext "context"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/inject"
	"stripverif/h"
)

type Tok struct{ N int }
type Missing struct{}
type Late struct{ N int }

type world struct {
	c  *h.C
	ev []string
}

func (w *world) put(f string, a ...any) { w.ev = append(w.ev, fmt.Sprintf(f, a...)) }

// step is one filter or the action.
type step struct {
	id   int
	kind string
	code int
	form int
}

func (s step) String() string { return fmt.Sprintf("%d:%s/%d", s.id, s.kind, s.form) }

func (w *world) fn(s step) interface{} {
	id := s.id
	switch s.kind {
	case "pass":
		switch s.form % 7 {
		case 0:
			return func() { w.put("in%d", id) }
		case 1:
			return func() *Tok { w.put("in%d", id); return &Tok{1} }
		case 2:
			return func(rw http.ResponseWriter) (int, error) { w.put("in%d", id); rw.Header().Set("X", "y"); return 3, nil }
		case 3:
			return func(t *Tok, r *http.Request) string { w.put("in%d", id); return "s" }
		case 4:
			return func(ctx strip.Context) error {
				w.put("in%d", id)
				var t *Tok
				ctx.Find(&t)
				var n int
				ctx.Find(&n)
				return nil
			}
		case 5:
			return func(ctx strip.Context) strip.Context { w.put("in%d", id); return ctx }
		default:
			return func(ctx strip.Context, r *http.Request) *http.Request {
				w.put("in%d", id)
				ctx.Provide(&Late{id})
				return r
			}
		}
	case "next":
		switch s.form % 3 {
		case 0:
			return func(ctx strip.Context) { w.put("in%d", id); ctx.Next(); w.put("out%d:%v", id, ctx.Written()) }
		case 1:
			return func(ctx strip.Context) *Tok {
				w.put("in%d", id)
				ctx.Next()
				w.put("out%d:%v", id, ctx.Written())
				return nil
			}
		default:
			return func(ctx strip.Context, n *int) (*int, error) {
				w.put("in%d", id)
				ctx.Next()
				w.put("out%d:%v", id, ctx.Written())
				return nil, nil
			}
		}
	case "defer":
		return func(ctx strip.Context) {
			w.put("in%d", id)
			defer func() { w.put("out%d:%v", id, ctx.Written()) }()
			ctx.Next()
		}
	case "rescue":
		return func(ctx strip.Context, rw http.ResponseWriter) {
			w.put("in%d", id)
			defer func() {
				if e := recover(); e != nil {
					w.put("rescued%d", id)
					if !ctx.Written() {
						rw.WriteHeader(500)
					}
				}
				w.put("out%d:%v", id, ctx.Written())
			}()
			ctx.Next()
		}
	case "write":
		switch s.form % 3 {
		case 0:
			return func(rw http.ResponseWriter) { w.put("in%d", id); rw.WriteHeader(s.code) }
		case 1:
			return func(rw http.ResponseWriter) error {
				w.put("in%d", id)
				rw.WriteHeader(s.code)
				rw.Write([]byte("x"))
				return nil
			}
		default:
			return func(ctx strip.Context, rw http.ResponseWriter, t *Tok) {
				w.put("in%d", id)
				http.Error(rw, "no", s.code)
			}
		}
	case "early": // writes, then delegates
		return func(ctx strip.Context, rw http.ResponseWriter) {
			w.put("in%d", id)
			rw.WriteHeader(s.code)
			if s.form%2 == 0 {
				rw.Write([]byte("early"))
			}
			ctx.Next()
			w.put("out%d:%v", id, ctx.Written())
		}
	case "post": // delegates, then answers if nobody did
		return func(ctx strip.Context, rw http.ResponseWriter) {
			w.put("in%d", id)
			ctx.Next()
			w.put("out%d:%v", id, ctx.Written())
			if !ctx.Written() {
				rw.WriteHeader(s.code)
			}
		}
	case "missing":
		switch s.form % 3 {
		case 0:
			return func(m *Missing) { w.put("in%d", id) }
		case 1:
			return inject.Provide{inject.Dep{0: "other"}, func(t *Tok) { w.put("in%d", id) }}
		default:
			return func(t *Tok, ctx strip.Context, m Missing) *Tok { w.put("in%d", id); return nil }
		}
	case "panic":
		return func() { w.put("in%d", id); panic("step") }
	}
	panic(s.kind)
}

func (w *world) filter(s step) interface{} {
	f := w.fn(s)
	switch s.form / 7 {
	case 1:
		return strip.FilterFunc(func() inject.Provider { return f })
	case 2:
		if _, ok := f.(inject.Provide); !ok {
			return inject.Provide{f}
		}
	}
	return f
}

type abort struct{}

// model is the reference execution.
type model struct {
	steps  []step
	ev     []string
	status int
	sent   bool
}

// set is a WriteHeader: the last one before the first byte counts.
func (m *model) set(code int, body bool) {
	if !m.sent {
		m.status = code
	}
	m.sent = m.sent || body
}

func (m *model) put(f string, a ...any) { m.ev = append(m.ev, fmt.Sprintf(f, a...)) }

func (m *model) run(i int) {
	for ; i < len(m.steps); i++ {
		s := m.steps[i]
		delegated := false
		out := func() { m.put("out%d:%v", s.id, m.status != 0) }
		switch s.kind {
		case "missing":
			panic(abort{})
		case "panic":
			m.put("in%d", s.id)
			panic(abort{})
		}
		m.put("in%d", s.id)
		switch s.kind {
		case "early":
			m.set(s.code, s.form%2 == 0)
			m.run(i + 1)
			delegated = true
			out()
		case "next", "post":
			m.run(i + 1)
			delegated = true
			out()
			if s.kind == "post" && m.status == 0 {
				m.status = s.code
			}
		case "defer":
			delegated = true
			func() {
				defer out()
				m.run(i + 1)
			}()
		case "rescue":
			delegated = true
			func() {
				defer func() {
					if recover() != nil {
						m.put("rescued%d", s.id)
						if m.status == 0 {
							m.status = 500
						}
					}
					out()
				}()
				m.run(i + 1)
			}()
		case "write":
			m.set(s.code, s.form%3 != 0)
		}
		if delegated || m.status != 0 {
			return
		}
	}
}

var codes = []int{200, 201, 204, 302, 304, 404, 418, 503}

func one(c *h.C) {
	w := &world{c: c}
	id := 0
	mk := func(weights string) step {
		id++
		kinds := map[byte]string{'p': "pass", 'n': "next", 'd': "defer", 'r': "rescue", 'w': "write", 'o': "post", 'm': "missing", '!': "panic", 'e': "early"}
		return step{id, kinds[weights[c.IntN(len(weights))]], codes[c.IntN(len(codes))], c.IntN(21)}
	}
	gen := func(max int) (l []step) {
		for n := c.IntN(max + 1); n > 0; n-- {
			l = append(l, mk("pppppppnnnnnddrwoom!e"))
		}
		return
	}
	sp, _ := h.NewApp()
	n := 42
	sp.Provide(&n)
	sp.Provide(func() *Tok { return &Tok{7} })
	sp.ProvideAs(func() string { return "p" }, (*string)(nil))
	appSteps, grp, own, nf := gen(4), gen(2), gen(4), gen(3)
	if c.IntN(500) == 0 { // a long chain
		for len(own) < 300 {
			own = append(own, mk("pppn"))
		}
	}
	action := mk("pppppppwwwwm!")
	for _, s := range appSteps {
		sp.Filter(w.filter(s))
	}
	var nfs []interface{}
	for _, s := range nf {
		nfs = append(nfs, w.filter(s))
	}
	sp.NotFound(nfs...)
	var gf, of []interface{}
	for _, s := range grp {
		gf = append(gf, w.filter(s))
	}
	for _, s := range own {
		of = append(of, w.filter(s))
	}
	act := w.fn(action)
	if _, ok := act.(inject.Provide); ok {
		act = func(m *Missing) {}
	}
	sp.Routers(strip.Filter(gf...), strip.Router("/x", strip.Get(act).Filter(of...)))
	c.Note("app %v group %v own %v action %v notfound %v", appSteps, grp, own, action, nf)
	c.Sig("%v %v %v %v %v", appSteps, grp, own, action, nf)
	cat := func(ls ...[]step) (out []step) {
		for _, l := range ls {
			out = append(out, l...)
		}
		return
	}
	for _, path := range []string{"/x", "/none", "/x"} {
		m := &model{}
		if path == "/x" {
			m.steps = cat(appSteps, grp, own, []step{action})
		} else {
			m.steps = cat(appSteps, nf)
		}
		paniced := false
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(abort); !ok {
						panic(e)
					}
					paniced = true
				}
			}()
			m.run(0)
		}()
		w.ev = nil
		var rp any
		status := 0
		func() {
			defer func() { rp = recover() }()
			req := h.Req("GET", path)
			if c.Chance(20) { // the client is gone or too slow, the chain is the same
				ctx, cancel := gocontext.WithCancel(req.Context())
				if c.Chance(50) {
					ctx, cancel = gocontext.WithDeadline(req.Context(), time.Unix(1, 0))
				}
				cancel()
				req = req.WithContext(ctx)
				c.Count("cancelled", 1)
			}
			status = h.Serve(sp, req).Code
		}()
		c.Eval(1)
		c.Count("steps", len(w.ev))
		got, want := strings.Join(w.ev, " "), strings.Join(m.ev, " ")
		if got != want {
			c.Fail("order", "%s: expected %s\nran %s (panic %v)", path, want, got, rp)
			return
		}
		if (rp != nil) != paniced {
			c.Fail("panic", "%s: expected panic %v, got %v", path, paniced, rp)
			return
		}
		if paniced {
			c.Count("surfaced_panics", 1)
			continue
		}
		if m.status == 0 {
			m.status = 200
		} else {
			c.Count("answered", 1)
		}
		if status != m.status {
			c.Fail("status", "%s: expected status %d, got %d", path, m.status, status)
		}
	}
}

func main() {
	h.Main(h.Spec{
		ID:          "C06",
		Rule:        "random chains of application, group, handler and NotFound filters and an action whose steps pass, delegate, delegate with defer or recover, answer, answer and then delegate, answer afterwards, panic or need something missing, in every accepted function form and with results of types that providers also provide; three requests each; the trace of entries, returns and written flags is compared with a reference execution. Distinct by chain.",
		Assumptions: []string{"a step delegates at most once, and one that recovers a panic answers the request"},
		Run: func(r *h.R) {
			r.Par("chain", r.N(5000, 150000), one)
			r.Loop("chain", r.N(20000, 600000), one)
		},
		Min:         map[string]int64{"steps": 100000, "surfaced_panics": 5000, "answered": 10000},
		MinDistinct: 10000,
	})
}

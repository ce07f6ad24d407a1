package main

import (
	"context"
	"errors"
	"fmt"
	"html"
	"io"
	"net"
	"net/http"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/inject"
	"stripverif/classic"
	"stripverif/h"
)

type Missing struct{}
type Thing struct{ V int }
type Bad struct{ s string }

func (b Bad) Error() string { panic("in Error") }

type Str struct{ S string }

func (s Str) String() string { return "S<" + s.S + ">" }

type Gos struct{ S string }

func (s Gos) GoString() string { return "<g>" + s.S }

type evil[T any] struct{ V T }

// value makes a panic value carrying the marker where it can.
func value(c *h.C, marker string) (v any, carries bool) {
	switch c.IntN(19) {
	case 16, 17:
		// what broken connections, deadlines and departed clients give
		sys := []error{syscall.EPIPE, syscall.ECONNRESET, os.ErrDeadlineExceeded, net.ErrClosed, io.ErrUnexpectedEOF}[c.IntN(5)]
		errs := []error{
			&net.OpError{Op: c.Pick("write", "read"), Net: "tcp", Err: os.NewSyscallError(c.Pick("write", "read"), sys)},
			&net.OpError{Op: c.Pick("write", "read"), Net: "tcp", Err: sys},
			sys, io.EOF, io.ErrClosedPipe, context.Canceled, context.DeadlineExceeded,
			http.ErrHandlerTimeout, http.ErrBodyReadAfterClose, http.ErrHijacked, http.ErrContentLength,
			&http.MaxBytesError{Limit: 5}, &os.PathError{Op: "open", Path: "/x", Err: sys},
		}
		err := errs[c.IntN(len(errs))]
		if c.Chance(30) {
			err = fmt.Errorf("wrap: %w", err)
		}
		return err, false
	case 18:
		return []any{true, 404, int64(500), http.StatusText(404), &http.ProtocolError{ErrorString: "x"}, reflect.ValueOf(1), struct{}{}, [0]int{}, 1 + 2i, new(sync.Mutex), make(chan int)}[c.IntN(11)], false
	case 0:
		return marker, true
	case 1:
		return errors.New(marker), true
	case 2:
		return fmt.Errorf("wrap: %w", errors.New(marker)), true
	case 3:
		return struct{ A, B string }{"x", marker}, true
	case 4:
		return &struct{ A string }{marker}, true
	case 5:
		return []string{"a", marker}, true
	case 6:
		return map[string]string{marker: marker}, true
	case 7:
		return Str{marker}, true
	case 8:
		return Gos{marker}, true
	case 9:
		return Bad{marker}, false
	case 10:
		return 42, false
	case 11:
		return http.ErrAbortHandler, false
	case 12:
		return evil[struct {
			X int `json:"<img src=x>"`
		}]{}, false
	case 13:
		return nil, false
	case 14:
		return func() {}, false
	default:
		return strip.HeaderPoweredBy + "%s%d%!(EXTRA" + marker, true
	}
}

type adaptor struct{ http.ResponseWriter }

func one(c *h.C) {
	markers := []string{"MARK<script>alert(1)</script>", "MARK\"'><img src=x onerror=1>&amp;", "MARKplain", "MARK\n<b>\r\n/x (y", "MARK</title></h1></pre></div><i>", "MARK%s%n\x00\xff"}
	marker := markers[c.IntN(len(markers))]
	val, carries := value(c, marker)
	mode := []strip.Mode{strip.ModeDev, strip.ModeProd, strip.ModeTest, "", "production", "DEV"}[c.IntN(6)]
	dev := mode == strip.ModeDev
	sp, sink := h.NewApp()
	sp.Config.RunMode = mode
	armed := true
	boom := func(rw http.ResponseWriter) {
		if !armed {
			return
		}
		switch c.IntN(5) {
		case 0:
			var m map[string]int
			if val == nil {
				m["x"] = 1
			}
		case 1:
			if val == nil {
				var p *Thing
				_ = p.V
			}
		case 2:
			func() { defer func() { panic(val) }() }()
		case 3:
			evilPlace(val)
		case 4:
			shortPlace(val)
		}
		panic(val)
	}
	points := []string{"app", "group", "own", "action", "struct", "provider", "after", "afteraction", "notfound", "hook", "nested"}
	point := points[c.IntN(len(points))]
	pre := c.Chance(35) // the response is written before the panic
	preStatus, preBody := []int{200, 201, 404, 503}[c.IntN(4)], c.Pick("", "hello", strings.Repeat("z", 3000))
	write := func(rw http.ResponseWriter) {
		rw.Header().Set("X-Pre", "1")
		rw.WriteHeader(preStatus)
		if preBody != "" {
			rw.Write([]byte(preBody))
		}
	}
	reqLog := c.Chance(30)
	rsink := &h.LogSink{}
	wrapped := c.Chance(15)
	if c.Chance(30) {
		sp.Filter(func(rw http.ResponseWriter) { rw.Header().Set("X-First", "1") })
	}
	if reqLog {
		sp.Filter(func(ctx strip.Context) {
			if armed {
				ctx.ProvideAs(strip.NewReqLogger(rsink, "rid"), (*strip.Logger)(nil))
			}
		})
	}
	badlog := !reqLog && c.Chance(6)
	if badlog {
		sp.Filter(func(ctx strip.Context) {
			if armed {
				ctx.ProvideAs(func(m *Missing) strip.Logger { return nil }, (*strip.Logger)(nil))
			}
		})
	}
	sp.Filter(strip.RecoveryFilter())
	twice := c.Chance(20)
	if twice {
		sp.Filter(func(ctx strip.Context) { ctx.Next() })
		sp.Filter(inject.Provide{strip.RecoveryFilter()})
	}
	if wrapped && point != "nested" {
		sp.Filter(func(ctx strip.Context, rw http.ResponseWriter) {
			if armed {
				ctx.ProvideAs(&adaptor{rw}, (*http.ResponseWriter)(nil))
			}
		})
	} else {
		wrapped = false
	}
	path := "/x"
	here := func(p string) func(ctx strip.Context, rw http.ResponseWriter) {
		return func(ctx strip.Context, rw http.ResponseWriter) {
			if point == p && armed {
				if pre {
					write(rw)
				}
				boom(rw)
			}
		}
	}
	sp.Filter(here("app"))
	sp.Filter(func(ctx strip.Context, rw http.ResponseWriter) {
		ctx.Next()
		if armed && (point == "after") {
			if pre && !ctx.Written() {
				write(rw)
			}
			boom(rw)
		}
	})
	if point == "provider" {
		sp.Provide(func() *Thing {
			if armed {
				panic(val)
			}
			return &Thing{1}
		})
	} else {
		sp.Provide(&Thing{1})
	}
	var own []interface{}
	if point == "nested" {
		own = append(own, strip.RecoveryFilter())
	}
	own = append(own, here("own"), func(ctx strip.Context, rw http.ResponseWriter) {
		ctx.Next()
		if armed && point == "afteraction" {
			if pre && !ctx.Written() {
				write(rw)
			}
			boom(rw)
		}
	})
	act := func(ctx strip.Context, rw http.ResponseWriter, t *Thing) {
		if armed && (point == "action" || point == "nested") {
			if pre {
				write(rw)
			}
			boom(rw)
		}
		if armed && point == "hook" {
			rw.(strip.ResponseWriter).Before(func(strip.ResponseWriter) { boom(rw) })
			rw.Write([]byte("late"))
		}
		if (point != "after" && point != "afteraction") || !armed {
			rw.WriteHeader(202)
			rw.Write([]byte("fine"))
		}
	}
	var hd strip.MethodHandler = strip.Get(act)
	if point == "struct" {
		hd = strip.Get(&ctl{f: act, boom: func(rw http.ResponseWriter) {
			if armed {
				if pre {
					write(rw)
				}
				boom(rw)
			}
		}})
	}
	sp.Routers(strip.Filter(here("group")), strip.Router("/x", hd.Filter(own...)))
	sp.NotFound(here("notfound"), func(rw http.ResponseWriter) { rw.WriteHeader(404); rw.Write([]byte("nf")) })
	if point == "notfound" {
		path = "/none"
	}
	if point == "provider" || point == "hook" {
		pre = false
	}
	if wrapped {
		// a foreign writer is refused by the router itself
		if point != "app" {
			pre, carries = false, false
		}
	}
	c.Note("mode %q point %s pre %v(%d %q) reqlog %v badlog %v twice %v wrapped %v value %T", mode, point, pre, preStatus, h.Short(preBody), reqLog, badlog, twice, wrapped, val)
	c.Sig("%q %s %v %d %d %v %v %v %T %q", mode, point, pre, preStatus, len(preBody), reqLog, badlog, twice, val, marker)

	// the client is gone, or its time is over, and handlers panic with just that
	var gone context.Context
	if c.Chance(12) {
		ctx, cancel := context.WithTimeout(context.Background(), []time.Duration{time.Hour, -time.Second}[c.IntN(2)])
		cancel()
		gone = ctx
		if c.Chance(60) && !carries && val != nil {
			val = ctx.Err()
		}
		c.Count("client_gone", 1)
	}

	var esc any
	rec := func() (r *respRec) {
		defer func() { esc = recover() }()
		rq := h.Req("GET", path)
		if gone != nil {
			rq = rq.WithContext(gone)
		}
		w := h.Serve(sp, rq)
		return &respRec{w.Code, w.Body.String(), w.Header(), w.Result().Header}
	}()
	c.Eval(1)
	if esc != nil {
		c.Fatal("escaped", "the panic escaped: %v", esc)
	}
	c.Count("panics", 1)
	if pre {
		c.Count("already_written", 1)
		if rec.code != preStatus || rec.body != preBody || rec.sent.Get("X-Pre") == "" {
			c.Fail("overwritten", "an already written %d %q became %d %q", preStatus, h.Short(preBody), rec.code, h.Short(rec.body))
		}
	} else {
		if rec.code != 500 {
			c.Fail("status", "status %d", rec.code)
		}
		if !dev {
			all := rec.body + fmt.Sprint(rec.sent)
			for _, leak := range []string{"MARK", "goroutine", ".go:", "PANIC", "main.", "runtime", "panic", "Error"} {
				if strings.Contains(all, leak) {
					c.Fail("leak", "outside development the response contains %q: %q", leak, h.Short(all))
				}
			}
		} else {
			c.Count("dev_pages", 1)
			body := rec.body
			if carries && !strings.Contains(body, "MARK") {
				c.Fail("dev-missing", "the page does not show the panic value: %q", h.Short(body))
			}
			if !strings.Contains(body, ".go:") {
				c.Fail("dev-stack", "the page does not show the stack")
			}
			for _, raw := range []string{"<script", "<img", "<b>", "<i>", "<g>", "S<", "</title></h1>", "'><"} {
				if strings.Contains(body, raw) {
					c.Fail("unescaped", "the page contains the unescaped %q of the panic value", raw)
				}
			}
			if carries && marker == markers[0] && !strings.Contains(body, html.EscapeString(marker)) {
				c.Fail("dev-escape", "the page does not contain the escaped value")
			}
			if n := strings.Count(body, "<h1>"); n != 1 {
				c.Fail("dev-markup", "%d headings", n)
			}
		}
	}
	// logged once, on the request's logger
	count := func(s *h.LogSink) (n int) {
		for _, r := range s.All() {
			if strings.Contains(r, "PANIC") {
				n++
			}
		}
		return
	}
	a, b := count(sink), count(rsink)
	if reqLog {
		a, b = b, a
	}
	if !badlog && (a != 1 || b != 0) {
		c.Fail("logged", "logged %d times on the request's logger, %d elsewhere", a, b)
	}
	if !badlog && carries && marker == markers[2] {
		l := sink
		if reqLog {
			l = rsink
		}
		if !strings.Contains(strings.Join(l.All(), ""), "MARKplain") {
			c.Fail("log-value", "the log does not show the value")
		}
	}
	// following requests are unaffected
	armed = false
	w := h.Serve(sp, h.Req("GET", "/x"))
	if w.Code != 202 || w.Body.String() != "fine" {
		c.Fail("following", "the following request got %d %q", w.Code, h.Short(w.Body.String()))
	}
	w = h.Serve(sp, h.Req("GET", "/none"))
	if w.Code != 404 {
		c.Fail("following", "the following request for nothing got %d", w.Code)
	}
}

type respRec struct {
	code int
	body string
	hdr  http.Header
	sent http.Header
}

type ctl struct {
	f    func(ctx strip.Context, rw http.ResponseWriter, t *Thing)
	boom func(rw http.ResponseWriter)
	Ctx  strip.Context       `inject`
	RW   http.ResponseWriter `inject`
	T    *Thing              `inject`
}

func (x *ctl) Get() {
	x.boom(x.RW)
	x.f(x.Ctx, x.RW, x.T)
}

var _ runtime.Error

func main() {
	h.Main(h.Spec{
		ID:          "C08",
		Rule:        "panics with 40 kinds of values (markup, wrapped errors, structs, Stringers, a panicking Error method, generic types, nil, runtime errors, errors of broken connections, deadlines and departed clients) raised in application, group and handler filters, before and after the action, in function and struct actions, providers, NotFound filters and before-write hooks, with fresh or already written responses, six run modes, request loggers, unusable loggers, doubled recovery and foreign writers; the response, log and following requests are checked. Distinct by case parameters.",
		Assumptions: []string{"a status that was set counts as a written response", "values that fmt cannot print (cyclic maps) are out of scope"},
		Run: func(r *h.R) {
			r.Loop("classic", r.N(300, 10000), classic.Panics)
			r.Loop("site", r.N(300, 3000), site)
			r.Par("panic", r.N(1200, 50000), one)
			r.Loop("panic", r.N(5000, 200000), one)
		},
		Min:         map[string]int64{"classic_panics": 100, "panics": 4000, "already_written": 800, "client_gone": 300, "dev_pages": 500},
		MinDistinct: 3000,
	})
}

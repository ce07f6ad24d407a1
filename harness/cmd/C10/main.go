package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/wujiu2020/strip"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/helpers"
	"stripverif/h"
)

type A struct{ N int }
type B struct{ N int }
type Num int
type Iface interface{ Get() int }

func (a A) Get() int { return a.N }

type List []int
type WithFn func() int

// kind is one type stored under CtxWithValue.
type kind struct {
	name string
	// put stores the value n in the form (0 value, 1 pointer, 2 nil pointer)
	put func(ctx context.Context, form, n int, name ...string) context.Context
	// get reads in a form and returns the value, the error, whether dest was left alone
	get func(ctx context.Context, form int, name ...string) (n int, err error, same bool)
}

func mk[T any](name string, to func(int) T, of func(T) int) kind {
	return kind{name,
		func(ctx context.Context, form, n int, nm ...string) context.Context {
			v := to(n)
			p := &v
			switch form {
			case 1:
				return utils.CtxWithValue(ctx, &p, nm...)
			case 2:
				p = nil
				return utils.CtxWithValue(ctx, &p, nm...)
			}
			return utils.CtxWithValue(ctx, &v, nm...)
		},
		func(ctx context.Context, form int, nm ...string) (int, error, bool) {
			before := to(-7)
			if form == 0 {
				v := before
				err := utils.CtxFindValue(ctx, &v, nm...)
				return of(v), err, of(v) == -7
			}
			p := &before
			err := utils.CtxFindValue(ctx, &p, nm...)
			if p == nil {
				return 0, err, false
			}
			return of(*p), err, p == &before && of(*p) == -7
		}}
}

func kinds() []kind {
	type L struct{ N int }
	l1 := mk("local L 1", func(n int) L { return L{n} }, func(v L) int { return v.N })
	var l2 kind
	func() {
		type L struct{ N, M int }
		l2 = mk("local L 2", func(n int) L { return L{n, n} }, func(v L) int { return v.M })
	}()
	sl := func(v []int) int { return v[0] }
	return []kind{
		mk("A", func(n int) A { return A{n} }, func(v A) int { return v.N }),
		mk("B", func(n int) B { return B{n} }, func(v B) int { return v.N }),
		mk("Num", func(n int) Num { return Num(n) }, func(v Num) int { return int(v) }),
		mk("Iface", func(n int) Iface { return A{n} }, func(v Iface) int { return v.Get() }),
		mk("List", func(n int) List { return List{n} }, func(v List) int { return v[0] }),
		mk("[]int", func(n int) []int { return []int{n} }, sl),
		mk("[]int8", func(n int) []int16 { return []int16{int16(n)} }, func(v []int16) int { return int(v[0]) }),
		mk("map", func(n int) map[string]int { return map[string]int{"": n} }, func(v map[string]int) int { return v[""] }),
		mk("[1]int", func(n int) [1]int { return [1]int{n} }, func(v [1]int) int { return v[0] }),
		mk("WithFn", func(n int) WithFn { return func() int { return n } }, func(v WithFn) int { return v() }),
		mk("Time", func(n int) time.Time { return time.Unix(int64(n), 0) }, func(v time.Time) int { return int(v.Unix()) }),
		mk("http.Request", func(n int) http.Request { return http.Request{ContentLength: int64(n)} }, func(v http.Request) int { return int(v.ContentLength) }),
		mk("anon", func(n int) struct{ N int } { return struct{ N int }{n} }, func(v struct{ N int }) int { return v.N }),
		l1, l2,
	}
}

type stored struct{ form, n int }

func values(c *h.C) {
	ks := kinds()
	names := []string{"", "x", "y", "X", "A", "a", ":", "x:", " x"}
	type node struct {
		ctx context.Context
		m   map[string]stored
	}
	nodes := []node{{context.Background(), map[string]stored{}}}
	hits, misses := 0, 0
	sig := ""
	for i, n := 0, 5+c.IntN(40); i < n; i++ {
		nd := nodes[c.IntN(len(nodes))]
		ki := c.IntN(len(ks))
		if c.Chance(50) {
			ki = c.IntN(4)
		}
		k := ks[ki]
		nm := c.Pick(names...)
		var nms []string
		if nm != "" || c.Chance(50) {
			nms = []string{nm}
		}
		key := k.name + "|" + nm
		if len(nd.m) > 0 && c.Chance(50) { // aim at something stored
			want := c.IntN(len(nd.m))
			var ss []string
			for s := range nd.m {
				ss = append(ss, s)
			}
			sort.Strings(ss)
			a, b, _ := strings.Cut(ss[want], "|")
			for i := range ks {
				if ks[i].name == a {
					k, ki = ks[i], i
				}
			}
			nm, nms, key = b, []string{b}, ss[want]
		}
		if c.Chance(45) {
			form := c.IntN(2)
			if c.Chance(5) {
				form = 2
			}
			ctx := k.put(nd.ctx, form, i+1, nms...)
			if c.Chance(20) {
				var cancel func()
				ctx, cancel = context.WithCancel(ctx)
				defer cancel()
			}
			m := map[string]stored{}
			for a, b := range nd.m {
				m[a] = b
			}
			m[key] = stored{form, i + 1}
			nodes = append(nodes, node{ctx, m})
			c.Note("node %d: put %s form %d = %d", len(nodes)-1, key, form, i+1)
			sig += fmt.Sprintf("p%d.%d%s;", ki, form, nm)
			continue
		}
		form := c.IntN(2)
		st, ok := nd.m[key]
		got, err, same := k.get(nd.ctx, form, nms...)
		c.Count("lookups", 1)
		sig += fmt.Sprintf("g%d.%d%s%v;", ki, form, nm, ok)
		switch {
		case !ok:
			misses++
			if !errors.Is(err, utils.CtxValueNotFound) || !same {
				c.Fatal("miss", "looking up %s form %d: got %d err %v untouched %v, want not found and untouched", key, form, got, err, same)
			}
		case st.form == 2:
			// a nil pointer was stored: there is no value to give
			if form == 0 && !same {
				c.Fatal("nil", "looking up %s: a stored nil pointer changed a value destination to %d", key, got)
			}
		default:
			hits++
			if err != nil || got != st.n {
				c.Fatal("hit", "looking up %s form %d (stored form %d): got %d err %v, want %d", key, form, st.form, got, err, st.n)
			}
		}
		must := func() (p bool) {
			defer func() { p = recover() != nil }()
			if ki == 0 {
				var a A
				utils.MustCtxFindValue(nd.ctx, &a, nms...)
			}
			return
		}()
		if ki == 0 && st.form != 2 && must != !ok {
			c.Fatal("must", "MustCtxFindValue %s panicked %v, stored %v", key, must, ok)
		}
	}
	c.Count("hits", hits)
	c.Count("misses", misses)
	if hits > 0 && misses > 0 {
		c.Sig("values %s", sig)
	}
}

type ck string

// step is what a filter of the chain does to the context.
type step struct {
	op   string
	pos  string
	name string
}

func requests(c *h.C) {
	sp, _ := h.NewApp()
	base, cancel := context.WithCancelCause(context.Background())
	defer cancel(nil)
	var deadline time.Time
	inner := base
	if c.Chance(50) {
		deadline = time.Now().Add(time.Hour + time.Duration(c.IntN(1000))*time.Second)
		var cf func()
		inner, cf = context.WithDeadline(inner, deadline)
		defer cf()
	}
	inner = context.WithValue(inner, ck("base"), "B")
	cause := errors.New("cause")
	cancelAt := c.IntN(6)
	pos := 0
	// model of the current context
	vals := map[string]string{"base": "B"}
	dl := deadline
	cancelled := false
	typed := map[string]int{}
	var cancels []func()
	defer func() {
		for _, f := range cancels {
			f()
		}
	}()
	sig := ""
	var rootReq *http.Request
	hasLogger := false
	check := func(where string, ctx context.Context, viaReq bool) {
		c.Count("context_checks", 1)
		for _, k := range []string{"base", "k0", "k1", "k2", "k3", "k4", "zz"} {
			w, ok := vals[k]
			if viaReq && k != "base" {
				continue
			}
			g := ctx.Value(ck(k))
			if ok && g != w || !ok && g != nil {
				c.Fatal("value", "%s: context value %s is %v, want %q", where, k, g, w)
			}
		}
		wd := dl
		if viaReq {
			wd = deadline
		}
		d, ok := ctx.Deadline()
		if ok != !wd.IsZero() || ok && !d.Equal(wd) {
			c.Fatal("deadline", "%s: deadline %v %v, want %v", where, d, ok, wd)
		}
		done := false
		select {
		case <-ctx.Done():
			done = true
		default:
		}
		if done != cancelled || (ctx.Err() != nil) != cancelled {
			c.Fatal("cancel", "%s: done %v err %v, want cancelled %v", where, done, ctx.Err(), cancelled)
		}
		if cancelled && ctx.Err() != context.Canceled {
			c.Fatal("cancel", "%s: err %v", where, ctx.Err())
		}
		if cancelled && context.Cause(ctx) != cause {
			c.Fatal("cause", "%s: cause %v", where, context.Cause(ctx))
		}
		if !viaReq {
			for nm, n := range typed {
				var a A
				if err := utils.CtxFindValue(ctx, &a, nm); err != nil || a.N != n {
					c.Fatal("typed", "%s: typed value %q is %v (%v), want %d", where, nm, a, err, n)
				}
			}
			var b B
			if err := utils.CtxFindValue(ctx, &b); err != utils.CtxValueNotFound {
				c.Fatal("typed-miss", "%s: value of a type never stored: %v", where, err)
			}
		}
		var lg strip.Logger
		if err := utils.CtxFindValue(ctx, &lg); err == nil != hasLogger {
			c.Fatal("logger", "%s: request logger in the context: %v, installed before: %v", where, err, hasLogger)
		}
		// the application's own context
		var app strip.Context
		if err := utils.CtxFindValue(ctx, &app); err != nil || app == nil {
			c.Fatal("appctx", "%s: application context not found: %v", where, err)
		}
		var r *http.Request
		if err := app.Find(&r, ""); err != nil || r.Header.Get("X-Tok") != rootReq.Header.Get("X-Tok") {
			c.Fatal("appctx", "%s: the context found belongs to another request: %v", where, err)
		}
		if g := app.Value(ck("base")); g != "B" {
			c.Fatal("appctx", "%s: the application context found has base value %v", where, g)
		}
	}
	maybeCancel := func() {
		if pos == cancelAt && !cancelled {
			cancel(cause)
			cancelled = true
			sig += "C"
		}
		pos++
	}
	nKey := 0
	logger := c.IntN(4)
	act := func(where string, ctx strip.Context, mutate bool) {
		hasLogger = logger == 0 || logger == 1 && !strings.HasPrefix(where, "app")
		maybeCancel()
		check(where, ctx, false)
		check(where+" GetContext", ctx.GetContext(), false)
		if !mutate {
			return
		}
		switch c.IntN(5) {
		case 0, 1:
			k := fmt.Sprint("k", nKey)
			nKey++
			if nKey > 4 {
				nKey = 4
			}
			v := fmt.Sprint("v", c.IntN(1000))
			ctx.ReplaceContext(context.WithValue(ctx.GetContext(), ck(k), v))
			vals[k] = v
			sig += "V"
		case 2:
			t := time.Now().Add(time.Duration(1+c.IntN(7200)) * time.Second)
			if dl.IsZero() || t.Before(dl) {
				n, cf := context.WithDeadline(ctx.GetContext(), t)
				cancels = append(cancels, cf)
				ctx.ReplaceContext(n)
				dl = t
				sig += "D"
			}
		case 3:
			nm := c.Pick("", "a", "b", "A")
			a := A{c.IntN(1000) + 1}
			p := &a
			if c.Chance(50) {
				ctx.ReplaceContext(utils.CtxWithValue(ctx.GetContext(), &a, nm))
			} else {
				ctx.ReplaceContext(utils.CtxWithValue(ctx.GetContext(), &p, nm))
			}
			typed[nm] = a.N
			sig += "T"
		default:
			sig += "-"
		}
		c.Note("%s mutated: %s", where, sig)
		check(where+" after", ctx, false)
	}
	if logger == 0 {
		sp.Filter(reqlogger.ReqLoggerFilter(&h.LogSink{}))
	}
	nf := c.IntN(3)
	for i := 0; i < nf; i++ {
		i := i
		sp.Filter(func(ctx strip.Context, req *http.Request) {
			act(fmt.Sprint("app filter ", i), ctx, true)
			check("request of app filter", req.Context(), true)
			if c.Chance(50) {
				ctx.Next()
			}
		})
	}
	var fs []any
	if logger == 1 {
		fs = append(fs, reqlogger.ReqLoggerFilter(&h.LogSink{}))
	}
	ng := c.IntN(3)
	for i := 0; i < ng; i++ {
		i := i
		fs = append(fs, func(ctx strip.Context, req *http.Request) {
			act(fmt.Sprint("route filter ", i), ctx, true)
			if c.Chance(50) {
				ctx.Next()
			}
		})
	}
	ran := false
	action := strip.Get(func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
		ran = true
		act("action", ctx, c.Chance(30))
		check("request of action", req.Context(), true)
		io.WriteString(rw, "ok")
	})
	sp.Routers(strip.Router("/x", strip.Filter(fs...), action))
	sp.NotFound(append(fs, func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
		ran = true
		act("notfound", ctx, false)
		rw.WriteHeader(404)
	})...)
	path := "/x"
	c.Note("logger %d app %d group %d", logger, nf, ng)
	if c.Chance(20) {
		path = "/none"
	}
	req := httptest.NewRequest("GET", path, nil).WithContext(inner)
	req.Header.Set("X-Tok", fmt.Sprint(c.Uint64()))
	rootReq = req
	sp.ServeHTTP(httptest.NewRecorder(), req)
	if !ran {
		c.Fatal("not-run", "the action did not run")
	}
	c.Sig("request logger%d app%d group%d %s %s", logger, nf, ng, path, sig)
}

// a logger stored for the helpers is the one they give back, whatever else
// happens to the context
func loggers(c *h.C) {
	type node struct {
		ctx context.Context
		log strip.Logger
	}
	nodes := []node{{context.Background(), helpers.X}}
	sig := ""
	for i := 2 + c.IntN(10); i > 0; i-- {
		n := nodes[c.IntN(len(nodes))]
		switch op := c.IntN(5); op {
		case 0, 1:
			l := strip.NewReqLogger(&h.LogSink{}, fmt.Sprint(i))
			n = node{helpers.WithLogger(n.ctx, l), l}
			sig += "W"
		case 2:
			ctx, cancel := context.WithCancel(n.ctx)
			cancel()
			n.ctx = ctx
			sig += "C"
		case 3:
			n.ctx = utils.CtxWithValue(n.ctx, &A{i})
			sig += "V"
		case 4:
			var l strip.Logger = strip.NewReqLogger(&h.LogSink{}, "named")
			n.ctx = utils.CtxWithValue(n.ctx, &l, "named")
			sig += "N"
		}
		nodes = append(nodes, n)
		for _, n := range nodes {
			if got := helpers.GetLogger(n.ctx); got != n.log {
				c.Fatal("logger", "%s: the logger of the context is another one than stored", sig)
			}
			c.Count("logger_lookups", 1)
		}
	}
	c.Sig("loggers %s", sig)
}

// real cancellation and deadline over a real connection, several requests at once
func wire(c *h.C) {
	sp, _ := h.NewApp()
	entered := make(chan string, 16)
	result := make(chan string, 16)
	sp.Filter(func(ctx strip.Context, req *http.Request) {
		n, cf := context.WithTimeout(context.WithValue(ctx.GetContext(), ck("t"), req.Header.Get("X-Tok")), time.Hour)
		_ = cf
		a := A{len(req.Header.Get("X-Tok"))}
		ctx.ReplaceContext(utils.CtxWithValue(n, &a))
		ctx.Next()
		cf()
	})
	sp.Routers(strip.Router("/wait", strip.Get(func(ctx strip.Context, req *http.Request, rw http.ResponseWriter) {
		tok := req.Header.Get("X-Tok")
		entered <- tok
		select {
		case <-ctx.Done():
		case <-time.After(20 * time.Second):
			result <- tok + " never cancelled"
			return
		}
		var a A
		err := utils.CtxFindValue(ctx, &a)
		if ctx.Value(ck("t")) != tok || err != nil || a.N != len(tok) {
			result <- fmt.Sprint(tok, " saw ", ctx.Value(ck("t")), a, err)
			return
		}
		if ctx.Err() != context.Canceled {
			result <- fmt.Sprint(tok, " err ", ctx.Err())
			return
		}
		result <- ""
	})))
	srv := httptest.NewServer(sp)
	defer srv.Close()
	n := 1 + c.IntN(6)
	var wg sync.WaitGroup
	var cancels []func()
	for i := 0; i < n; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		cancels = append(cancels, cancel)
		req, _ := http.NewRequestWithContext(ctx, "GET", srv.URL+"/wait", nil)
		req.Header.Set("X-Tok", fmt.Sprintf("%0*d", i+1, i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			resp, err := http.DefaultClient.Do(req)
			if err == nil {
				resp.Body.Close()
			}
		}()
	}
	for i := 0; i < n; i++ {
		<-entered
	}
	for _, i := range c.Perm(n) {
		cancels[i]()
		if s := <-result; s != "" {
			c.Fatal("wire", "request cancelled by its client: %s", s)
		}
		c.Count("client_cancellations", 1)
	}
	wg.Wait()
	c.Sig("wire %d", n)
}

func main() {
	h.Main(h.Spec{
		ID:          "C10",
		Rule:        "values: trees of contexts with typed values stored and looked up (17 types incl. unnamed and equally named local ones, value/pointer/nil forms, 9 names) against a map; a case counts when it has hits and misses. requests: filter chains at app, route and NotFound level that replace the context (values, deadlines, typed values) while the request is cancelled at some step; every step checks the context given against the model. wire: concurrent requests cancelled by real clients",
		Assumptions: []string{"net/http and context of the standard library"},
		Min:         map[string]int64{"hits": 1000, "misses": 1000, "context_checks": 3000, "client_cancellations": 20},
		MinDistinct: 500,
		Run: func(r *h.R) {
			r.Par("values", r.N(3000, 25000), values)
			r.Loop("values", r.N(12000, 100000), values)
			r.Par("requests", r.N(2250, 25000), requests)
			r.Loop("requests", r.N(9000, 100000), requests)
			r.Loop("loggers", r.N(500, 10000), loggers)
			r.Loop("wire", r.N(20, 300), wire)
		},
	})
}

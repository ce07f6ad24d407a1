// C43: applications of one process stay separate.
package main

import (
	"bytes"
	gz "compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/gzip"
	"github.com/wujiu2020/strip/inject"
	"stripverif/h"
)

// trace records what ran for one request.
type trace struct {
	mu sync.Mutex
	s  []string
}

func (t *trace) add(f string, a ...any) {
	t.mu.Lock()
	t.s = append(t.s, fmt.Sprintf(f, a...))
	t.mu.Unlock()
}

type traceKey struct{}

func of(ctx context.Context) *trace { return ctx.Value(traceKey{}).(*trace) }

type val struct{ N int }

type ctl struct {
	Tag string
	V   *val `inject:""`
}

func (x *ctl) Get(a, b string) string {
	old := x.Tag
	x.Tag += "!"
	return fmt.Sprint("ctl ", old, x.V, a, b)
}

func (x *ctl) Post() string { x.Tag += "?"; return fmt.Sprint("post ", x.Tag, x.V) }

// sight tells what a step sees of its application.
func sight(v *val, conf *strip.Config) string {
	return fmt.Sprintf("val %d conf %q port %s", v.N, conf.Find("name"), conf.HttpPort)
}

// pool: values which several applications share.
type pool struct {
	filters  []any
	handlers []strip.Handler
	vals     []*val
	confs    []strip.Configer
	notFound []any
}

type conf map[string]string

func (c conf) Find(name string) string { return c[name] }

// newPool makes equal pools for equal plans.
func newPool(plan plan) *pool {
	p := new(pool)
	for i, kind := range plan.Filters {
		var f any
		plain := func(ctx strip.Context, v *val, conf *strip.Config) { of(ctx).add("f%d %s", i, sight(v, conf)) }
		switch kind {
		case 0:
			f = plain
		case 1:
			f = func(ctx strip.Context, v *val, conf *strip.Config) {
				of(ctx).add("g%d %s", i, sight(v, conf))
				ctx.Next()
				of(ctx).add("end g%d %s", i, sight(v, conf))
			}
		case 2:
			f = strip.FilterFunc(func() inject.Provider { return plain })
		case 3:
			f = inject.Provide{plain}
		case 4:
			f = func(rw http.ResponseWriter) {
				rw.(strip.ResponseWriter).Before(func(rw strip.ResponseWriter) { rw.Header().Add("X-Before", fmt.Sprint(i)) })
			}
		case 5:
			f = func(ctx strip.Context) { ctx.Provide(&val{N: 1000 + i}) }
		case 6:
			f = strip.GenericOutFilter()
		case 7:
			f = gzip.All()
		case 8:
			f = strip.RecoveryFilter()
		}
		p.filters = append(p.filters, f)
	}
	for i, hp := range plan.Handlers {
		path := fmt.Sprintf("/p%d", i)
		hs := []strip.Handler{}
		for k, m := range hp.Methods {
			var mh strip.MethodHandler
			fn := func(ctx strip.Context, v *val, conf *strip.Config, log strip.Logger, ri *strip.RouteInfo) string {
				log.Info(path, k)
				return fmt.Sprintf("h%d.%d %s %v", i, k, sight(v, conf), ri)
			}
			switch m {
			case 0:
				mh = strip.Get(fn)
			case 1:
				mh = strip.Any(fn)
			case 2:
				mh = strip.All(&ctl{Tag: fmt.Sprint("c", i)})
			case 3:
				mh = strip.Post(ctl{Tag: fmt.Sprint("d", i)})
			case 4:
				mh = strip.Get(func(log strip.Logger) { log.Warn(path); panic("bad") })
			}
			for _, f := range hp.Own {
				mh = mh.Filter(p.filters[f])
			}
			for _, f := range hp.Not {
				mh = mh.Exempt(p.filters[f])
			}
			hs = append(hs, mh)
		}
		for _, f := range hp.Group {
			hs = append(hs, strip.Filter(p.filters[f]))
		}
		if hp.Nest {
			hs = append(hs, strip.Router("/:a/x", hs[0], strip.Exempt(p.filters[0])))
		}
		p.handlers = append(p.handlers, strip.Router(path, hs...))
	}
	for i := 0; i < 3; i++ {
		p.vals = append(p.vals, &val{N: i})
		p.confs = append(p.confs, conf{"name": fmt.Sprint("conf", i), "http_port": fmt.Sprint(100 + i)})
		p.notFound = append(p.notFound, func(ctx strip.Context, v *val, conf *strip.Config, rw http.ResponseWriter) {
			of(ctx).add("nf%d %s", i, sight(v, conf))
			rw.WriteHeader(404)
			fmt.Fprintf(rw, "no %d", i)
		})
	}
	return p
}

type plan struct {
	Filters  []int
	Handlers []handlerPlan
}

type handlerPlan struct {
	Methods, Own, Not, Group []int
	Nest                     bool
}

// decl: one declaration of an application.
type decl struct {
	Kind string
	IDs  []int
	Cut  bool // a slice shared with room behind
}

func (d decl) String() string { return fmt.Sprintf("%s%v", d.Kind, d.IDs) }

// apply makes the declaration; shared holds the slices used by all.
func apply(sp *strip.Strip, p *pool, d decl, mount func(k int) http.Handler) {
	switch d.Kind {
	case "filter":
		if d.Cut && len(d.IDs) > 1 && d.IDs[len(d.IDs)-1] == d.IDs[0]+len(d.IDs)-1 {
			sp.Filter(p.filters[d.IDs[0] : d.IDs[0]+len(d.IDs)]...)
			return
		}
		var fs []any
		for _, i := range d.IDs {
			fs = append(fs, p.filters[i])
		}
		sp.Filter(fs...)
	case "routes":
		var hs []strip.Handler
		for _, i := range d.IDs {
			hs = append(hs, p.handlers[i])
		}
		sp.Routers(hs...)
	case "val":
		sp.Provide(p.vals[d.IDs[0]])
	case "conf":
		sp.ImportConfig(p.confs[d.IDs[0]])
	case "notfound":
		sp.NotFound(p.notFound[d.IDs[0]])
	case "mount":
		k := d.IDs[0]
		sp.Routers(strip.Router(fmt.Sprintf("/m%d", k), strip.Router("/*:rest", strip.Any(func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, ri *strip.RouteInfo) {
			var v *val
			ctx.Find(&v, "")
			of(ctx).add("mount %d val %d", k, v.N)
			r := req.Clone(req.Context())
			r.URL.Path = "/" + ri.Get("rest")
			mount(k).ServeHTTP(rw, r)
			var now *val
			ctx.Find(&now, "")
			of(ctx).add("mounted %d val %d %v", k, now.N, ri.Get("rest"))
		}))))
	}
}

type answer struct {
	Code   int
	Header string
	Body   string
	Trace  []string
	Logs   []string
}

func (a answer) String() string {
	return fmt.Sprintf("%d %s %q\n  ran %q\n  logs %q", a.Code, a.Header, a.Body, a.Trace, a.Logs)
}

func request(h http.Handler, method, path string) (a answer) {
	t := new(trace)
	req := httptest.NewRequest(method, path, nil)
	req.Header.Set("Accept-Encoding", "gzip")
	req = req.WithContext(context.WithValue(req.Context(), traceKey{}, t))
	rec := httptest.NewRecorder()
	func() {
		defer func() {
			if e := recover(); e != nil {
				t.add("panic %v", e)
			}
		}()
		h.ServeHTTP(rec, req)
	}()
	a.Code = rec.Code
	var hs []string
	for k, v := range rec.Result().Header {
		hs = append(hs, fmt.Sprint(k, v))
	}
	sort.Strings(hs)
	a.Header = strings.Join(hs, " ")
	a.Body = rec.Body.String()
	if a.Code == 500 {
		// stacks differ
		a.Body = plain(a.Body)
		a.Body = a.Body[:min(len(a.Body), 60)]
	}
	a.Trace = t.s
	return
}

// plain is a body without compression.
func plain(body string) string {
	for {
		zr, err := gz.NewReader(strings.NewReader(body))
		if err != nil {
			return body
		}
		b, err := io.ReadAll(zr)
		if err != nil {
			return body
		}
		body = string(b)
	}
}

// passed is what is comparable of an answer that another application passed on.
func passed(a answer) answer {
	return answer{Code: a.Code, Body: plain(a.Body), Trace: a.Trace}
}

type app struct {
	sp     *strip.Strip
	sink   *h.LogSink
	decls  []decl
	filter []decl // those which make up the filters
	n      int
	dev    bool
}

func newApp(dev bool) *app {
	sp, sink := h.NewApp()
	sp.Config.RunMode = strip.ModeProd
	if dev {
		sp.Config.RunMode = strip.ModeDev
	}
	return &app{sp: sp, sink: sink, dev: dev}
}

// alone makes the application of these declarations with values of its own.
func alone(dev bool, pl plan, filters, decls []decl, mount func(int) http.Handler) *app {
	a := newApp(dev)
	p := newPool(pl)
	for _, d := range filters {
		apply(a.sp, p, d, mount)
	}
	for _, d := range decls {
		apply(a.sp, p, d, mount)
	}
	return a
}

func steps(logs []string) (out []string) {
	for _, l := range logs {
		// without time, request and position
		if i := strings.Index(l, "] "); i >= 0 {
			l = l[i+2:]
		}
		l, _, _ = strings.Cut(l, "\n")
		l, _, _ = strings.Cut(l, "\\n")
		out = append(out, l)
	}
	return
}

func newPlan(c *h.C) (pl plan, fs func(int) []int) {
	for i := 3 + c.IntN(6); i > 0; i-- {
		k := c.IntN(9)
		if k == 7 && !c.Chance(25) {
			k = c.IntN(6)
		}
		pl.Filters = append(pl.Filters, k)
	}
	fs = func(n int) (out []int) {
		for ; n > 0; n-- {
			out = append(out, c.IntN(len(pl.Filters)))
		}
		return
	}
	for i := 2 + c.IntN(4); i > 0; i-- {
		hp := handlerPlan{Own: fs(c.IntN(3)), Not: fs(c.IntN(2)), Group: fs(c.IntN(3)), Nest: c.Chance(40)}
		for _, m := range c.Perm(5)[:1+c.IntN(3)] {
			if m == 4 && !c.Chance(20) {
				m = 1
			}
			hp.Methods = append(hp.Methods, m)
		}
		pl.Handlers = append(pl.Handlers, hp)
	}
	return
}

func world(c *h.C) {
	pl, fs := newPlan(c)
	p := newPool(pl)
	apps := make([]*app, 2+c.IntN(3))
	live := func(k int) http.Handler { return apps[k].sp }
	for i := range apps {
		apps[i] = newApp(c.Chance(40))
		for _, d := range []decl{{Kind: "val", IDs: []int{c.IntN(3)}}, {Kind: "routes", IDs: c.Perm(len(pl.Handlers))[:1+c.IntN(2)]}} {
			apply(apps[i].sp, p, d, live)
			apps[i].decls = append(apps[i].decls, d)
			c.Note("%d: %v", i, d)
		}
	}
	paths := func(k int) string {
		for _, d := range apps[k].decls {
			if d.Kind == "mount" && c.Chance(30) {
				return fmt.Sprintf("/m%d/p%d", d.IDs[0], c.IntN(len(pl.Handlers))) + c.Pick("", "", "/A1/x", "/none")
			}
		}
		i := c.IntN(len(pl.Handlers))
		path := fmt.Sprintf("/p%d", i)
		if c.Chance(30) {
			path += "/A" + c.Pick("1", "2") + "/x"
		}
		if c.Chance(8) {
			path = "/none"
		}
		return path
	}
	// what application k answers when it is the only one
	type soloKey struct{ k, n int }
	solos := map[soloKey]*app{}
	var expected func(k int, method, path string) answer
	expected = func(k int, method, path string) answer {
		a := apps[k]
		s := solos[soloKey{k, a.n}]
		if s == nil {
			s = alone(a.dev, pl, a.filter, a.decls, func(m int) http.Handler {
				// the mounted one answers on its own, what it answers is passed on
				return http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
					x := expected(m, req.Method, req.URL.Path)
					t := of(req.Context())
					failed := ""
					for _, l := range x.Trace {
						if e, ok := strings.CutPrefix(l, "panic "); ok {
							failed = e
							continue
						}
						t.add("%s", l)
					}
					if failed != "" {
						panic(failed)
					}
					rw.WriteHeader(x.Code)
					rw.Write([]byte(plain(x.Body)))
				})
			})
			solos[soloKey{k, a.n}] = s
		}
		s.sink.Reset()
		x := request(s.sp, method, path)
		x.Logs = steps(s.sink.All())
		return x
	}
	check := func(k int, method, path string) {
		want := expected(k, method, path)
		for _, a := range apps {
			a.sink.Reset()
		}
		got := request(apps[k].sp, method, path)
		got.Logs = steps(apps[k].sink.All())
		if strings.HasPrefix(path, "/m") {
			c.Count("mounted", 1)
			got, want = passed(got), passed(want)
		}
		c.Eval(1)
		c.Count("requests", 1)
		c.Count("steps", len(got.Trace))
		if got.String() != want.String() {
			c.Fatal("differs", "%s %s on application %d\nalone: %v\nbeside the others: %v", method, path, k, want, got)
		}
		for i, a := range apps {
			if i != k && !strings.HasPrefix(path, "/m") && len(a.sink.All()) > 0 {
				c.Fatal("foreign log", "%s %s on application %d logs at application %d: %q", method, path, k, i, a.sink.All())
			}
		}
		c.Sig("%s %s %v %v", method, path, apps[k].filter, got.Trace)
	}
	for n := 10 + c.IntN(25); n > 0; n-- {
		k := c.IntN(len(apps))
		a := apps[k]
		d := decl{}
		switch c.IntN(13) {
		case 0, 1, 2:
			d = decl{Kind: "filter", IDs: fs(1 + c.IntN(3))}
			if c.Chance(40) {
				m := 1 + c.IntN(len(pl.Filters))
				b := c.IntN(len(pl.Filters) - m + 1)
				d = decl{Kind: "filter", Cut: true}
				for i := 0; i < m; i++ {
					d.IDs = append(d.IDs, b+i)
				}
			}
			a.filter = append(a.filter, d)
			a.n++
			apply(a.sp, p, d, live)
			c.Note("%d: %v", k, d)
			continue
		case 3, 4:
			for _, i := range c.Perm(len(pl.Handlers))[:1+c.IntN(2)] {
				d.IDs = append(d.IDs, i)
			}
			d.Kind = "routes"
		case 5:
			d = decl{Kind: c.Pick("val", "conf", "notfound"), IDs: []int{c.IntN(3)}}
		case 6, 7:
			if k > 0 && c.Chance(65) {
				d = decl{Kind: "mount", IDs: []int{c.IntN(k)}}
				break
			}
			// as many filters as the other has now
			o := c.IntN(len(apps))
			strip.ReplaceFilters(a.sp, apps[o].sp)
			a.filter = append([]decl{}, apps[o].filter...)
			a.n++
			c.Note("%d: filters of %d", k, o)
			c.Count("replaced", 1)
			continue
		default:
			m, path := c.Pick("GET", "GET", "POST", "PUT"), paths(k)
			c.Note("%d: %s %s", k, m, path)
			check(k, m, path)
			continue
		}
		a.decls = append(a.decls, d)
		a.n++
		apply(a.sp, p, d, live)
		c.Note("%d: %v", k, d)
	}
	// all at once
	type job struct {
		k            int
		method, path string
		want, got    answer
	}
	jobs := make([]*job, 24)
	for i := range jobs {
		j := &job{k: c.IntN(len(apps)), method: c.Pick("GET", "GET", "POST", "PUT")}
		j.path = paths(j.k)
		j.want = expected(j.k, j.method, j.path)
		j.want.Logs = nil
		if strings.HasPrefix(j.path, "/m") {
			j.want = passed(j.want)
		}
		jobs[i] = j
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < len(jobs); i += 4 {
				jobs[i].got = request(apps[jobs[i].k].sp, jobs[i].method, jobs[i].path)
			}
		}()
	}
	wg.Wait()
	for _, j := range jobs {
		c.Eval(1)
		c.Count("concurrent", 1)
		if strings.HasPrefix(j.path, "/m") {
			j.got = passed(j.got)
		}
		if j.got.String() != j.want.String() {
			c.Fatal("differs at once", "%s %s on application %d among others\nalone: %v\nwith the others: %v", j.method, j.path, j.k, j.want, j.got)
		}
	}
}

// order is what a process of its own answers to.
type order struct {
	Plan     plan
	Dev      bool
	Filters  []decl
	Decls    []decl
	Requests [][2]string
}

func answers(o order) (as []answer) {
	a := alone(o.Dev, o.Plan, o.Filters, o.Decls, nil)
	for _, r := range o.Requests {
		a.sink.Reset()
		x := request(a.sp, r[0], r[1])
		x.Body, x.Logs = plain(x.Body), steps(a.sink.All())
		as = append(as, x)
	}
	return
}

// apart compares with processes that have one application each.
func apart(c *h.C) {
	pl, fs := newPlan(c)
	p := newPool(pl)
	orders := make([]order, 2+c.IntN(3))
	apps := make([]*app, len(orders))
	for i := range orders {
		o := order{Plan: pl, Dev: c.Chance(50), Filters: []decl{{Kind: "filter", IDs: fs(1 + c.IntN(3))}}}
		o.Decls = []decl{{Kind: "val", IDs: []int{c.IntN(3)}}, {Kind: "routes", IDs: c.Perm(len(pl.Handlers))[:1+c.IntN(2)]}}
		for n := c.IntN(3); n > 0; n-- {
			o.Decls = append(o.Decls, decl{Kind: c.Pick("val", "conf", "notfound"), IDs: []int{c.IntN(3)}})
		}
		orders[i] = o
		apps[i] = newApp(o.Dev)
		for _, d := range append(append([]decl{}, o.Filters...), o.Decls...) {
			apply(apps[i].sp, p, d, nil)
		}
		c.Note("%d: dev %v %v %v", i, o.Dev, o.Filters, o.Decls)
	}
	got := make([][]answer, len(apps))
	for n := 12 * len(apps); n > 0; n-- {
		k := c.IntN(len(apps))
		path := fmt.Sprintf("/p%d", c.IntN(len(pl.Handlers))) + c.Pick("", "", "/A1/x", "/none")
		r := [2]string{c.Pick("GET", "GET", "POST", "PUT"), path}
		apps[k].sink.Reset()
		x := request(apps[k].sp, r[0], r[1])
		x.Body, x.Logs = plain(x.Body), steps(apps[k].sink.All())
		orders[k].Requests = append(orders[k].Requests, r)
		got[k] = append(got[k], x)
	}
	exe, err := os.Executable()
	if err != nil {
		c.Inconclusive("%v", err)
	}
	want := make([][]answer, len(apps))
	var wg sync.WaitGroup
	for k := range orders {
		wg.Add(1)
		go func() {
			defer wg.Done()
			in, _ := json.Marshal(orders[k])
			cmd := exec.Command(exe)
			cmd.Env = append(os.Environ(), "C43_ALONE=1", "GORACE="+os.Getenv("GORACE")+" atexit_sleep_ms=0")
			cmd.Stdin = bytes.NewReader(in)
			out, err := cmd.Output()
			if err == nil {
				err = json.Unmarshal(out, &want[k])
			}
			if err != nil {
				c.Inconclusive("process: %v", err)
			}
		}()
	}
	wg.Wait()
	for k := range orders {
		for i, r := range orders[k].Requests {
			c.Eval(1)
			c.Count("apart", 1)
			c.Sig("apart %v %v %v", r, orders[k].Filters, got[k][i].Trace)
			if w, g := want[k][i].String(), got[k][i].String(); w != g {
				c.Fatal("differs from a process", "%v on application %d\nin its own process: %s\nbeside the others: %s", r, k, w, g)
			}
		}
	}
}

func main() {
	if os.Getenv("C43_ALONE") != "" {
		var o order
		if err := json.NewDecoder(os.Stdin).Decode(&o); err != nil {
			os.Exit(1)
		}
		json.NewEncoder(os.Stdout).Encode(answers(o))
		return
	}
	h.Main(h.Spec{
		ID:          "C43",
		Rule:        "2-4 applications in one process that share filter, handler, controller, configuration and NotFound values and slices of them, in random histories of declarations, replacements of filters and requests, then requests to all at once; every answer (status, headers, body, steps with what they see, log lines) is compared with that of an application of the same declarations made alone, in the same process and (without mounting) in a process of its own; distinct by filters, request and steps",
		Assumptions: []string{"what an application alone answers is judged by the other checks"},
		Min:         map[string]int64{"requests": 3000, "replaced": 300, "concurrent": 5000, "steps": 3000, "mounted": 200, "apart": 1000},
		MinDistinct: 1000,
		Run: func(r *h.R) {
			r.Loop("apart", r.N(60, 1500), apart)
			r.Loop("world", r.N(700, 20000), world)
		},
	})
}

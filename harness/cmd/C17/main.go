package main

import (
	"bytes"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/params"
	"stripverif/h"
)

type view struct {
	query, route, form, all url.Values
	files                   map[string][]string
	path                    string
	body                    string
	bound                   string
}

func dump(v url.Values) string {
	var ks []string
	for k, l := range v {
		if len(l) > 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%q=%q;", k, v[k])
	}
	return s
}

type pair struct{ k, v string }

// rq is one generated request with the views it must give.
type rq struct {
	method, path, rawq, ctype, body string
	want                            view
	bodyUnread                      bool // the body must still be readable
	bad                             bool
	loose                           url.Values // truncated multipart: any part of these may have been read
	id                              string
}

func values(c *h.C, tag string) (ps []pair) {
	for i := c.IntN(6); i > 0; i-- {
		k := c.Pick("a", "b", "id", "x y", "é", "l[]", "m[k]", "rest", "", "a.b")
		ps = append(ps, pair{k, c.Pick("1", "", "v w", "é&=%", "+", "\n", "0") + tag})
	}
	return
}

func encode(ps []pair) string {
	var b []string
	for _, p := range ps {
		b = append(b, url.QueryEscape(p.k)+"="+url.QueryEscape(p.v))
	}
	return strings.Join(b, "&")
}

func add(v url.Values, ps []pair) {
	for _, p := range ps {
		v[p.k] = append(v[p.k], p.v)
	}
}

func gen(c *h.C, n int) rq {
	q := rq{id: fmt.Sprintf("~%d", n)}
	q.want = view{query: url.Values{}, route: url.Values{}, form: url.Values{}, all: url.Values{}, files: map[string][]string{}}
	q.method = c.Pick("GET", "POST", "POST", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "PROPFIND")
	switch c.IntN(3) {
	case 0:
		q.path = "/plain"
		q.want.path = "/plain"
	case 1:
		a, b := fmt.Sprint("r", c.IntN(100)), c.Pick("x", "1", "zz")+q.id
		q.path = "/r/" + a + "/" + b
		q.want.route = url.Values{"a": {a}, "id": {b}}
		q.want.path = "/r/:a/:id"
	case 2:
		rest := c.Pick("x", "x/y", "1/2/3") + q.id
		q.path = "/w/" + rest
		q.want.route = url.Values{"rest": {rest}}
		q.want.path = "/w/*:rest"
	}
	qs := values(c, q.id)
	q.rawq = encode(qs)
	add(q.want.query, qs)
	if c.Chance(12) { // malformed parts are dropped, the rest stays
		q.bad = true
		bad := c.Pick("%zz", "b%", "a=%4", "c;d=1")
		if q.rawq != "" {
			q.rawq = bad + "&" + q.rawq
		} else {
			q.rawq = bad
		}
	}
	bs := values(c, "B"+q.id)
	kind := c.IntN(7)
	switch kind {
	case 0, 1, 2:
		q.ctype = c.Pick("application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8", "APPLICATION/x-www-form-urlencoded", "application/x-www-form-urlencoded ;a=b")
		q.body = encode(bs)
		if q.method == "POST" || q.method == "PUT" || q.method == "PATCH" {
			add(q.want.form, bs)
		} else {
			q.bodyUnread = true
		}
		if c.Chance(15) {
			q.bad = true
			q.body = strings.TrimPrefix(q.body+"&"+c.Pick("%zz=1", "%", "k=%x1"), "&")
		}
	case 3, 4:
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		for _, p := range bs {
			if p.k == "" {
				p.k = "n"
			}
			w.WriteField(p.k, p.v)
			add(q.want.form, []pair{p})
		}
		for i := c.IntN(3); i > 0; i-- {
			k, data := c.Pick("f", "g"), fmt.Sprint("data", c.IntN(1000), q.id)
			f, _ := w.CreateFormFile(k, "n.txt")
			io.WriteString(f, data)
			q.want.files[k] = append(q.want.files[k], "n.txt:"+data)
		}
		w.Close()
		q.ctype = w.FormDataContentType()
		q.body = b.String()
		if len(bs)+len(q.want.files) == 0 {
			q.body = "--" + w.Boundary() + "--\r\n"
		}
		if c.Chance(20) { // broken multipart: nothing usable, but the request goes on
			q.bad = true
			switch c.IntN(3) {
			case 0:
				q.ctype = "multipart/form-data"
			case 1:
				q.body = q.body[:len(q.body)/2]
				q.loose = q.want.form
			case 2:
				q.body = "garbage"
			}
			q.want.form, q.want.files = url.Values{}, map[string][]string{}
		}
	case 5:
		q.ctype = c.Pick("application/json", "text/plain", "application/octet-stream", "text/html; x", "junk", "a/b/c;;")
		q.body = c.Pick(`{"a":1}`, "a=1&b=2", "")
		q.bodyUnread = true
	case 6:
		q.body = c.Pick("a=1&b=2", "")
		q.bodyUnread = true
	}
	add2 := func(v url.Values) {
		for k, l := range v {
			q.want.all[k] = append(q.want.all[k], l...)
		}
	}
	add2(q.want.query)
	add2(q.want.route)
	add2(q.want.form)
	return q
}

func (q rq) make() *http.Request {
	r := httptest.NewRequest(q.method, q.path, strings.NewReader(q.body))
	r.URL.RawQuery = q.rawq
	r.Header.Set("X-Id", q.id)
	if q.ctype != "" {
		r.Header.Set("Content-Type", q.ctype)
	}
	return r
}

type sinkT struct {
	mu  sync.Mutex
	got map[string]view
}

func (s *sinkT) put(p *params.Params, req *http.Request) {
	v := view{query: clone(p.Query), route: clone(p.Route.Values), form: clone(p.Form), all: clone(p.Values), files: map[string][]string{}, path: p.Route.Path}
	for k, l := range p.Files {
		for _, fh := range l {
			f, err := fh.Open()
			if err != nil {
				v.files[k] = append(v.files[k], err.Error())
				continue
			}
			b, _ := io.ReadAll(f)
			f.Close()
			v.files[k] = append(v.files[k], fh.Filename+":"+string(b))
		}
	}
	b, _ := io.ReadAll(req.Body)
	v.body = string(b)
	var id string
	p.Bind(&id, "id")
	v.bound = id
	// the views are this request's own
	for _, m := range []url.Values{p.Query, p.Route.Values, p.Form, p.Values} {
		for k := range m {
			for i := range m[k] {
				m[k][i] = "changed"
			}
			m[k] = append(m[k], "added")
		}
		if m != nil {
			m["new"] = []string{"new"}
		}
	}
	s.mu.Lock()
	s.got[req.Header.Get("X-Id")] = v
	s.mu.Unlock()
}

func clone(v url.Values) url.Values {
	if v == nil {
		return nil
	}
	c := url.Values{}
	for k, l := range v {
		c[k] = append([]string(nil), l...)
	}
	return c
}

type ctl struct {
	S      *sinkT              `inject`
	Params *params.Params      `inject`
	Req    *http.Request       `inject`
	Rw     http.ResponseWriter `inject`
}

func (x *ctl) Any() { x.S.put(x.Params, x.Req); x.Rw.WriteHeader(204) }

func build(c *h.C, s *sinkT) *strip.Strip {
	sp, _ := h.NewApp()
	cfg, err := config.LoadIniFromReader(strings.NewReader("max_memory = " + fmt.Sprint([]int{0, 1, 20, 1 << 20}[c.IntN(4)]) + "\n"))
	if err != nil {
		c.Inconclusive("config: %v", err)
	}
	if c.Chance(60) {
		sp.ImportConfig(cfg)
	}
	sp.Provide(params.ParamsParser())
	sp.Provide(s)
	// used by a filter of the route before the action uses it
	f := strip.Filter(func(p *params.Params, ctx strip.Context) { ctx.Next() })
	fn := func(p *params.Params, req *http.Request, rw http.ResponseWriter) { s.put(p, req); rw.WriteHeader(204) }
	any := func() strip.MethodHandler {
		if c.Chance(50) {
			return strip.Any(&ctl{})
		}
		return strip.Any(fn)
	}
	var args []strip.Handler
	if c.Chance(50) {
		args = append(args, f)
	}
	args = append(args,
		strip.Router("/plain", any()),
		strip.Router("/r/:a/:id", any()),
		strip.Router("/w/*:rest", any()))
	sp.Routers(args...)
	return sp
}

func check(c *h.C, q rq, code int, got view, ran bool) {
	info := fmt.Sprintf("%s %s?%s ctype %q body %q", q.method, q.path, q.rawq, q.ctype, q.body)
	if !ran || code != 204 {
		c.Fatal("failed", "%s: status %d, action ran %v", info, code, ran)
	}
	if q.loose != nil { // net/http may keep the complete parts of a truncated body
		q.want.all = url.Values{}
		for _, v := range []url.Values{q.want.query, q.want.route, got.form} {
			for k, l := range v {
				q.want.all[k] = append(q.want.all[k], l...)
			}
		}
		for k, l := range got.form {
			for i := range l {
				if i >= len(q.loose[k]) || l[i] != q.loose[k][i] {
					c.Fatal("view-truncated", "%s: form %q was never sent", info, got.form)
				}
			}
		}
		q.want.form, q.want.files = got.form, got.files
	}
	for _, x := range []struct {
		n    string
		g, w url.Values
	}{{"query", got.query, q.want.query}, {"route", got.route, q.want.route}, {"form", got.form, q.want.form}, {"unified", got.all, q.want.all}} {
		if dump(x.g) != dump(x.w) {
			c.Fatal("view-"+x.n, "%s\n%s view %s\nwant %s", info, x.n, dump(x.g), dump(x.w))
		}
	}
	if fmt.Sprint(got.files) != fmt.Sprint(q.want.files) {
		c.Fatal("view-files", "%s\nfiles %q want %q", info, got.files, q.want.files)
	}
	if got.path != q.want.path {
		c.Fatal("view-path", "%s: route path %q want %q", info, got.path, q.want.path)
	}
	if q.bodyUnread && got.body != q.body {
		c.Fatal("body", "%s: the body left to the action is %q", info, got.body)
	}
	w := ""
	if l := q.want.all["id"]; len(l) > 0 {
		w = l[0]
	}
	if got.bound != w {
		c.Fatal("bound", "%s: id bound to %q, want %q", info, got.bound, w)
	}
}

func one(c *h.C, q rq) {
	if q.bad {
		c.Count("malformed_requests", 1)
	}
	if len(q.want.query) > 0 && len(q.want.form) > 0 {
		c.Count("query_and_body", 1)
	}
	c.Sig("%s %s ?%s %s %s", q.method, q.path, q.rawq, q.ctype, q.body)
}

func seq(c *h.C) {
	s := &sinkT{got: map[string]view{}}
	sp := build(c, s)
	for i := 0; i < 6; i++ {
		q := gen(c, i)
		rec := h.Serve(sp, q.make())
		g, ok := s.got[q.id]
		check(c, q, rec.Code, g, ok)
		one(c, q)
		c.Count("requests", 1)
		if c.Chance(40) { // what the action did to its views was for that request
			delete(s.got, q.id)
			rec := h.Serve(sp, q.make())
			g, ok := s.got[q.id]
			check(c, q, rec.Code, g, ok)
			c.Count("repeated", 1)
		}
	}
}

func conc(c *h.C) {
	s := &sinkT{got: map[string]view{}}
	sp := build(c, s)
	n := 4 + c.IntN(30)
	qs := make([]rq, n)
	codes := make([]int, n)
	for i := range qs {
		qs[i] = gen(c, i)
		if i > 0 && c.Chance(30) {
			id := qs[i].id
			qs[i] = qs[c.IntN(i)]
			qs[i].id = id
		}
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := range qs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			codes[i] = h.Serve(sp, qs[i].make()).Code
		}(i)
	}
	close(start)
	wg.Wait()
	for i, q := range qs {
		g, ok := s.got[q.id]
		check(c, q, codes[i], g, ok)
		one(c, q)
		c.Count("concurrent_requests", 1)
	}
}

func main() {
	h.Main(h.Spec{
		ID:          "C17",
		Rule:        "requests of 9 methods over 3 routes with random query pairs (some malformed), form, multipart (fields and files, some broken), other and missing content types and memory limits; the query, route, form, file and unified views, the text bound for a name and the body left unread are compared with those computed while generating, the action then changes its views and requests are made again; sequentially and with 4-33 requests released together under the race detector",
		Assumptions: []string{"as in net/http, form bodies belong to POST, PUT and PATCH, multipart bodies to any method", "the view is first used after routing"},
		Min:         map[string]int64{"requests": 4000, "concurrent_requests": 1000, "malformed_requests": 300, "query_and_body": 500, "repeated": 1000},
		MinDistinct: 2000,
		Run: func(r *h.R) {
			r.Loop("sequential", r.N(900, 40000), seq)
			r.Loop("concurrent", r.N(120, 5000), conc)
		},
	})
}

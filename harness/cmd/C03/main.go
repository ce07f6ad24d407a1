package main

import (
	"fmt"
	"net/http"
	"reflect"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"stripverif/h"
)

type Trace struct {
	ev []string
	// receivers of earlier calls, kept so that a fresh one has another address
	seen   map[*base]bool
	reused bool
}

type base struct {
	t *Trace
	N int
	M map[string]int `inject:"-"`
}

func (b *base) put(name string, a ...any) {
	s := name + "("
	for _, x := range a {
		s += fmt.Sprintf("%v;", x)
	}
	s += ")N=" + strconv.Itoa(b.N)
	if b.t.seen[b] {
		b.t.reused = true
	}
	b.t.seen[b] = true
	b.N++ // must not be seen by later requests
	b.t.ev = append(b.t.ev, s)
}

type S1 struct{ base }

func (s *S1) Get(a int)       { s.put("S1.Get", a) }
func (s *S1) Post()           { s.put("S1.Post") }
func (s *S1) Put(a, b string) { s.put("S1.Put", a, b) }
func (s *S1) All(x string)    { s.put("S1.All", x) }
func (s *S1) Purge(n uint8)   { s.put("S1.Purge", n) }

type S2 struct{ base }

func (s *S2) Any(a string, n int)  { s.put("S2.Any", a, n) }
func (s *S2) Get()                 { s.put("S2.Get") }
func (s *S2) Trace(a, b, c string) { s.put("S2.Trace", a, b, c) }
func (s S2) Delete(a bool) string  { s.put("S2.Delete", a); return "x" }

type S3 struct{ base }

func (s *S3) Foo(a string)       { s.put("S3.Foo", a) }
func (s *S3) Do(a int, b string) { s.put("S3.Do", a, b) }
func (s *S3) All()               { s.put("S3.All") }
func (s *S3) Any()               { s.put("S3.Any") }
func (s *S3) Head(b string)      { s.put("S3.Head", b) }

type S4 struct{ base }

func (s *S4) Do()            { s.put("S4.Do") }
func (s *S4) Work(s2 string) { s.put("S4.Work", s2) }
func (s *S4) Patch(a, b int) { s.put("S4.Patch", a, b) }

type S5 struct {
	S1
	Extra string
}

func (s *S5) Get(a, b string) { s.put("S5.Get", a, b) }
func (s *S5) Options()        { s.put("S5.Options") }

var regMethods = []string{"GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT"}

func mk(m string, ctl any) strip.MethodHandler {
	switch m {
	case "GET":
		return strip.Get(ctl)
	case "POST":
		return strip.Post(ctl)
	case "PUT":
		return strip.Put(ctl)
	case "HEAD":
		return strip.Head(ctl)
	case "DELETE":
		return strip.Delete(ctl)
	case "OPTIONS":
		return strip.Options(ctl)
	case "PATCH":
		return strip.Patch(ctl)
	case "TRACE":
		return strip.Trace(ctl)
	case "CONNECT":
		return strip.Connect(ctl)
	case "*":
		return strip.All(ctl)
	case "**":
		return strip.Any(ctl)
	}
	panic(m)
}

// reg is one registration as the model sees it.
type reg struct {
	m      string
	fn     string       // function identity
	typ    reflect.Type // struct type
	n      int
	action string // explicit
}

func title(m string) string { return m[:1] + strings.ToLower(m[1:]) }

func has(t reflect.Type, name string) bool {
	_, ok := reflect.PointerTo(t).MethodByName(name)
	return ok
}

func (g *reg) call(action string, params []string) string {
	if g.fn != "" {
		return g.fn
	}
	mt, _ := reflect.PointerTo(g.typ).MethodByName(action)
	var a []any
	for i := 1; i < mt.Type.NumIn(); i++ {
		s := ""
		if i-1 < len(params) {
			s = params[i-1]
		}
		switch mt.Type.In(i).Kind() {
		case reflect.Int:
			n, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				n = 0
			}
			a = append(a, n)
		case reflect.Uint8:
			n, err := strconv.ParseUint(s, 10, 8)
			if err != nil {
				n = 0
			}
			a = append(a, n)
		case reflect.Bool:
			n, _ := strconv.ParseBool(s)
			a = append(a, n)
		default:
			a = append(a, s)
		}
	}
	owner := g.typ.Name()
	if owner == "S5" && action != "Get" && action != "Options" {
		owner = "S1"
	}
	s := owner + "." + action + "("
	for _, x := range a {
		s += fmt.Sprintf("%v;", x)
	}
	return s + ")N=" + strconv.Itoa(g.n)
}

type model struct {
	exact map[string]*reg
	all   *reg
	any   *reg
}

func (m *model) dispatch(method string, params []string) string {
	method = strings.ToUpper(method)
	e := m.exact[method]
	name := title(method)
	if e == nil && method == "HEAD" {
		if e = m.exact["GET"]; e != nil {
			name = "Get"
		}
	}
	if e != nil {
		if e.action != "" {
			name = e.action
		}
		return e.call(name, params)
	}
	if g := m.all; g != nil {
		switch {
		case g.fn != "" || has(g.typ, name):
			return g.call(name, params)
		case g.action != "":
			return g.call(g.action, params)
		case has(g.typ, "All"):
			return g.call("All", params)
		}
	}
	if g := m.any; g != nil {
		a := g.action
		if a == "" {
			a = "Any"
		}
		return g.call(a, params)
	}
	return "NF"
}

func one(c *h.C) {
	t := &Trace{seen: map[*base]bool{}}
	ctl := func(g *reg) any {
		mkv := func(v any) any { return v }
		b := base{t: t, N: g.n}
		ptr := c.Chance(50)
		switch g.typ {
		case reflect.TypeOf(S1{}):
			if ptr {
				return mkv(&S1{b})
			}
			return S1{b}
		case reflect.TypeOf(S2{}):
			if ptr {
				return &S2{b}
			}
			return S2{b}
		case reflect.TypeOf(S3{}):
			if ptr {
				return &S3{b}
			}
			return S3{b}
		case reflect.TypeOf(S4{}):
			if ptr {
				return &S4{b}
			}
			return S4{b}
		default:
			if ptr {
				return &S5{S1: S1{b}}
			}
			return S5{S1: S1{b}}
		}
	}
	types := []reflect.Type{reflect.TypeOf(S1{}), reflect.TypeOf(S2{}), reflect.TypeOf(S3{}), reflect.TypeOf(S4{}), reflect.TypeOf(S5{})}
	mod := &model{exact: map[string]*reg{}}
	sp, _ := h.NewApp()
	sp.NotFound(func(rw http.ResponseWriter) { t.ev = append(t.ev, "NF"); rw.WriteHeader(404) })
	nparam := c.IntN(3)
	pat := "/r" + []string{"", "/:x", "/:x/:y"}[nparam]
	root := nparam == 0 && c.Chance(25)
	calls := 1 + c.IntN(3)
	fnID := 0
	var sig []string
	vals := []string{"1", "-7", "300", "abc", "true", "9223372036854775808"}
	reqs := append([]string{"get", "Head", "PURGE", "FOO", "LINK", "purge", "pOST"}, regMethods...)
	request := func(m string) {
		var params []string
		p := "/r"
		for i := 0; i < nparam; i++ {
			params = append(params, vals[c.IntN(len(vals))])
			p += "/" + params[i]
		}
		if root {
			p = "/"
		}
		t.ev = nil
		want := mod.dispatch(m, params)
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Fail("dispatch-panic", "%s %s: panic %v, expected %s", m, p, e, want)
				}
			}()
			h.Serve(sp, h.Req(m, p))
		}()
		c.Eval(1)
		got := strings.Join(t.ev, ",")
		if got != want {
			c.Fail("dispatch", "%s %s: expected %s, ran %q", m, p, want, got)
		}
		if t.reused {
			c.Fail("not-fresh", "%s %s: ran on the controller of an earlier request", m, p)
		}
		if want == "NF" {
			c.Count("notfound", 1)
		} else {
			c.Count("dispatched", 1)
			if strings.Contains(want, ".") {
				c.Count("struct", 1)
			}
		}
	}
	for k := 0; k < calls; k++ {
		var hs []strip.Handler
		for i := 1 + c.IntN(5); i > 0; i-- {
			g := &reg{n: c.IntN(3)}
			switch x := c.IntN(10); {
			case x < 5:
				g.m = regMethods[[]int{0, 0, 0, 1, 2, 3, 3, 4, 5, 6, 7, 8}[c.IntN(12)]]
			case x < 8:
				g.m = "*"
			default:
				g.m = "**"
			}
			var h strip.MethodHandler
			if c.Chance(35) {
				fnID++
				g.fn = fmt.Sprint("F", fnID)
				id := g.fn
				h = mk(g.m, func() { t.ev = append(t.ev, id) })
			} else {
				g.typ = types[c.IntN(len(types))]
				def := ""
				switch g.m {
				case "*":
				case "**":
					def = "Any"
				default:
					def = title(g.m)
				}
				if c.Chance(40) || def != "" && !has(g.typ, def) {
					p := reflect.PointerTo(g.typ)
					g.action = p.Method(c.IntN(p.NumMethod())).Name
				}
				h = mk(g.m, ctl(g))
				if g.action != "" {
					h = h.Action(g.action)
				}
			}
			c.Note("call %d: %s %s %v action=%q N=%d", k, g.m, g.fn, g.typ, g.action, g.n)
			sig = append(sig, fmt.Sprint(g.m, g.fn != "", g.typ, g.action))
			hs = append(hs, h)
			switch g.m {
			case "*":
				mod.all = g
			case "**":
				mod.any = g
			default:
				mod.exact[g.m] = g
			}
		}
		if root {
			sp.Routers(hs...)
		} else {
			sp.Routers(strip.Router(pat, hs...))
		}
		for i := 0; k < calls-1 && i < 4; i++ { // between registrations
			request(reqs[c.IntN(len(reqs))])
		}
	}
	for _, m := range reqs {
		request(m)
		request(m)
	}
	c.Sig("%s", strings.Join(sig, " "))
}

func main() {
	h.Main(h.Spec{
		ID:          "C03",
		Rule:        "random sets of registrations (9 methods, All, Any; functions and 5 struct controllers with differing method sets and signatures, by value or pointer, explicit actions, re-registration over 1-3 Routers calls) x 16 request methods twice each; the observed call with its arguments and controller state is compared with a dispatch table. Distinct by the registration list.",
		Assumptions: []string{"request methods consist of letters", "an All struct serves a method through the Go method of that name first, then its chosen (or All) action"},
		Run: func(r *h.R) {
			r.Par("dispatch", r.N(1000, 25000), one)
			r.Loop("dispatch", r.N(4000, 100000), one)
		},
		Min:         map[string]int64{"dispatched": 20000, "notfound": 5000, "struct": 10000},
		MinDistinct: 2000,
	})
}

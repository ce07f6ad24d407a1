package main

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"stripverif/decls"
	"stripverif/h"
	"stripverif/rt"
)

// conflict is the reference decision for a set of patterns.
func conflict(pats []rt.Pattern) string {
	params, wilds := map[string]string{}, map[string]string{}
	for _, p := range pats {
		parent := ""
		for i, s := range p {
			m := params
			if s.Kind == "wild" {
				m = wilds
				if i != len(p)-1 {
					return "wildcard " + s.String() + " is not last in " + p.String()
				}
			}
			if s.Kind != "lit" {
				if n, ok := m[parent]; ok && n != s.Text {
					return fmt.Sprintf("names %s and %s below %q", n, s.Text, parent)
				}
				m[parent] = s.Text
			}
			parent += "/" + s.String()
		}
	}
	return ""
}

func try(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}

var names = []string{"id", "uid", "id", "id"}

// pattern makes a pattern whose names may conflict with others.
func pattern(c *h.C, wildmid bool) rt.Pattern {
	p := rt.RandPattern(c.Rand, 4)
	for i := range p {
		switch p[i].Kind {
		case "param":
			p[i].Text = "id"
			if c.Chance(7) {
				p[i].Text = names[c.IntN(len(names))]
			}
		case "wild":
			if c.Chance(7) {
				p[i].Text = "more"
			}
		}
	}
	if wildmid && c.Chance(12) {
		if p[len(p)-1].Kind != "wild" {
			p = append(p, rt.Seg{Kind: "wild", Text: "rest"})
		}
		p = append(p, rt.Seg{Kind: []string{"lit", "param"}[c.IntN(2)], Text: "id"})
	}
	return p
}

func table(c *h.C) {
	sp, _ := h.NewApp()
	var pats []rt.Pattern
	calls := 1 + c.IntN(4)
	var sig []string
	served := ""
	for k := 0; k < calls; k++ {
		var es []rt.Entry
		seen := map[string]bool{}
		for n := 1 + c.IntN(4); n > 0; n-- {
			p := pattern(c, true)
			if len(pats) > 0 && c.Chance(50) { // below an earlier one
				q := pats[c.IntN(len(pats))]
				i := c.IntN(len(q) + 1)
				if c.Chance(20) || i == 0 || q[i-1].Kind != "wild" {
					p = append(append(rt.Pattern{}, q[:i]...), p...)
				}
			}
			if !seen[p.String()] {
				seen[p.String()] = true
				es = append(es, rt.Entry{ID: len(es), Pat: p})
			}
		}
		decls, _ := rt.RandDecls(c.Rand, es)
		for _, e := range es {
			pats = append(pats, e.Pat)
			sig = append(sig, e.Pat.String())
		}
		want := conflict(pats)
		wrap := c.Chance(20)
		msg := try(func() {
			var hs []strip.Handler
			for _, d := range decls {
				hs = append(hs, d.Build(c.Rand, func(id int) []strip.Handler {
					return []strip.Handler{strip.All(func() { served = "x" })}
				}))
			}
			if wrap {
				for _, x := range hs {
					sp.Routers(x)
				}
			} else {
				sp.Routers(hs...)
			}
		})
		c.Note("call %d: %v", k, es)
		c.Eval(1)
		if want != "" {
			c.Count("refused_tables", 1)
			if msg == "" {
				c.Fail("conflict-accepted", "a table with %s was registered without panic", want)
			}
			c.Sig("%s", strings.Join(sig, " "))
			return
		}
		if msg != "" {
			c.Fatal("valid-refused", "a table free of conflicts was refused: %s", msg)
		}
	}
	c.Count("valid_tables", 1)
	c.Sig("%s", strings.Join(sig, " "))
	var entries []rt.Entry
	for i, p := range pats {
		entries = append(entries, rt.Entry{ID: i, Pat: p})
	}
	for i := 0; i < 8; i++ {
		p := rt.RandPath(c.Rand, entries)
		if c.Chance(10) {
			p = c.Pick("", "/", "//", "*", "..", "/../..", "\x00", "/:", "/*:", "/:id", "a", ":", "/é/\xff") + p
		}
		m := c.Pick("GET", "HEAD", "get", "POST", "FOO", "", "A", "PROPFIND", "M-SEARCH", "é", "\xff", "[]", "*", "**", "All", "ANY")
		served = ""
		req := h.Req("GET", p)
		req.Method = m
		if msg := try(func() { h.Serve(sp, req) }); msg != "" {
			c.Fail("serve-panic", "serving %q %q from a valid table: %s", m, p, msg)
		}
		c.Count("requests", 1)
		if served != "" {
			c.Count("handled", 1)
		}
	}
}

type A1 struct{}

func (a *A1) Get()  {}
func (a A1) Post()  {}
func (a *A1) Foo()  {}
func (a *A1) lock() {}

type A2 struct{ X int }

func (a *A2) Any(x int) {}
func (a *A2) All()      {}

type A3 struct{ A1 }

func (a *A3) Head() int { return 200 }

type A4 struct{ *A2 }

type iface interface{ Get() }

func methodsOf(k int) map[string]bool {
	switch k {
	case 0:
		return map[string]bool{"Get": true, "Post": true, "Foo": true}
	case 1:
		return map[string]bool{"Any": true, "All": true}
	case 2:
		return map[string]bool{"Get": true, "Post": true, "Foo": true, "Head": true}
	}
	return map[string]bool{"Any": true, "All": true}
}

type mk struct {
	m string
	f func(strip.Handler) strip.MethodHandler
}

var mks = []mk{{"Get", strip.Get}, {"Post", strip.Post}, {"Put", strip.Put}, {"Head", strip.Head}, {"Delete", strip.Delete},
	{"Options", strip.Options}, {"Patch", strip.Patch}, {"Trace", strip.Trace}, {"Connect", strip.Connect}, {"*", strip.All}, {"**", strip.Any}}

func controllers(c *h.C) {
	n := 1 + c.IntN(4)
	type item struct {
		m    mk
		ctl  interface{}
		act  string
		bad  string
		desc string
		filt bool
	}
	var items []item
	used := map[string]bool{}
	bad := ""
	for i := 0; i < n; i++ {
		it := item{m: mks[c.IntN(len(mks))]}
		if used[it.m.m] {
			continue
		}
		used[it.m.m] = true
		switch x := c.IntN(20); {
		case x < 12:
			k := c.IntN(4)
			switch k {
			case 0:
				it.ctl = []interface{}{A1{}, &A1{}, (*A1)(nil)}[c.IntN(3)]
			case 1:
				it.ctl = []interface{}{A2{}, &A2{X: 2}}[c.IntN(2)]
			case 2:
				it.ctl = []interface{}{A3{}, &A3{}}[c.IntN(2)]
			case 3:
				it.ctl = []interface{}{A4{&A2{}}, &A4{&A2{}}}[c.IntN(2)]
			}
			ms := methodsOf(k)
			if c.Chance(40) {
				it.act = c.Pick("Get", "Post", "Foo", "Head", "Any", "All", "lock", "get", "Nope", "Put")
				if c.Chance(60) {
					for a := range map[string]bool{"Get": true, "Post": true, "Foo": true, "Any": true} {
						if ms[a] {
							it.act = a
						}
					}
				}
				if !ms[it.act] {
					it.bad = "missing chosen action " + it.act
				}
			} else {
				need := it.m.m
				if need == "**" {
					need = "Any"
				}
				if need != "*" && !ms[need] {
					it.bad = "missing action " + need
				}
			}
		case x < 17:
			it.ctl = []interface{}{func() {}, func(c strip.Context) (string, int) { return "", 200 }, http.NotFound}[c.IntN(3)]
			if c.Chance(20) {
				it.act = c.Pick("Get", "Foo")
				it.bad = "action on a function"
			}
		default:
			fn := func() {}
			s := "x"
			it.ctl = []interface{}{1, "Get", []int{1}, map[string]int{}, &s, &fn, (chan int)(nil), true, 1.5, nil, [2]int{}}[c.IntN(11)]
			it.bad = "controller of a useless type"
		}
		it.filt = c.Chance(25)
		it.desc = fmt.Sprintf("%s(%T).Action(%q) filter=%v", it.m.m, it.ctl, it.act, it.filt)
		if it.bad != "" {
			bad = it.desc + ": " + it.bad
		}
		items = append(items, it)
	}
	sp, _ := h.NewApp()
	pats := []string{"", "/a", "/:id", "/a/b", "/x/*:rest"}
	pat := pats[c.IntN(len(pats))]
	nest := c.IntN(3)
	var descs []string
	msg := try(func() {
		var hs []strip.Handler
		for _, it := range items {
			descs = append(descs, it.desc)
			mh := it.m.f(it.ctl)
			if it.filt && c.Chance(50) {
				mh = mh.Filter(func() {})
			}
			if it.act != "" {
				mh = mh.Action(it.act)
			}
			if it.filt {
				mh = mh.Exempt(func() {})
			}
			hs = append(hs, mh)
		}
		if pat != "" {
			hs = []strip.Handler{strip.Router(pat, hs...)}
			for i := 0; i < nest; i++ {
				hs = []strip.Handler{strip.Router("/g", hs...), strip.Filter(func() {})}
			}
		}
		sp.Routers(hs...)
	})
	c.Eval(1)
	c.Note("%s nest=%d: %s", pat, nest, strings.Join(descs, ", "))
	c.Sig("%s %d %s", pat, nest, strings.Join(descs, ", "))
	if bad != "" {
		c.Count("refused_controllers", 1)
		if msg == "" {
			c.Fail("bad-controller-accepted", "registered without panic although %s", bad)
		}
		return
	}
	if msg != "" {
		c.Fail("good-controller-refused", "valid declarations refused: %s", msg)
		return
	}
	c.Count("valid_controllers", 1)
	base := ""
	if pat != "" {
		base = strings.Repeat("/g", nest) + strings.NewReplacer(":id", "7", "*:rest", "y/z").Replace(pat)
	}
	for _, m := range []string{"GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "FOO", "X", "LOCK"} {
		if msg := try(func() { h.Serve(sp, h.Req(m, base+"/")) }); msg != "" {
			c.Fail("serve-panic", "serving %s %s: %s", m, base, msg)
		}
		c.Count("requests", 1)
	}
}

func paths(c *h.C) {
	// the path argument itself
	p := c.Pick("", "/", " ", " / ", "/a", "a", "/a/", " /a ", "/a//b", "/./a")
	bad := strings.TrimSpace(p) == "" || strings.TrimSpace(p) == "/"
	msg := try(func() { strip.Router(p, strip.Get(func() {})) })
	c.Count("paths", 1)
	if bad != (msg != "") {
		c.Fail("path-arg", "Router(%q): expected refused=%v, got %q", p, bad, msg)
	}
}

func main() {
	h.Main(h.Spec{
		ID:          "C04",
		Rule:        "1-4 Routers calls with random nested and flat declarations of patterns with conflict-prone parameter and wildcard names (also continued below earlier patterns and below wildcards): each call must panic exactly when the reference finds a conflict, and valid tables serve arbitrary paths and methods; lists of handlers over valid and invalid controllers and actions, nested up to 3 deep, likewise; random tables of handlers of all kinds with one mistake of a given kind planted anywhere or none. Distinct by declaration list.",
		Assumptions: []string{"a second All or Any of the same declaration replaces the first and is not generated"},
		Run: func(r *h.R) {
			r.Par("table", r.N(6250, 150000), table)
			r.Loop("table", r.N(25000, 600000), table)
			r.Par("controllers", r.N(3000, 50000), controllers)
			r.Loop("controllers", r.N(12000, 200000), controllers)
			r.Loop("mistakes", r.N(25000, 600000), func(c *h.C) {
				decls.Routes(c, []int{decls.None, decls.None, decls.None, decls.Param, decls.Param, decls.Wild, decls.After, decls.Nested, decls.NoAction, decls.FuncAction, decls.Controller, decls.Path})
			})
			r.Loop("paths", r.N(200, 200), paths)
		},
		Min:         map[string]int64{"refused_tables": 3000, "valid_tables": 3000, "refused_controllers": 2000, "valid_controllers": 2000, "handled": 5000, "refused tables": 5000, "accepted tables": 4000},
		MinDistinct: 10000,
	})
}

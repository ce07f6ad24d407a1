// Package decls makes route declarations with at most one mistake and looks whether they are refused.
package decls

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/inject"
	"stripverif/h"
	"stripverif/rt"
)

type Full struct{}

func (Full) Get() string     { return "get" }
func (Full) Post() string    { return "post" }
func (Full) Put() string     { return "put" }
func (Full) Head()           {}
func (Full) Delete() string  { return "delete" }
func (Full) Options() string { return "options" }
func (Full) Patch() string   { return "patch" }
func (Full) Trace() string   { return "trace" }
func (Full) Connect() string { return "connect" }
func (Full) Any() string     { return "any" }
func (Full) All() string     { return "all" }
func (Full) Show() string    { return "show" }
func (*Full) Edit() string   { return "edit" }

type Lone struct{ V int }

func (*Lone) Show() string   { return "show" }
func (*Lone) hidden() string { return "" }

type some struct{ A int }
type named int

var verbs = []func(strip.Handler) strip.MethodHandler{strip.Get, strip.Post, strip.Put, strip.Head, strip.Delete, strip.Options, strip.Patch, strip.Trace, strip.Connect}

func Nop() {}

// Refused runs f and tells what it panicked with.
func Refused(f func()) (e any) {
	defer func() { e = recover() }()
	f()
	return nil
}

// good makes a handler which is fine.
func good(c *h.C, id int) (strip.Handler, string) {
	fn := func(rw http.ResponseWriter) { fmt.Fprint(rw, "A", id) }
	switch c.IntN(12) {
	case 0:
		return strip.Any(fn), "any func"
	case 1:
		return strip.All(fn), "all func"
	case 2:
		return verbs[c.IntN(len(verbs))](Full{}), "verb struct"
	case 3:
		return verbs[c.IntN(len(verbs))](&Full{}), "verb pointer"
	case 4:
		return strip.Any(&Full{}), "any pointer"
	case 5:
		return strip.All(Full{}), "all struct"
	case 6:
		return strip.All(&Lone{}), "all without actions"
	case 7:
		return verbs[c.IntN(len(verbs))](&Lone{}).Action("Show"), "named action"
	case 8:
		return strip.Any(Lone{}).Action("Show"), "any named"
	case 9:
		return strip.All(&Full{}).Action("Edit"), "all named"
	case 10:
		return strip.Get(fn).Filter(Nop, strip.FilterFunc(func() inject.Provider { return Nop }), inject.Provide{Nop}).Exempt(Nop), "filters"
	}
	return strip.Get(fn), "func"
}

// kinds of handlers that are no controllers
func noController(c *h.C) (any, string) {
	i := 5
	vs := []any{5, "text", true, 1.5, []int{1}, map[string]int{"a": 1}, [2]int{}, &i, named(3), make(chan int), strip.Get(Nop), []any{Nop}, nil}
	k := c.IntN(len(vs))
	return vs[k], fmt.Sprintf("%T", vs[k])
}

func NoFilter(c *h.C) (any, string) {
	i := 5
	vs := []any{5, "text", true, []int{1}, map[string]int{"a": 1}, &i, named(3), some{}, &some{}, make(chan int), nil, &Full{}}
	k := c.IntN(len(vs))
	return vs[k], fmt.Sprintf("%T", vs[k])
}

// the mistakes
const (
	None = iota
	Param
	Wild
	After
	Nested
	NoAction
	FuncAction
	Controller
	Filter
	Path
)

// Routes declares a table of routes with at most one mistake of the given kinds.
func Routes(c *h.C, mistakes []int) {
	es := rt.Table(c.Rand, 12)
	decls, _ := rt.RandDecls(c.Rand, es)
	kinds := map[int]string{}
	build := func(id int) []strip.Handler {
		x, k := good(c, id)
		kinds[id] = k
		hs := []strip.Handler{x}
		if c.Chance(20) {
			hs = append(hs, strip.Filter(Nop), strip.Exempt(Nop), strip.Name("n"))
		}
		return hs
	}
	mistake := ""
	var wrong *rt.Decl // a declaration at fault, and what it has instead of handlers
	var wrongHs func() []strip.Handler
	pick := func(ok func(rt.Pattern) int) (rt.Pattern, int) {
		for _, k := range c.Perm(len(es)) {
			if i := ok(es[k].Pat); i >= 0 {
				return es[k].Pat, i
			}
		}
		return nil, -1
	}
	find := func(kind string) func(rt.Pattern) int {
		return func(p rt.Pattern) int {
			for _, i := range c.Perm(len(p)) {
				if p[i].Kind == kind {
					return i
				}
			}
			return -1
		}
	}
	fine := func() []strip.Handler { return []strip.Handler{strip.Get(Nop)} }
	// a prefix without wildcards
	prefix := func() rt.Pattern {
		p := append(rt.Pattern{}, es[c.IntN(len(es))].Pat...)
		for i, s := range p {
			if s.Kind == "wild" {
				p = p[:i]
				break
			}
		}
		return p[:c.IntN(len(p)+1)]
	}
	more := func() rt.Pattern {
		return rt.Pattern{{Kind: c.Pick("lit", "param"), Text: "more"}, {Kind: "lit", Text: "x"}}[:1+c.IntN(2)]
	}
	join := func(ps ...rt.Pattern) (out rt.Pattern) {
		for _, p := range ps {
			out = append(out, p...)
		}
		return
	}
	switch mistakes[c.IntN(len(mistakes))] {
	case Param: // two names of a parameter
		p, i := pick(find("param"))
		if p == nil {
			break
		}
		mistake = "parameter name"
		s := rt.Seg{Kind: "param", Text: p[i].Text + c.Pick("2", "x", "_")}
		if c.Chance(30) {
			s.Verb = ":other"
		}
		q := join(p[:i], rt.Pattern{s})
		if c.Chance(50) {
			q = join(q, more())
		}
		wrong, wrongHs = &rt.Decl{Pat: q}, fine
	case Wild: // two names of a wildcard
		p, i := pick(find("wild"))
		if p == nil {
			break
		}
		mistake = "wildcard name"
		wrong, wrongHs = &rt.Decl{Pat: join(p[:i], rt.Pattern{{Kind: "wild", Text: p[i].Text + "2"}})}, fine
	case After: // more after a wildcard
		mistake = "wildcard inside"
		p, i := pick(find("wild"))
		if p == nil || c.Chance(50) {
			p, i = join(prefix(), rt.Pattern{{Kind: "wild", Text: "rest"}}), -1
		}
		_ = i
		wrong, wrongHs = &rt.Decl{Pat: join(p, more())}, fine
	case Nested: // nested in a wildcard
		mistake = "nested in a wildcard"
		p, _ := pick(find("wild"))
		if p == nil || c.Chance(50) {
			p = join(prefix(), rt.Pattern{{Kind: "wild", Text: "rest"}})
		}
		q := more().String()
		wrong, wrongHs = &rt.Decl{Pat: p}, func() []strip.Handler {
			return append(fine(), strip.Router(q, fine()...))
		}
	case NoAction:
		mistake = "no such action"
		k := c.IntN(6)
		wrong, wrongHs = &rt.Decl{Pat: join(prefix(), more())}, func() []strip.Handler {
			switch k {
			case 0:
				return []strip.Handler{verbs[c.IntN(len(verbs))](Lone{})}
			case 1:
				return []strip.Handler{verbs[c.IntN(len(verbs))](&Full{}).Action("Nope")}
			case 2:
				return []strip.Handler{strip.Any(&Lone{})}
			case 3:
				return []strip.Handler{strip.All(&Full{}).Action("Nope")}
			case 4:
				return []strip.Handler{strip.Any(Full{}).Action("show")}
			}
			return []strip.Handler{verbs[c.IntN(len(verbs))](&Lone{}).Action("hidden")}
		}
		mistake += fmt.Sprint(" ", k)
	case FuncAction:
		mistake = "action of a function"
		wrong, wrongHs = &rt.Decl{Pat: join(prefix(), more())}, func() []strip.Handler {
			f := append(verbs, strip.All, strip.Any)[c.IntN(len(verbs)+2)]
			return []strip.Handler{f(Nop).Action("Get")}
		}
	case Controller:
		v, t := noController(c)
		mistake = "controller " + t
		wrong, wrongHs = &rt.Decl{Pat: join(prefix(), more())}, func() []strip.Handler {
			return []strip.Handler{append(verbs, strip.All, strip.Any)[c.IntN(len(verbs)+2)](v)}
		}
	case Filter:
		v, t := NoFilter(c)
		mistake = "filter " + t
		k := c.IntN(4)
		wrong, wrongHs = &rt.Decl{Pat: join(prefix(), more())}, func() []strip.Handler {
			switch k {
			case 0:
				return append(fine(), strip.Filter(Nop, v))
			case 1:
				return append(fine(), strip.Exempt(v))
			case 2:
				return []strip.Handler{strip.Get(Nop).Filter(v, Nop)}
			}
			return []strip.Handler{strip.Any(Full{}).Exempt(v)}
		}
		mistake += fmt.Sprint(" ", k)
	case Path:
		p := c.Pick("", " ", "/", " / ", "\t", "\n/")
		mistake = fmt.Sprintf("path %q", p)
		wrong, wrongHs = &rt.Decl{Pat: join(prefix(), more())}, func() []strip.Handler {
			return append(fine(), strip.Router(p, fine()...))
		}
	}
	sp, _ := h.NewApp()
	if wrong != nil {
		wrong.Handlers = []int{-1}
		// anywhere among the declarations, sometimes nested where its path begins
		ds := &decls
		for c.Chance(60) {
			var next *rt.Decl
			for _, k := range c.Perm(len(*ds)) {
				d := (*ds)[k]
				if len(d.Pat) < len(wrong.Pat) && same(d.Pat, wrong.Pat[:len(d.Pat)]) && wrong.Pat[len(d.Pat)-1].Kind != "wild" {
					next = d
					break
				}
			}
			if next == nil {
				break
			}
			wrong.Pat = wrong.Pat[len(next.Pat):]
			ds = &next.Kids
		}
		*ds = append(*ds, wrong)
	}
	var text strings.Builder
	show(&text, decls, "")
	e := Refused(func() {
		var hs []strip.Handler
		for _, d := range decls {
			hs = append(hs, d.Build(c.Rand, func(id int) []strip.Handler {
				if id < 0 {
					return wrongHs()
				}
				return build(id)
			}))
		}
		c.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
		for len(hs) > 0 {
			n := 1 + c.IntN(len(hs))
			sp.Routers(hs[:n]...)
			hs = hs[n:]
		}
	})
	c.Note("declarations (! at fault):\n%s\nhandlers %v", text.String(), kinds)
	if mistake == "" {
		if e != nil {
			c.Fatal("refused", "correct declarations are refused: %v", e)
		}
		c.Count("accepted tables", 1)
		c.Sig("accepted %s", text.String())
		return
	}
	if e == nil {
		c.Fatal("accepted "+strings.Fields(mistake)[0], "the declaration marked ! has a mistake (%s) and is accepted", mistake)
	}
	c.Count("refused tables", 1)
	c.Sig("refused %s %s", mistake, text.String())
}

func same(a, b rt.Pattern) bool { return a.String() == b.String() }

func show(b *strings.Builder, ds []*rt.Decl, in string) {
	for _, d := range ds {
		m := ""
		for _, id := range d.Handlers {
			if id < 0 {
				m = " !"
			}
		}
		fmt.Fprintf(b, "%s%s%v%s\n", in, d.Pat, d.Handlers, m)
		show(b, d.Kids, in+"  ")
	}
}

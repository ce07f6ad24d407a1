package main

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/inject"
	"stripverif/h"
)

// chain is the reference composition.
type chain []int

func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (ch chain) add(own []int) chain {
	out := append(chain{}, ch...)
	for _, f := range own {
		if !has(out, f) {
			out = append(out, f)
		}
	}
	return out
}

func (ch chain) minus(ex []int) chain {
	out := chain{}
	for _, f := range ch {
		if !has(ex, f) {
			out = append(out, f)
		}
	}
	return out
}

type world struct {
	c      *h.C
	ev     []string
	pool   []interface{}
	kinds  []string
	parts  []part           // shared Filter/Exempt handlers
	bases  []base           // shared method handlers
	want   map[string]chain // "GET /path" -> filters
	who    map[string]string
	acts   int
	shared int
}

type part struct {
	h      strip.Handler
	exempt bool
	ids    []int
}

type base struct {
	h      strip.MethodHandler
	method string
	act    string
	f, e   []int
}

func (w *world) filter(i int) (interface{}, string) {
	run := func(ctx strip.Context) { w.ev = append(w.ev, fmt.Sprint("f", i)) }
	switch w.c.IntN(6) {
	case 0:
		return inject.Provide{run}, "provide"
	case 1:
		return inject.Provide{inject.Dep{0: ""}, run}, "provide-dep"
	case 2:
		return strip.FilterFunc(func() inject.Provider { return run }), "filterfunc"
	case 3:
		return func() inject.Provider { return run }, "providerfunc"
	case 4:
		return func(ctx strip.Context) { w.ev = append(w.ev, fmt.Sprint("f", i)); ctx.Next() }, "next"
	}
	return run, "func"
}

func (w *world) some(max int) (ids []int, fs []interface{}) {
	for n := w.c.IntN(max + 1); n > 0; n-- {
		i := w.c.IntN(len(w.pool))
		ids = append(ids, i)
		if p, ok := w.pool[i].(inject.Provide); ok {
			fs = append(fs, p) // converted anew, as in Filter(p), Exempt(p)
			continue
		}
		fs = append(fs, w.pool[i])
	}
	return
}

func (w *world) part() part {
	if len(w.parts) > 0 && w.c.Chance(30) {
		w.shared++
		return w.parts[w.c.IntN(len(w.parts))]
	}
	ids, fs := w.some(3)
	p := part{ids: ids, exempt: w.c.Chance(35)}
	if p.exempt {
		p.h = strip.Exempt(fs...)
	} else {
		p.h = strip.Filter(fs...)
	}
	w.parts = append(w.parts, p)
	return p
}

// method makes a handler, often derived from one that is in use elsewhere.
func (w *world) method() base {
	c := w.c
	var b base
	if len(w.bases) > 0 && c.Chance(55) {
		b = w.bases[c.IntN(len(w.bases))]
		w.shared++
	} else {
		w.acts++
		b.act = fmt.Sprint("a", w.acts)
		name := b.act
		fn := func() { w.ev = append(w.ev, name) }
		switch c.IntN(4) {
		case 0:
			b.method, b.h = "POST", strip.Post(fn)
		case 1:
			b.method, b.h = "*", strip.All(fn)
		case 2:
			b.method, b.h = "**", strip.Any(fn)
		default:
			b.method, b.h = "GET", strip.Get(fn)
		}
		w.bases = append(w.bases, b)
	}
	for n := c.IntN(4); n > 0; n-- {
		ids, fs := w.some(2)
		if c.Chance(60) {
			b.h = b.h.Filter(fs...)
			b.f = append(append([]int{}, b.f...), ids...)
		} else {
			b.h = b.h.Exempt(fs...)
			b.e = append(append([]int{}, b.e...), ids...)
		}
		if c.Chance(50) {
			w.bases = append(w.bases, b)
		}
	}
	return b
}

// node is a declared group.
type node struct {
	path  string
	parts []part
	meths []base
	kids  []*node
}

func (w *world) node(path string, depth int) *node {
	n := &node{path: path}
	for k := w.c.IntN(4); k > 0; k-- {
		n.parts = append(n.parts, w.part())
	}
	used := map[string]bool{}
	for k := w.c.IntN(3); k > 0; k-- {
		b := w.method()
		if !used[b.method] {
			used[b.method] = true
			n.meths = append(n.meths, b)
		}
	}
	if depth > 0 {
		for _, s := range []string{"/a", "/b", "/c"}[:w.c.IntN(4)] {
			n.kids = append(n.kids, w.node(s, depth-1))
		}
	}
	return n
}

func (n *node) handlers(w *world) (hs []strip.Handler) {
	for _, p := range n.parts {
		hs = append(hs, p.h)
	}
	for _, m := range n.meths {
		hs = append(hs, m.h)
	}
	for _, k := range n.kids {
		hs = append(hs, strip.Router(k.path, k.handlers(w)...))
	}
	// filters keep their relative order; everything else may move
	i := len(n.parts)
	w.c.Shuffle(len(hs)-i, func(a, b int) { hs[i+a], hs[i+b] = hs[i+b], hs[i+a] })
	if w.c.Chance(50) {
		hs = append(append([]strip.Handler{}, hs[i:]...), hs[:i]...)
	}
	return
}

func (n *node) model(w *world, prefix string, ch chain) {
	var ex []int
	for _, p := range n.parts {
		if p.exempt {
			ex = append(ex, p.ids...)
		} else {
			ch = ch.add(p.ids)
		}
	}
	ch = ch.minus(ex)
	for _, m := range n.meths {
		w.want[m.method+" "+prefix] = ch.add(m.f).minus(m.e)
		w.who[m.method+" "+prefix] = m.act
	}
	for _, k := range n.kids {
		k.model(w, prefix+k.path, ch)
	}
}

func (n *node) String() string {
	s := n.path + "{"
	for _, p := range n.parts {
		if p.exempt {
			s += "-"
		}
		s += fmt.Sprint(p.ids)
	}
	for _, m := range n.meths {
		s += fmt.Sprintf(" %s:%v-%v", m.method, m.f, m.e)
	}
	for _, k := range n.kids {
		s += " " + k.String()
	}
	return s + "}"
}

func one(c *h.C) {
	w := &world{c: c, want: map[string]chain{}, who: map[string]string{}}
	for i := 0; i < 7; i++ {
		f, k := w.filter(i)
		w.pool = append(w.pool, f)
		w.kinds = append(w.kinds, k)
	}
	sp, _ := h.NewApp()
	app := chain{}
	for n := c.IntN(3); n > 0; n-- {
		ids, fs := w.some(3)
		sp.Filter(fs...)
		app = app.add(ids)
	}
	nf := chain{}.add(func() []int { i, _ := w.some(2); return i }())
	var nfs []interface{}
	for _, i := range nf {
		nfs = append(nfs, w.pool[i])
	}
	nfs = append(nfs, func(rw http.ResponseWriter) { w.ev = append(w.ev, "nf"); rw.WriteHeader(404) })
	sp.NotFound(nfs...)
	var sig []string
	for calls := 1 + c.IntN(2); calls > 0; calls-- {
		n := w.node("", 3)
		n.model(w, "", nil)
		sp.Routers(n.handlers(w)...)
		sig = append(sig, n.String())
	}
	c.Note("filters %v\napp %v\nnotfound %v\n%s", w.kinds, app, nf, strings.Join(sig, "\n"))
	c.Sig("%v %v %s", app, nf, strings.Join(sig, ";"))
	c.Count("shared_pieces", w.shared)
	var paths []string
	for _, a := range []string{"", "/a", "/b", "/c"} {
		for _, b := range []string{"", "/a", "/b", "/c"} {
			for _, d := range []string{"", "/a", "/b"} {
				if (b == "" && d != "") || (a == "" && b != "") {
					continue
				}
				paths = append(paths, a+b+d)
			}
		}
	}
	for _, p := range paths {
		for _, m := range []string{"GET", "POST", "PUT", "HEAD"} {
			var key string
			for _, k := range []string{m, map[string]string{"HEAD": "GET"}[m], "*", "**"} {
				if _, ok := w.who[k+" "+p]; ok {
					key = k + " " + p
					break
				}
			}
			var want []string
			put := func(ch chain) {
				for _, f := range ch {
					want = append(want, fmt.Sprint("f", f))
				}
			}
			put(app)
			if key == "" {
				put(nf)
				want = append(want, "nf")
				c.Count("notfound", 1)
			} else {
				put(w.want[key])
				want = append(want, w.who[key])
				c.Count("routed", 1)
				c.Count("filters_run", len(w.want[key]))
			}
			w.ev = nil
			rp := p
			if rp == "" {
				rp = "/"
			}
			h.Serve(sp, h.Req(m, rp))
			c.Eval(1)
			if got := strings.Join(w.ev, " "); got != strings.Join(want, " ") {
				c.Fail("filters", "%s %s: expected %s, ran %s", m, rp, strings.Join(want, " "), got)
			}
		}
	}
}

func main() {
	h.Main(h.Spec{
		ID:          "C05",
		Rule:        "random group trees (depth up to 3, 1-2 Routers calls) over 7 filters of every accepted form, with application filters, group and handler filters and exemptions, and Filter/Exempt/method handlers shared between and derived for several places; every path x 4 methods is requested and the recorded run order compared with the reference composition. Distinct by declaration.",
		Assumptions: []string{"a filter value is identified by the value passed to Filter and Exempt (function or Provide slice)"},
		Run: func(r *h.R) {
			r.Par("compose", r.N(750, 30000), one)
			r.Loop("compose", r.N(3000, 120000), one)
		},
		Min:         map[string]int64{"routed": 15000, "notfound": 15000, "filters_run": 30000, "shared_pieces": 5000},
		MinDistinct: 2000,
	})
}

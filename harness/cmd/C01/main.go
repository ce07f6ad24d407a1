package main

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"stripverif/h"
	"stripverif/rt"
)

type obs struct{ ran []string }

func build(c *h.C, es []rt.Entry, o *obs) (*strip.Strip, []rt.Entry) {
	sp, _ := h.NewApp()
	sp.NotFound(func(rw http.ResponseWriter) {
		o.ran = append(o.ran, "NF")
		rw.WriteHeader(404)
		rw.Write([]byte("nf"))
	})
	decls, groups := rt.RandDecls(c.Rand, es)
	register(c, sp, decls, o)
	// groups after entries; the model lets a handler entry win over a group of the same path
	return sp, append(groups, es...)
}

func register(c *h.C, sp *strip.Strip, decls []*rt.Decl, o *obs) {
	handlers := func(id int) []strip.Handler {
		return []strip.Handler{strip.Get(func(rw http.ResponseWriter) {
			o.ran = append(o.ran, fmt.Sprint("A", id))
			fmt.Fprintf(rw, "A%d", id)
		})}
	}
	var hs []strip.Handler
	for _, d := range decls {
		hs = append(hs, d.Build(c.Rand, handlers))
	}
	c.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	for len(hs) > 0 {
		n := 1 + c.IntN(len(hs))
		sp.Routers(hs[:n]...)
		hs = hs[n:]
	}
}

// swapCase changes the case of the letters outside of custom verbs
func swapCase(p string) string {
	segs := strings.Split(p, "/")
	for i, s := range segs {
		v := ""
		if k := strings.Index(s, ":"); k >= 0 {
			s, v = s[:k], s[k:]
		}
		segs[i] = strings.Map(func(r rune) rune {
			switch {
			case r >= 'a' && r <= 'z':
				return r - 32
			case r >= 'A' && r <= 'Z':
				return r + 32
			}
			return r
		}, s) + v
	}
	return strings.Join(segs, "/")
}

func check(c *h.C, sp *strip.Strip, all []rt.Entry, o *obs, p string) {
	o.ran = nil
	segs := rt.Split(p)
	var want string
	if len(segs) == 0 {
		want = "NF" // no root handler in these tables
	} else {
		e, _ := rt.Match(all, segs)
		want = "NF"
		if e != nil && e.Handler {
			want = fmt.Sprint("A", e.ID)
		}
	}
	rec := h.Serve(sp, h.Req("GET", p))
	c.Eval(1)
	got := strings.Join(o.ran, ",")
	if got != want {
		c.Fail("resolution", "path %q: expected %s, ran %q (status %d)", p, want, got, rec.Code)
		return
	}
	if want == "NF" {
		c.Count("notfound", 1)
		if rec.Code != 404 {
			c.Fail("nf-status", "path %q: NotFound answered %d", p, rec.Code)
		}
	} else {
		c.Count("matched", 1)
		if rec.Code != 200 || rec.Body.String() != want {
			c.Fail("body", "path %q: %d %q", p, rec.Code, rec.Body.String())
		}
	}
}

func run(r *h.R) {
	// random tables, each registered in two orders; random and exhaustive small paths
	tables := func(c *h.C) {
		es := rt.Table(c.Rand, 10)
		for _, e := range es {
			c.Note("route %d %s", e.ID, e.Pat)
		}
		var o obs
		sp, all := build(c, es, &o)
		sp2, all2 := build(c, es, &o)
		var paths []string
		for i := 0; i < 24; i++ {
			paths = append(paths, rt.RandPath(c.Rand, es))
		}
		paths = append(paths, "/", "")
		for _, p := range paths {
			check(c, sp, all, &o, p)
			check(c, sp2, all2, &o, p)
		}
		c.Shuffle(len(paths), func(i, j int) { paths[i], paths[j] = paths[j], paths[i] })
		for _, p := range paths {
			check(c, sp, all, &o, p)
			check(c, sp, all, &o, swapCase(p))
			check(c, sp, all, &o, p)
		}
		var sig []string
		for _, e := range es {
			sig = append(sig, e.Pat.String())
		}
		c.Sig("%s", strings.Join(sig, " "))
	}
	r.Par("tables", r.N(750, 15000), tables)
	r.Loop("tables", r.N(3000, 60000), tables)
	// requests between registrations: neither earlier requests nor the order of calls matter
	grow := func(c *h.C) {
		es := rt.Table(c.Rand, 10)
		for _, e := range es {
			c.Note("route %d %s", e.ID, e.Pat)
		}
		c.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		var o obs
		sp, all := build(c, nil, &o)
		var paths []string
		for i := 0; i < 16; i++ {
			paths = append(paths, rt.RandPath(c.Rand, es))
		}
		for rest := es; ; {
			for _, p := range paths {
				check(c, sp, all, &o, p)
			}
			if len(rest) == 0 {
				return
			}
			n := 1 + c.IntN(len(rest))
			decls, groups := rt.RandDecls(c.Rand, rest[:n])
			register(c, sp, decls, &o)
			all = append(append(append([]rt.Entry{}, groups...), all...), rest[:n]...)
			rest = rest[n:]
			c.Count("registrations_between_requests", 1)
		}
	}
	r.Par("grow", r.N(375, 7500), grow)
	r.Loop("grow", r.N(1500, 30000), grow)
	// all paths of depth <=4 over a small alphabet, on tables of patterns over the same alphabet
	r.Loop("small", r.N(900, 30000), func(c *h.C) {
		pool := []string{"a", "b", ":k", ":k:run", "*:w"}
		var es []rt.Entry
		seen := map[string]bool{}
		for i, n := 0, 1+c.IntN(7); i < n; i++ {
			var p rt.Pattern
			for d := 1 + c.IntN(4); d > 0; d-- {
				switch s := pool[c.IntN(len(pool))]; s {
				case ":k":
					p = append(p, rt.Seg{Kind: "param", Text: fmt.Sprint("k", len(p))})
				case ":k:run":
					p = append(p, rt.Seg{Kind: "param", Text: fmt.Sprint("k", len(p)), Verb: ":run"})
				case "*:w":
					p = append(p, rt.Seg{Kind: "wild", Text: "w"})
				default:
					p = append(p, rt.Seg{Kind: "lit", Text: s})
				}
				if p[len(p)-1].Kind == "wild" {
					break
				}
			}
			if !seen[p.String()] {
				seen[p.String()] = true
				es = append(es, rt.Entry{ID: len(es), Pat: p, Handler: true})
			}
		}
		for _, e := range es {
			c.Note("route %d %s", e.ID, e.Pat)
		}
		var o obs
		sp, all := build(c, es, &o)
		alpha := []string{"a", "b", "c:run"}
		var rec func(prefix string, d int)
		rec = func(prefix string, d int) {
			if d == 0 || c.Failed() {
				return
			}
			for _, s := range alpha {
				p := prefix + "/" + s
				check(c, sp, all, &o, p)
				rec(p, d-1)
			}
		}
		rec("", 4)
		c.Count("exhaustive_tables", 1)
	})
}

func main() {
	h.Main(h.Spec{
		ID:          "C01",
		Rule:        "random route tables (1-10 routes, depth<=7, literal/param/custom-verb/wild, random nesting and registration order in 1..n Routers calls) x random and exhaustive small paths; compared with a backtracking reference matcher. A case is a table; non-trivial when served, distinct by its set of patterns.",
		Assumptions: []string{"requests enter through Strip.ServeHTTP with the decoded URL path", "custom verbs of one table are not suffixes of each other"},
		Run:         run,
		Min:         map[string]int64{"matched": 5000, "notfound": 5000, "exhaustive_tables": 100},
		MinDistinct: 500,
	})
}

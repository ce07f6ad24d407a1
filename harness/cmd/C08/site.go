package main

import (
	"fmt"
	"net/http"
	"runtime"
	"strings"

	"github.com/wujiu2020/strip"
	"stripverif/h"
)

// mark is the place of the panic that is about to happen: the next line.
var mark string

func here() {
	_, file, line, _ := runtime.Caller(1)
	mark = fmt.Sprintf("%s:%d", file, line+1)
}

//go:noinline
func siteValue(v any) {
	here()
	panic(v)
}

//go:noinline
func siteNil(p *Thing) {
	here()
	p.V++
}

//go:noinline
func siteMap(m map[string]int) {
	here()
	m["x"]++
}

//go:noinline
func siteIndex(a []int, i int) {
	here()
	a[i]++
}

//go:noinline
func siteDefer() {
	defer func() {
		here()
		panic("from a deferred call")
	}()
	fmt.Sprint()
}

// site checks that page and log show where the panic happened.
func site(c *h.C) {
	kinds := []func(){func() { siteValue("v") }, func() { siteValue(fmt.Errorf("e")) }, func() { siteNil(nil) }, func() { siteMap(nil) }, func() { siteIndex(nil, c.IntN(5)+1) }, siteDefer}
	k := c.IntN(len(kinds))
	where := c.Pick("action", "filter", "provider", "after", "notfound")
	dev := c.Chance(70)
	sp, sink := h.NewApp()
	sp.Config.RunMode = strip.ModeProd
	if dev {
		sp.Config.RunMode = strip.ModeDev
	}
	at := func(w string) func() {
		return func() {
			if w == where {
				kinds[k]()
			}
		}
	}
	sp.Filter(strip.RecoveryFilter(), at("filter"), func(ctx strip.Context) { ctx.Next(); at("after")() })
	sp.Provide(func() *Thing { at("provider")(); return &Thing{} })
	sp.Routers(strip.Router("/x", strip.Get(func(t *Thing) { at("action")() })))
	sp.NotFound(at("notfound"))
	path := "/x"
	if where == "notfound" {
		path = "/y"
	}
	c.Note("kind %d in %s, dev %v", k, where, dev)
	c.Sig("site %d %s %v", k, where, dev)
	mark = ""
	rec := h.Serve(sp, h.Req("GET", path))
	c.Eval(1)
	c.Count("sites", 1)
	if mark == "" || rec.Code != http.StatusInternalServerError {
		c.Fatal("site-status", "status %d for a panic at %q", rec.Code, mark)
	}
	if log := strings.Join(sink.All(), "\n"); !strings.Contains(log, mark) {
		c.Fail("site-log", "the log does not show the place %s of the panic:\n%s", mark, log)
	}
	if dev != strings.Contains(rec.Body.String(), mark) {
		c.Fail("site-page", "development mode %v; place %s of the panic; page:\n%s", dev, mark, rec.Body.String())
	}
}

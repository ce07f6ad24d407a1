// C42: what can not work is refused when it is set up.
package main

import (
	"context"
	"fmt"
	"net/url"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/params"
	"github.com/wujiu2020/strip/sessions"
	static "github.com/wujiu2020/strip/static-serve"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/helpers"
	"stripverif/decls"
	"stripverif/h"
)

type some struct{ A int }
type named int

var nop, refused, noFilter = decls.Nop, decls.Refused, decls.NoFilter

// others: applications, injectors, sessions, contexts, configuration.
func others(c *h.C) {
	sp, _ := h.NewApp()
	conf, err := config.LoadIniFromReader(strings.NewReader("a = 1\n"))
	if err != nil {
		c.Inconclusive("%v", err)
	}
	sp.ImportConfig(conf)
	inj := inject.New()
	if c.Chance(50) {
		inj.SetParent(sp.Injector())
	}
	var nilFn func() *some
	bad := []any{5, "text", some{}, named(1), true, []int{1}, map[string]int{}, (*some)(nil), nilFn, nil, inject.Provide{}, inject.Provide{5}, inject.Provide{inject.Dep{0: "x"}, "text"}, inject.Provide{nop, nil},
		inject.Object{}, inject.Object{Value: 5, Name: "n"}, &inject.Object{Value: some{}}, inject.Object{Value: (*some)(nil)}, inject.Object{Value: (*some)(nil), Type: &some{}},
		inject.Provide{nilFn}, inject.Object{Value: nilFn, Name: "n"}, inject.Object{Value: inject.Provide{}, Type: &some{}}, inject.Object{Value: some{}, Type: &some{}}}
	ok := []any{&some{}, func() *some { return nil }, func(*some) (int, error) { return 0, nil }, inject.Provide{func() some { return some{} }}, inject.Provide{inject.Dep{0: "x"}, func(*some) *decls.Full { return nil }},
		inject.Object{Value: &some{}, Name: "n"}, &inject.Object{Value: &decls.Full{}, Type: (*fmt.Stringer)(nil)}}
	target := func(p inject.TypeProvider) func(vs ...any) {
		return func(vs ...any) {
			if c.Chance(50) {
				p.Provide(vs...)
			} else {
				for _, v := range vs {
					p.ProvideAs(v, nil, "n")
				}
			}
		}
	}
	provide := []func(...any){target(sp), target(inj), target(sp.Injector())}[c.IntN(3)]
	n := 0
	x, fl := 5, 1.5
	pf := &params.Params{Values: url.Values{}}
	type env struct {
		A string `conf:"a"`
	}
	expect := func(what string, want bool, f func()) {
		n++
		e := refused(f)
		if (e != nil) != want {
			c.Fail(what, "%s: refused %v (%v), want %v", what, e != nil, e, want)
		}
		if want {
			c.Count("refused calls", 1)
		} else {
			c.Count("accepted calls", 1)
		}
		c.Sig("%s %v", what, want)
	}
	k := c.IntN(len(bad))
	v := bad[k]
	expect(fmt.Sprintf("provider %d %T", k, v), true, func() { provide(&decls.Lone{}, v) })
	k = c.IntN(len(ok))
	expect(fmt.Sprintf("provider fine %d %T", k, ok[k]), false, func() { provide(&decls.Lone{}, ok[k]) })
	f, t := noFilter(c)
	expect("application filter "+t, true, func() { sp.Filter(nop, f) })
	expect("not found "+t, true, func() { sp.NotFound(f) })
	expect("filters", false, func() {
		sp.Filter(nop, strip.FilterFunc(func() inject.Provider { return nop }), inject.Provide{nop}, func() inject.Provider { return nop })
		sp.NotFound(nop)
	})
	switch c.IntN(9) {
	case 0:
		expect("Find value", true, func() { inj.Find(some{}) })
		expect("Exists value", true, func() { inj.Exists(5) })
		var s *some
		expect("Find", false, func() { inj.Find(&s); inj.Exists(&s) })
	case 1:
		prov := provider{}
		expect("no secret", true, func() { sessions.NewSessionManager(prov) })
		prov.secret = "s"
		expect("secret", false, func() { sessions.NewSessionManager(prov) })
	case 2:
		expect("no directory", true, func() { static.ServeFilter(c.Pick("", "/st"), "") })
		expect("directory", false, func() { static.ServeFilter(c.Pick("", "/st"), c.Dir()) })
		expect("directory .", false, func() { static.ServeFilter("", ".") })
	case 3:
		expect("Decode value", true, func() { config.Decode(sp.Config, env{}) })
		expect("Decode int", true, func() { config.Decode(sp.Config, &x) })
		expect("Decode", false, func() { config.Decode(sp.Config, &env{}) })
	case 4:
		expect("Config.Bind value", true, func() { sp.Config.Bind(x, "a") })
		expect("Config.Bind", false, func() { sp.Config.Bind(&x, "a") })
	case 5:
		expect("Params.Bind value", true, func() { pf.Bind(x, "a") })
		expect("BindValuesToStruct", true, func() { pf.BindValuesToStruct(x) })
		expect("Params.Bind", false, func() { pf.Bind(&x, "a") })
	case 6:
		ctx := context.Background()
		expect("CtxWithValue value", true, func() { utils.CtxWithValue(ctx, some{}) })
		expect("CtxWithValue basic", true, func() { utils.CtxWithValue(ctx, &x) })
		expect("CtxWithValue float", true, func() { utils.CtxWithValue(ctx, &fl) })
		s := &some{}
		ps := &s
		expect("CtxWithValue deep", true, func() { utils.CtxWithValue(ctx, &ps) })
		expect("CtxFindValue value", true, func() { utils.CtxFindValue(ctx, some{}) })
		expect("CtxFindValue nil", true, func() { utils.CtxFindValue(ctx, (*some)(nil)) })
		expect("MustCtxFindValue", true, func() { utils.MustCtxFindValue(ctx, &some{}) })
		expect("context", false, func() {
			ctx := utils.CtxWithValue(utils.CtxWithValue(ctx, &s), &some{}, "x")
			utils.MustCtxFindValue(ctx, &s)
			utils.MustCtxFindValue(ctx, &some{}, "x")
		})
	case 7:
		expect("classic option", true, func() { helpers.LoadClassicFilters(sp, []any{"a", "b", nil, 1, struct{}{}, &some{}}[c.IntN(6)]) })
		expect("classic hook", false, func() {
			helpers.LoadClassicFilters(sp, helpers.HookFunc(func(*strip.Strip, helpers.HookFlag) {}))
		})
	case 8:
		p := c.Pick("", " ", "/", "\t/")
		expect(fmt.Sprintf("path %q", p), true, func() { strip.Router(p) })
		expect("path", false, func() { strip.Router(c.Pick("a", "/a", ":a", "/*:a", " /a/ ")) })
	}
	c.Eval(n)
}

type provider struct {
	sessions.SessionProvider
	secret string
}

func (p provider) Config() *sessions.Config { return &sessions.Config{SecretKey: p.secret} }

func main() {
	h.Main(h.Spec{
		ID:          "C42",
		Rule:        "tables of routes (nested, flat, in any order and any number of calls), without a mistake or with something that is no filter as a filter or exemption; and calls on applications, injectors, sessions, contexts, configuration, with usable and unusable values; distinct by declarations and mistake",
		Assumptions: []string{"a refusal is a panic while declaring"},
		Min:         map[string]int64{"accepted tables": 1000, "refused tables": 2000, "refused calls": 2000, "accepted calls": 1000},
		MinDistinct: 2000,
		Run: func(r *h.R) {
			r.Loop("routes", r.N(12000, 200000), func(c *h.C) { decls.Routes(c, []int{decls.None, decls.Filter, decls.Filter}) })
			r.Par("others", r.N(2000, 25000), others)
			r.Loop("others", r.N(8000, 100000), others)
		},
	})
}

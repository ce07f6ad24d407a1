package main

import (
	"fmt"
	"math"
	"net/http"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"stripverif/h"
	"stripverif/rt"
)

// ---- stage routeinfo: RouteInfo seen by route filters and actions

func infoCheck(c *h.C, where string, info *strip.RouteInfo, e *rt.Entry, ps []rt.Param, p string) {
	if info == nil {
		c.Fail("info-nil", "%s: path %q: no route info", where, p)
		return
	}
	if info.Path != e.Pat.String() {
		c.Fail("info-path", "%s: path %q matched %s but RouteInfo.Path=%q", where, p, e.Pat, info.Path)
	}
	var keys []string
	vals := map[string][]string{}
	for _, x := range ps {
		keys = append(keys, x.Name)
		vals[x.Name] = []string{x.Value}
	}
	if strings.Join(keys, ",") != strings.Join(info.Keys, ",") {
		c.Fail("info-keys", "%s: path %q on %s: keys %q, expected %q", where, p, e.Pat, info.Keys, keys)
	}
	if len(info.Values) != len(vals) {
		c.Fail("info-values", "%s: path %q on %s: values %v, expected %v", where, p, e.Pat, info.Values, vals)
	}
	for k, v := range vals {
		if strings.Join(info.Values[k], "\x00") != v[0] || info.Get(k) != v[0] {
			c.Fail("info-values", "%s: path %q on %s: %s=%q, expected %q", where, p, e.Pat, k, info.Values[k], v)
		}
	}
}

func routeinfo(c *h.C) {
	es := rt.Table(c.Rand, 10)
	for _, e := range es {
		c.Note("route %d %s", e.ID, e.Pat)
	}
	type seen struct {
		id      int
		filter  *strip.RouteInfo
		action  *strip.RouteInfo
		after   *strip.RouteInfo
		actions int
	}
	var o seen
	sp, _ := h.NewApp()
	sp.Filter(func(ctx strip.Context) {
		ctx.Next()
		var info *strip.RouteInfo
		if ctx.Find(&info) == nil {
			o.after = info
		}
	})
	decls, groups := rt.RandDecls(c.Rand, es)
	for _, d := range decls {
		sp.Routers(d.Build(c.Rand, func(id int) []strip.Handler {
			return []strip.Handler{
				strip.Get(func(rw http.ResponseWriter, info *strip.RouteInfo) {
					o.id, o.action = id, info
					o.actions++
					rw.WriteHeader(200)
				}).Filter(func(info *strip.RouteInfo) { o.filter = info }),
			}
		}))
	}
	all := append(groups, es...)
	for i := 0; i < 40; i++ {
		p := rt.RandPath(c.Rand, es)
		segs := rt.Split(p)
		if len(segs) == 0 {
			continue
		}
		e, ps := rt.Match(all, segs)
		o = seen{id: -1}
		h.Serve(sp, h.Req("GET", p))
		c.Eval(1)
		if e == nil || !e.Handler {
			if o.actions != 0 {
				c.Fail("ran", "path %q: unexpected action %d", p, o.id)
			}
			if o.after != nil {
				c.Fail("nf-info", "path %q matched nothing but route info %v was visible", p, o.after)
			}
			continue
		}
		if o.id != e.ID || o.actions != 1 {
			c.Fail("resolution", "path %q: expected %d, ran %d", p, e.ID, o.id)
			continue
		}
		infoCheck(c, "filter", o.filter, e, ps, p)
		infoCheck(c, "action", o.action, e, ps, p)
		infoCheck(c, "after", o.after, e, ps, p)
		// the route information of a request is its own
		for _, info := range []*strip.RouteInfo{o.filter, o.action, o.after} {
			if info == nil {
				continue
			}
			info.Path += "changed"
			for i := range info.Keys {
				info.Keys[i] = "changed"
			}
			for k := range info.Values {
				info.Values[k][0] = "changed"
				info.Values[k] = append(info.Values[k], "added")
			}
			if info.Values != nil {
				info.Values["new"] = []string{"new"}
			}
		}
		c.Count("infos", 1)
		if len(ps) > 0 {
			c.Count("params", len(ps))
			if len(ps) > 1 {
				c.Count("multi", 1)
			}
			if v := ps[len(ps)-1]; strings.Contains(v.Value, "/") {
				c.Count("wild_multi", 1)
			}
			c.Sig("%s <- %s", e.Pat, p)
		}
	}
}

// ---- stage args: positional arguments of struct actions

type (
	MyInt   int16
	MyStr   string
	MyBool  bool
	MyBytes []byte
	MyList  []string
	MyF     float32
)

type rec struct {
	calls int
	name  string
	args  []any
}

type Ctl struct {
	r   *rec
	Tag string
}

func (x *Ctl) put(n string, a ...any)                              { x.r.calls++; x.r.name, x.r.args = n, a }
func (x *Ctl) Ints(a int, b int8, c int16, d int32, e int64)       { x.put("Ints", a, b, c, d, e) }
func (x *Ctl) Uints(a uint, b uint8, c uint16, d uint32, e uint64) { x.put("Uints", a, b, c, d, e) }
func (x *Ctl) Uints2(a uint64, b uint32, c uint16, d uint8, e uint) {
	x.put("Uints2", a, b, c, d, e)
}
func (x *Ctl) Ints2(a int64, b int32, c int16, d int8, e int) { x.put("Ints2", a, b, c, d, e) }
func (x *Ctl) Floats(a float64, b float32, c float64)         { x.put("Floats", a, b, c) }
func (x *Ctl) Strs(a string, b MyStr, c string)               { x.put("Strs", a, b, c) }
func (x *Ctl) Mixed(a int, b string, c bool, d float64)       { x.put("Mixed", a, b, c, d) }
func (x *Ctl) Named(a MyInt, b MyBool, c MyF)                 { x.put("Named", a, b, c) }
func (x *Ctl) Bytes(a []byte, b MyBytes)                      { x.put("Bytes", a, b) }
func (x *Ctl) Lists(a []string, b MyList)                     { x.put("Lists", a, b) }
func (x *Ctl) Bools(a, b, c bool)                             { x.put("Bools", a, b, c) }
func (x Ctl) Val(a int32, b string)                           { (&x).put("Val", a, b) }
func (x *Ctl) Many(a int, b, c string, d int8, e, f, g, h, i string, j int, k, l string, m uint8, n, o, p, q string, r int16, s, t string) {
	x.put("Many", a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t)
}
func (x *Ctl) None() { x.put("None") }
func (x *Ctl) Odd(a []int, b map[string]int, c struct{ A int }, d any) {
	x.put("Odd", a, b, c, d)
}
func (x *Ctl) Ptrs(a *int, b *string, c *uint8) { x.put("Ptrs", a, b, c) }

var methods = []string{"Ints", "Uints", "Uints2", "Ints2", "Floats", "Strs", "Mixed", "Named", "Bytes", "Lists", "Bools", "Val", "None", "Odd", "Ptrs", "Many"}

// oracle: conversion of path text to a type; ok=false when the text is not convertible
func conv(s string, t reflect.Type) (reflect.Value, bool) {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(s, 10, t.Bits())
		if err != nil {
			return v, false
		}
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(s, 10, t.Bits())
		if err != nil {
			return v, false
		}
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		n, err := strconv.ParseFloat(s, t.Bits())
		if err != nil {
			return v, false
		}
		v.SetFloat(n)
	case reflect.Bool:
		if s == "on" {
			v.SetBool(true)
			return v, true
		}
		b, err := strconv.ParseBool(s)
		if err != nil {
			return v, false
		}
		v.SetBool(b)
	case reflect.String:
		v.SetString(s)
	case reflect.Slice:
		switch t.Elem().Kind() {
		case reflect.Uint8:
			v.Set(reflect.ValueOf([]byte(s)).Convert(t))
		case reflect.String:
			var l []string
			for _, x := range strings.Split(s, ",") {
				if x = strings.TrimSpace(x); x != "" {
					l = append(l, x)
				}
			}
			v.Set(reflect.ValueOf(l).Convert(t))
		default:
			return v, false
		}
	case reflect.Ptr:
		w, ok := conv(s, t.Elem())
		if !ok {
			return v, false
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(w)
		v.Set(p)
	default:
		return v, false
	}
	return v, true
}

func same(want reflect.Value, got any, ok bool) bool {
	g := reflect.ValueOf(got)
	switch want.Kind() {
	case reflect.Ptr:
		if !g.IsValid() || g.Kind() != reflect.Ptr {
			return false
		}
		if want.IsNil() { // missing or inconvertible: nil, or a pointer to the zero value
			return g.IsNil() || !ok && g.Elem().IsZero()
		}
		return !g.IsNil() && same(want.Elem(), g.Elem().Interface(), ok)
	case reflect.Slice:
		if g.Kind() != reflect.Slice || g.Type() != want.Type() || g.Len() != want.Len() {
			return false
		}
		for i := 0; i < g.Len(); i++ {
			if g.Index(i).Interface() != want.Index(i).Interface() {
				return false
			}
		}
		return true
	case reflect.Interface:
		return got == nil
	case reflect.Float32, reflect.Float64:
		return g.Type() == want.Type() && (g.Float() == want.Float() || math.IsNaN(g.Float()) && math.IsNaN(want.Float()))
	}
	return g.IsValid() && reflect.DeepEqual(got, want.Interface())
}

func text(c *h.C) string {
	ints := []string{"0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536",
		"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
		"-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "007", "+5", "1e3", "0x10", "1_000", "--1", "5000000000"}
	switch c.IntN(8) {
	case 0, 1, 2:
		return ints[c.IntN(len(ints))]
	case 3:
		return strconv.FormatUint(c.Uint64()>>uint(c.IntN(64)), 10)
	case 4:
		return c.Pick("true", "false", "on", "off", "1", "0", "t", "F", "TRUE", "yes")
	case 5:
		return c.Pick("1.5", "-0.25", "3.4e38", "3.5e38", "1e-50", "1.7976931348623157e308", "2e308", "NaN", "Inf", "0.1", ".5", "1.")
	case 6:
		return c.Pick("a,b", "a, b ,,c", ",", "x", "é,ü", "a b", "%41", "a=b")
	default:
		return rt.Value(c.Rand)
	}
}

func args(c *h.C) {
	m := methods[c.IntN(len(methods))]
	mt, _ := reflect.TypeOf(&Ctl{}).MethodByName(m)
	nin := mt.Type.NumIn() - 1
	// a pattern with np parameters interleaved with literals, maybe with a verb, maybe ending in a wildcard
	np := c.IntN(nin + 3)
	var pat rt.Pattern
	pat = append(pat, rt.Seg{Kind: "lit", Text: "r"})
	for i := 0; i < np; i++ {
		if c.Chance(30) {
			pat = append(pat, rt.Seg{Kind: "lit", Text: "lit"})
		}
		s := rt.Seg{Kind: "param", Text: fmt.Sprint("p", i)}
		if c.Chance(20) {
			s.Verb = ":run"
		}
		if i == np-1 && c.Chance(25) {
			s = rt.Seg{Kind: "wild", Text: fmt.Sprint("p", i)}
		}
		pat = append(pat, s)
	}
	r := &rec{}
	sp, sink := h.NewApp()
	_ = sink
	var ctl any = Ctl{r: r, Tag: "t"}
	if c.Chance(50) {
		ctl = &Ctl{r: r, Tag: "t"}
	}
	// the same controller value is registered several times with differing actions
	other := methods[c.IntN(len(methods))]
	hs := []strip.Handler{strip.Get(ctl).Action(m), strip.Post(ctl).Action(other)}
	c.Shuffle(2, func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	sp.Routers(strip.Router(pat.String(), hs...))
	c.Note("pattern %s action %s %v", pat, m, mt.Type)
	for k := 0; k < 6; k++ {
		var segs, vals []string
		for _, s := range pat {
			switch s.Kind {
			case "lit":
				segs = append(segs, s.Text)
			case "param":
				v := text(c)
				vals = append(vals, v)
				segs = append(segs, v+s.Verb)
			case "wild":
				v := text(c)
				if c.Chance(40) {
					v += "/" + text(c)
				}
				vals = append(vals, v)
				segs = append(segs, v)
			}
		}
		p := "/" + strings.Join(segs, "/")
		if strings.TrimSpace(p) != p {
			continue
		}
		*r = rec{}
		h.Serve(sp, h.Req("GET", p))
		c.Eval(1)
		if r.calls != 1 || r.name != m {
			c.Fail("action", "path %q: action %s ran %d times (last %q)", p, m, r.calls, r.name)
			continue
		}
		for i := 0; i < nin; i++ {
			want, ok := reflect.New(mt.Type.In(i+1)).Elem(), true
			if i < len(vals) {
				want, ok = conv(vals[i], mt.Type.In(i+1))
			}
			if !same(want, r.args[i], ok) {
				c.Fail("arg", "path %q: argument %d of %s is %#v, expected %#v", p, i, m, r.args[i], want.Interface())
			}
			c.Count("args", 1)
		}
		sort.Strings(vals)
		c.Sig("%s %s", m, strings.Join(vals, "|"))
	}
}

func main() {
	h.Main(h.Spec{
		ID:          "C02",
		Rule:        "routeinfo: random tables x random paths, RouteInfo in filter, action and after delegation compared with the reference match; args: struct actions of 15 signatures under random patterns with boundary values, arguments compared with strconv at the destination's width. Non-trivial: a match with at least one parameter; distinct by (pattern, path) or (action, values).",
		Assumptions: []string{"parameter names within one route are distinct", "a pointer argument for inconvertible text may be nil or point to zero"},
		Run: func(r *h.R) {
			r.Par("routeinfo", r.N(375, 10000), routeinfo)
			r.Loop("routeinfo", r.N(1500, 40000), routeinfo)
			r.Par("args", r.N(1250, 25000), args)
			r.Loop("args", r.N(5000, 100000), args)
		},
		Min:         map[string]int64{"infos": 5000, "params": 5000, "multi": 500, "wild_multi": 100, "args": 10000},
		MinDistinct: 3000,
	})
}

package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/wujiu2020/strip/inject"
	"stripverif/h"
)

type G0 struct{ V int }
type G1 struct{ V int }
type G2 struct{ V int }
type G3 struct{ V int }
type G4 struct{ V int }
type G5 struct{ V int }
type G6 struct{ V int }
type G7 struct{ V int }
type Iface interface{ None() }

var gt = []reflect.Type{reflect.TypeOf(G0{}), reflect.TypeOf(G1{}), reflect.TypeOf(G2{}), reflect.TypeOf(G3{}),
	reflect.TypeOf(G4{}), reflect.TypeOf(G5{}), reflect.TypeOf(G6{}), reflect.TypeOf(G7{})}

type dep struct {
	t   int
	ptr bool
}

type entry struct {
	deps  []dep
	ptr   bool // result form
	wrong bool // yields something of another type
	value bool
}

func (e *entry) gives(ptr bool) bool { return !e.wrong && (e.ptr || !ptr) }

type scope struct {
	id      int
	inj     inject.Injector
	parent  *scope
	regs    map[int]*entry
	touched map[int]bool // was in the closure of a lookup made here
}

func (s *scope) find(t int) *entry {
	for p := s; p != nil; p = p.parent {
		if e := p.regs[t]; e != nil {
			return e
		}
	}
	return nil
}

// resolves is the reference: whether t can be built in s, and what that looks at.
func (s *scope) resolves(t int, ptr bool, path map[int]bool, seen map[int]bool) bool {
	seen[t] = true
	e := s.find(t)
	if e == nil || path[t] {
		return false
	}
	path[t] = true
	defer delete(path, t)
	ok := true
	for _, d := range e.deps {
		if !s.resolves(d.t, d.ptr, path, seen) {
			ok = false
		}
	}
	return ok && e.gives(ptr)
}

func (s *scope) register(c *h.C, t int, maxDeps, low int) {
	e := &entry{ptr: c.Chance(80), wrong: c.Chance(3), value: c.Chance(15)}
	p := reflect.New(gt[t])
	p.Elem().Field(0).SetInt(int64(s.id*100 + t))
	if e.wrong {
		x := "wrong"
		p = reflect.ValueOf(&x)
	}
	if e.value {
		e.ptr = true
		s.regs[t] = e
		s.inj.ProvideAs(p.Interface(), reflect.Zero(reflect.PointerTo(gt[t])).Interface())
		c.Note("scope %d: G%d value wrong=%v", s.id, t, e.wrong)
		return
	}
	var in []reflect.Type
	for k := c.IntN(maxDeps + 1); k > 0; k-- {
		d := dep{t: c.IntN(len(gt)), ptr: c.Chance(60)}
		if low > 0 && c.Chance(97) { // mostly acyclic
			if t == 0 {
				break
			}
			d.t = c.IntN(t)
		}
		e.deps = append(e.deps, d)
		if d.ptr {
			in = append(in, reflect.PointerTo(gt[d.t]))
		} else {
			in = append(in, gt[d.t])
		}
	}
	out := p
	if !e.ptr {
		out = p.Elem()
	}
	f := reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{out.Type()}, false), func(a []reflect.Value) []reflect.Value {
		return []reflect.Value{out}
	}).Interface()
	s.regs[t] = e
	s.inj.ProvideAs(f, reflect.Zero(reflect.PointerTo(gt[t])).Interface())
	c.Note("scope %d: G%d deps %v ptr=%v wrong=%v", s.id, t, e.deps, e.ptr, e.wrong)
}

func one(c *h.C) {
	n := 1 + c.IntN(4)
	var sc []*scope
	for i := 0; i < n; i++ {
		s := &scope{id: i, inj: inject.New(), regs: map[int]*entry{}, touched: map[int]bool{}}
		if i > 0 {
			s.parent = sc[c.IntN(i)]
			s.inj.SetParent(s.parent.inj)
		}
		sc = append(sc, s)
	}
	low := c.IntN(4)
	missing := []int{0, 2, 10}[c.IntN(3)]
	for t := range gt {
		if !c.Chance(missing) {
			sc[0].register(c, t, 3, low)
		}
	}
	for i := 1; i < n; i++ {
		for k := c.IntN(5); k > 0; k-- {
			sc[i].register(c, c.IntN(len(gt)), 3, low)
		}
	}
	var sig []string
	dirty := false
	for step := 0; step < 14; step++ {
		s := sc[c.IntN(n)]
		t := c.IntN(len(gt))
		if c.Chance(12) {
			s.register(c, t, 3, low)
			dirty = true
			continue
		}
		ptr := c.Chance(60)
		ts := []dep{{t, ptr}}
		how := c.IntN(3)
		if how > 0 {
			for k := c.IntN(3); k > 0; k-- {
				ts = append(ts, dep{c.IntN(len(gt)), c.Chance(60)})
			}
		}
		ok, maybe := true, false
		for _, d := range ts {
			seen := map[int]bool{}
			if !s.resolves(d.t, d.ptr, map[int]bool{}, seen) {
				ok = false
			}
			for x := range seen {
				if dirty && s.touched[x] {
					maybe = true
				}
			}
			for x := range seen {
				s.touched[x] = true
			}
		}
		ft := func(d dep) reflect.Type {
			if d.ptr {
				return reflect.PointerTo(gt[d.t])
			}
			return gt[d.t]
		}
		var err error
		called := false
		names := []string{"Find", "Invoke", "Apply"}
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Fatal("graph-panic", "%s %v in scope %d panicked: %v", names[how], ts, s.id, e)
				}
			}()
			switch how {
			case 0:
				d := reflect.New(ft(ts[0]))
				err = s.inj.Find(d.Interface())
				if (err == nil) == d.Elem().IsZero() && (err != nil || s.id*100+t != 0) {
					if err != nil {
						c.Fail("partial", "failed Find of G%d touched its destination", t)
					}
				}
			case 1:
				var in []reflect.Type
				for _, d := range ts {
					in = append(in, ft(d))
				}
				_, err = s.inj.Invoke(reflect.MakeFunc(reflect.FuncOf(in, nil, false), func(a []reflect.Value) []reflect.Value {
					called = true
					return nil
				}).Interface())
				if called != (err == nil) {
					c.Fail("target-called", "Invoke error %v, target called %v", err, called)
				}
			case 2:
				var fs []reflect.StructField
				for i, d := range ts {
					fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", i), Type: ft(d), Tag: "inject"})
				}
				err = s.inj.Apply(reflect.New(reflect.StructOf(fs)).Interface())
			}
		}()
		c.Eval(1)
		sig = append(sig, fmt.Sprint(s.id, ts, how, ok))
		switch {
		case ok && err != nil:
			c.Fail("refused", "%s %v in scope %d: complete and acyclic, but %v", names[how], ts, s.id, err)
		case !ok && err == nil && !maybe:
			c.Fail("accepted", "%s %v in scope %d: incomplete or circular, but no error", names[how], ts, s.id)
		}
		if ok {
			c.Count("resolved", 1)
		} else if err != nil {
			c.Count("errors", 1)
			if strings.Contains(err.Error(), "cycle") {
				c.Count("cycles", 1)
			}
		}
	}
	c.Sig("%d %s", n, strings.Join(sig, ","))
}

// layers: deep and wide graphs must stay cheap and succeed; long cycles must fail.
func layers(c *h.C) {
	depth := 1 + c.IntN(60)
	width := 1 + c.IntN(4)
	cyc := c.Chance(40)
	inj := inject.New()
	typ := func(l, i int) reflect.Type { // distinct types by array length
		return reflect.ArrayOf(l*8+i+1, reflect.TypeOf(byte(0)))
	}
	runs := 0
	for l := 0; l < depth; l++ {
		for i := 0; i < width; i++ {
			t := typ(l, i)
			var in []reflect.Type
			if l > 0 {
				for j := 0; j < width; j++ {
					in = append(in, reflect.PointerTo(typ(l-1, j)))
				}
			} else if cyc {
				in = append(in, reflect.PointerTo(typ(depth-1, 0)))
			}
			inj.Provide(reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{reflect.PointerTo(t)}, false), func([]reflect.Value) []reflect.Value {
				runs++
				return []reflect.Value{reflect.New(t)}
			}).Interface())
		}
	}
	child := inject.New()
	child.SetParent(inj)
	d := reflect.New(reflect.PointerTo(typ(depth-1, width-1)))
	err := child.Find(d.Interface())
	c.Note("depth %d width %d cyclic %v", depth, width, cyc)
	c.Count("layered", 1)
	want := cyc && (depth > 1 || width == 1)
	if depth == 1 && width > 1 {
		// the last one of the only layer depends on the first one, which depends on itself
		want = cyc
	}
	if want != (err != nil) {
		c.Fail("layers", "depth %d width %d cyclic %v: error %v", depth, width, cyc, err)
	}
	if err == nil && runs > depth*width {
		c.Fail("layers-runs", "depth %d width %d: %d provider runs", depth, width, runs)
	}
	c.Sig("layers %d %d %v", depth, width, cyc)
}

func main() {
	h.Main(h.Spec{
		ID:          "C13",
		Rule:        "random provider graphs over 8 types and injector trees: mostly acyclic or fully random dependencies, missing and wrongly typed providers, overrides in children, value and pointer arguments; histories of Find, Invoke and Apply interleaved with registrations; success is compared with a graph search; layered graphs up to depth 60, width 4. Distinct by history.",
		Assumptions: []string{"after a registration that follows lookups, a lookup of an incomplete graph may still succeed from results already cached in that injector"},
		Run: func(r *h.R) {
			r.Par("graph", r.N(6250, 200000), one)
			r.Loop("graph", r.N(25000, 800000), one)
			r.Loop("layers", r.N(1500, 20000), layers)
		},
		Min:         map[string]int64{"resolved": 30000, "errors": 30000, "cycles": 5000, "layered": 500},
		MinDistinct: 10000,
	})
}

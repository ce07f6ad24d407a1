package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/wujiu2020/strip/inject"
	"stripverif/h"
)

// Inst is what a provider made: which entry, which run, from what.
type Inst struct {
	Entry, Run int
	Deps       []*Inst
}
type P0 struct{ *Inst }
type P1 struct{ *Inst }
type P2 struct{ *Inst }
type P3 struct{ *Inst }
type P4 struct{ *Inst }
type P5 struct{ *Inst }

var ptypes = []reflect.Type{reflect.TypeOf(P0{}), reflect.TypeOf(P1{}), reflect.TypeOf(P2{}), reflect.TypeOf(P3{}), reflect.TypeOf(P4{}), reflect.TypeOf(P5{})}

type entry struct {
	id   int
	typ  int
	deps []int
	ptr  bool // yields a pointer
	runs int
}

type scope struct {
	inj    inject.Injector
	parent *scope
	regs   map[int]*entry
	made   map[*entry]*Inst // what this injector got from the entry
}

func (s *scope) find(t int) *entry {
	for p := s; p != nil; p = p.parent {
		if e := p.regs[t]; e != nil {
			return e
		}
	}
	return nil
}

type world struct {
	c    *h.C
	sc   []*scope
	want map[*entry]int // expected number of runs
	ids  int
	run  int
}

// expect marks everything a resolution in s makes.
func (w *world) expect(s *scope, t int, fresh map[*entry]bool) {
	e := s.find(t)
	if s.made[e] != nil || fresh[e] {
		return
	}
	for _, d := range e.deps {
		w.expect(s, d, fresh)
	}
	fresh[e] = true
	w.want[e]++
}

// check compares an instance delivered in s with what is known.
func (w *world) check(s *scope, t int, got *Inst, how string) {
	e := s.find(t)
	if got == nil {
		w.c.Fatal("nil", "%s of P%d gave nothing", how, t)
	}
	if got.Entry != e.id {
		w.c.Fatal("wrong-entry", "%s of P%d came from registration %d, the nearest is %d", how, t, got.Entry, e.id)
	}
	if m := s.made[e]; m != nil {
		if m != got {
			w.c.Fatal("twice", "%s of P%d gave run %d of registration %d, this injector already has run %d", how, t, got.Run, e.id, m.Run)
		}
		w.c.Count("reused", 1)
		return
	}
	s.made[e] = got
	for i, d := range e.deps {
		w.check(s, d, got.Deps[i], how+" dep")
	}
}

func inst(v reflect.Value) *Inst {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	return v.Field(0).Interface().(*Inst)
}

func (w *world) register(s *scope, t int) {
	c := w.c
	w.ids++
	e := &entry{id: w.ids, typ: t, ptr: c.Chance(60)}
	var in []reflect.Type
	for d := 0; d < t; d++ {
		if c.Chance(40) {
			e.deps = append(e.deps, d)
			in = append(in, ptypes[d])
		}
	}
	out := ptypes[t]
	if e.ptr {
		out = reflect.PointerTo(out)
	}
	outs := []reflect.Type{out}
	if c.Chance(20) {
		outs = append(outs, reflect.TypeOf(0))
	}
	fn := reflect.MakeFunc(reflect.FuncOf(in, outs, false), func(a []reflect.Value) []reflect.Value {
		e.runs++
		w.run++
		i := &Inst{Entry: e.id, Run: w.run}
		for _, x := range a {
			i.Deps = append(i.Deps, inst(x))
		}
		p := reflect.New(ptypes[t])
		p.Elem().Field(0).Set(reflect.ValueOf(i))
		r := []reflect.Value{p}
		if !e.ptr {
			r[0] = p.Elem()
		}
		if len(outs) > 1 {
			r = append(r, reflect.ValueOf(e.id))
		}
		return r
	}).Interface()
	var prov interface{} = fn
	switch c.IntN(3) {
	case 0:
		prov = inject.Provide{fn}
	case 1:
		prov = inject.Object{Value: fn}
	}
	s.regs[t] = e
	s.inj.Provide(prov)
	c.Note("register %d: P%d deps %v ptr=%v in scope %p", e.id, t, e.deps, e.ptr, s)
}

func one(c *h.C) {
	w := &world{c: c, want: map[*entry]int{}}
	n := 1 + c.IntN(4)
	for i := 0; i < n; i++ {
		s := &scope{inj: inject.New(), regs: map[int]*entry{}, made: map[*entry]*Inst{}}
		if i > 0 {
			s.parent = w.sc[c.IntN(i)]
			s.inj.SetParent(s.parent.inj)
		}
		w.sc = append(w.sc, s)
	}
	for t := range ptypes {
		w.register(w.sc[0], t)
	}
	var all []*entry
	seen := map[*entry]bool{}
	var sig []string
	for step := 0; step < 20; step++ {
		si := c.IntN(n)
		s := w.sc[si]
		t := c.IntN(len(ptypes))
		op := c.IntN(10)
		sig = append(sig, fmt.Sprint(op, si, t))
		switch {
		case op < 2:
			w.register(s, t)
		case op < 5:
			w.expect(s, t, map[*entry]bool{})
			d := reflect.New(ptypes[t])
			if err := s.inj.Find(d.Interface()); err != nil {
				c.Fatal("find", "Find P%d: %v", t, err)
			}
			w.check(s, t, inst(d), "Find")
		case op < 6:
			w.expect(s, t, map[*entry]bool{})
			st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: ptypes[t], Tag: "inject"}}))
			if err := s.inj.Apply(st.Interface()); err != nil {
				c.Fatal("apply", "Apply P%d: %v", t, err)
			}
			w.check(s, t, inst(st.Elem().Field(0)), "Apply")
		default:
			w.invoke(s, c.IntN(3))
		}
		for _, s := range w.sc {
			for _, e := range s.regs {
				if !seen[e] {
					seen[e] = true
					all = append(all, e)
				}
			}
		}
		for _, e := range all {
			if e.runs != w.want[e] {
				c.Fatal("runs", "step %d: registration %d (P%d) ran %d times, expected %d", step, e.id, e.typ, e.runs, w.want[e])
			}
		}
		c.Eval(1)
	}
	for _, e := range all {
		c.Count("provider_runs", e.runs)
	}
	c.Sig("%d %s", n, strings.Join(sig, ","))
}

var errX = errors.New("x")

// invoke calls a function with random arguments and results, sometimes reentrant.
func (w *world) invoke(s *scope, depth int) {
	c := w.c
	var args []int
	var in []reflect.Type
	for k := c.IntN(4); k > 0; k-- {
		t := c.IntN(len(ptypes))
		args = append(args, t)
		in = append(in, ptypes[t])
	}
	w.expectAll(s, args)
	outs := []reflect.Type{}
	var res []reflect.Value
	for k := c.IntN(3); k > 0; k-- {
		t := c.IntN(len(ptypes))
		var v reflect.Value
		mine := &Inst{Entry: -1}
		switch c.IntN(6) {
		case 0:
			p := reflect.New(ptypes[t])
			p.Elem().Field(0).Set(reflect.ValueOf(mine))
			v = p
		case 1:
			p := reflect.New(ptypes[t])
			p.Elem().Field(0).Set(reflect.ValueOf(mine))
			v = p.Elem()
		case 2:
			v = reflect.ValueOf(c.IntN(1000))
		case 3:
			v = reflect.New(reflect.TypeOf((*error)(nil)).Elem()).Elem()
			v.Set(reflect.ValueOf(errX))
		case 4:
			v = reflect.ValueOf([]int{c.IntN(9)})
		case 5:
			v = reflect.Zero(reflect.PointerTo(ptypes[t]))
		}
		outs = append(outs, v.Type())
		res = append(res, v)
	}
	calls := 0
	fn := reflect.MakeFunc(reflect.FuncOf(in, outs, false), func(a []reflect.Value) []reflect.Value {
		calls++
		for i, x := range a {
			w.check(s, args[i], inst(x), "Invoke")
		}
		if depth > 0 {
			w.invoke(s, depth-1)
		}
		return res
	}).Interface()
	if c.Chance(30) {
		fn = inject.Provide{inject.Dep{}, fn}
	}
	c.Note("invoke func(%v) %v", in, outs)
	out, err := s.inj.Invoke(fn)
	c.Count("invokes", 1)
	if err != nil {
		c.Fatal("invoke-error", "Invoke: %v", err)
	}
	if calls != 1 {
		c.Fatal("invoke-calls", "Invoke of func(%v) %v called it %d times", in, outs, calls)
	}
	if len(out) != len(res) {
		c.Fatal("invoke-results", "Invoke returned %d results, function %d", len(out), len(res))
	}
	for i := range out {
		if !reflect.DeepEqual(out[i].Interface(), res[i].Interface()) {
			c.Fatal("invoke-results", "result %d is %v, function returned %v", i, out[i], res[i])
		}
	}
}

type (
	eStruct struct{ N int }
	eSlice  []int
	eMap    map[string]int
	eFunc   func()
	eChan   chan int
	eIface  interface{ M() }
	eInt    int
)

// empty: what a provider yields may be nil or zero, it has run all the same.
func empty(c *h.C) {
	types := []reflect.Type{
		reflect.TypeOf(&eStruct{}), reflect.TypeOf(eStruct{}), reflect.TypeOf(eSlice{}), reflect.TypeOf(eMap{}), reflect.TypeOf(eFunc(nil)),
		reflect.TypeOf(eChan(nil)), reflect.TypeOf((*eIface)(nil)).Elem(), reflect.TypeOf(eInt(0)), reflect.TypeOf((**eStruct)(nil)).Elem(),
	}
	inj := inject.New()
	if c.Chance(50) {
		inj.SetParent(inject.New())
	}
	runs := make([]int, 0, len(types))
	perm := c.Perm(len(types))
	seen := map[reflect.Type]bool{}
	var use []reflect.Type
	for _, k := range perm {
		t := types[k]
		key := t
		if t.Kind() == reflect.Ptr {
			key = t.Elem()
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		i := len(use)
		use = append(use, t)
		runs = append(runs, 0)
		var in []reflect.Type
		if i > 0 && c.Chance(50) {
			in = append(in, use[c.IntN(i)])
		}
		outs := []reflect.Type{t}
		if c.Chance(30) {
			outs = append(outs, reflect.TypeOf((*error)(nil)).Elem())
		}
		fn := reflect.MakeFunc(reflect.FuncOf(in, outs, false), func(a []reflect.Value) (r []reflect.Value) {
			runs[i]++
			for _, o := range outs {
				r = append(r, reflect.Zero(o))
			}
			return
		}).Interface()
		inj.Provide(fn)
	}
	for k := 0; k < 12; k++ {
		i := c.IntN(len(use))
		switch c.IntN(3) {
		case 0:
			if err := inj.Find(reflect.New(use[i]).Interface()); err != nil {
				c.Fatal("empty-find", "Find of %v: %v", use[i], err)
			}
		case 1:
			st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: use[i], Tag: "inject"}}))
			if err := inj.Apply(st.Interface()); err != nil {
				c.Fatal("empty-apply", "Apply of %v: %v", use[i], err)
			}
		default:
			calls := 0
			fn := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{use[i]}, nil, false), func(a []reflect.Value) []reflect.Value { calls++; return nil })
			if _, err := inj.Invoke(fn.Interface()); err != nil || calls != 1 {
				c.Fatal("empty-invoke", "Invoke of func(%v): %d calls, %v", use[i], calls, err)
			}
		}
		c.Eval(1)
	}
	for i, n := range runs {
		if n > 1 {
			c.Fail("twice", "the provider of an empty %v ran %d times in one injector", use[i], n)
		}
		c.Count("empty_runs", n)
	}
	c.Sig("empty %v %v", use, runs)
}

func (w *world) expectAll(s *scope, ts []int) {
	fresh := map[*entry]bool{}
	for _, t := range ts {
		w.expect(s, t, fresh)
	}
}

func main() {
	h.Main(h.Spec{
		ID:          "C12",
		Rule:        "random injector trees with counting providers over 6 types with acyclic dependencies; 20 steps of registering, Find, Apply and (nested) Invoke of functions with random argument and result types, including types that are registered; after every step each provider's run count and the identity of every delivered instance and of what it was built from are compared with the model. Distinct by history.",
		Assumptions: []string{"what was built before a dependency is registered anew keeps what it was built from"},
		Run: func(r *h.R) {
			r.Par("once", r.N(2000, 75000), one)
			r.Loop("once", r.N(8000, 300000), one)
			r.Loop("empty", r.N(2000, 50000), empty)
		},
		Min:         map[string]int64{"invokes": 50000, "provider_runs": 50000, "empty_runs": 5000, "reused": 50000},
		MinDistinct: 5000,
	})
}

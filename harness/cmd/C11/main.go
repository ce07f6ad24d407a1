package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/wujiu2020/strip/inject"
	"stripverif/h"
)

// Types the injectors serve; two local types share one name.
type T1 struct{ V int }
type T2 struct{ V int }
type I1 interface{ ID() int }
type I2 interface {
	ID() int
	Two()
}
type Str string
type Gen[T any] struct{ V T }

func (t *T1) ID() int { return t.V }
func (t *T2) ID() int { return t.V }
func (t *T2) Two()    {}

type Fn func() int

func localA() reflect.Type { type Local struct{ V int }; return reflect.TypeOf(Local{}) }
func localB() reflect.Type { type Local struct{ V int }; return reflect.TypeOf(Local{}) }

var types = []reflect.Type{
	reflect.TypeOf(T1{}), reflect.TypeOf(T2{}), reflect.TypeOf((*I1)(nil)).Elem(), reflect.TypeOf((*I2)(nil)).Elem(),
	reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(Str("")), reflect.TypeOf([]int{}), reflect.TypeOf([]string{}),
	reflect.TypeOf(map[string]int{}), reflect.TypeOf(Gen[int]{}), reflect.TypeOf(Gen[string]{}), localA(), localB(),
	reflect.TypeOf(struct{ A int }{}), reflect.TypeOf(struct{ B string }{}),
}
var names = []string{"", "a", "b", "A", "a:b", ":"}

// make a distinguishable value of the type (or an implementation of it).
func value(c *h.C, t reflect.Type, id int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Interface:
		if t == types[2] && c.Chance(50) {
			v.Set(reflect.ValueOf(&T1{id}))
		} else {
			v.Set(reflect.ValueOf(&T2{id}))
		}
	case reflect.Int:
		v.SetInt(int64(id))
	case reflect.String:
		v.SetString(fmt.Sprint(id))
	case reflect.Slice:
		v = reflect.MakeSlice(t, 1, 1)
		if t.Elem().Kind() == reflect.Int {
			v.Index(0).SetInt(int64(id))
		} else {
			v.Index(0).SetString(fmt.Sprint(id))
		}
	case reflect.Map:
		v = reflect.ValueOf(map[string]int{"id": id})
	case reflect.Struct:
		if f := v.Field(0); f.Kind() == reflect.Int {
			f.SetInt(int64(id))
		} else {
			f.SetString(fmt.Sprint(id))
		}
	}
	return v
}

// entry is a registration in the model.
type entry struct {
	id   int
	out  reflect.Type                // static type of what a lookup yields
	val  func(s *scope) (int, error) // identity of what a lookup in that scope yields
	deps []key
	fn   bool
}

type key struct {
	t    reflect.Type
	name string
}

func (k key) String() string { return fmt.Sprintf("%v/%q", k.t, k.name) }

type scope struct {
	id     int
	inj    inject.Injector
	parent *scope
	regs   map[key]*entry
	cache  map[key]bool
}

func (s *scope) find(k key) *entry {
	for p := s; p != nil; p = p.parent {
		if e := p.regs[k]; e != nil {
			return e
		}
	}
	return nil
}

// ident reads the identity back from a value.
func ident(v reflect.Value) string {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return "nil"
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.Len() == 0 {
			return "zero"
		}
		return ident(v.Index(0))
	case reflect.Map:
		if v.Len() == 0 {
			return "zero"
		}
		return ident(v.MapIndex(reflect.ValueOf("id")))
	case reflect.Struct:
		return ident(v.Field(0))
	}
	return fmt.Sprint(v.Interface())
}

func indirect(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

// assignable is the reference rule for delivering a provider result.
func assignable(out, dst reflect.Type) bool {
	return out.AssignableTo(dst) || out.Kind() == reflect.Ptr && out.Elem().AssignableTo(dst)
}

func one(c *h.C) {
	// a tree of injectors
	n := 1 + c.IntN(5)
	deep := c.Chance(4)
	if deep {
		n = 30
	}
	var sc []*scope
	for i := 0; i < n; i++ {
		s := &scope{id: i, inj: inject.New(), regs: map[key]*entry{}, cache: map[key]bool{}}
		if i > 0 {
			s.parent = sc[c.IntN(i)]
			if deep {
				s.parent = sc[i-1]
			}
			s.inj.SetParent(s.parent.inj)
		}
		sc = append(sc, s)
	}
	id := 100
	ts := make([]reflect.Type, 0, 6)
	for i := 0; i < 6; i++ {
		ts = append(ts, types[c.IntN(len(types))])
	}
	pick := func() key {
		nm := ""
		if c.Chance(40) {
			nm = names[c.IntN(len(names))]
		}
		return key{ts[c.IntN(len(ts))], nm}
	}
	var sig []string
	for step := 0; step < 25; step++ {
		s := sc[c.IntN(n)]
		k := pick()
		if c.Chance(40) { // register
			id++
			me := id
			e := &entry{id: id}
			v := value(c, k.t, id)
			var prov interface{}
			form := ""
			switch c.IntN(4) {
			case 0, 1: // pointer value
				p := reflect.New(k.t)
				p.Elem().Set(v)
				e.out = p.Type()
				prov = p.Interface()
				form = "ptr"
				if k.t.Kind() == reflect.Interface && c.Chance(70) { // the implementation itself
					prov = v.Elem().Interface()
					e.out = v.Elem().Type()
					form = "impl"
				}
				if form == "ptr" && c.Chance(20) {
					pp := reflect.New(p.Type())
					pp.Elem().Set(p)
					prov, e.out, form = pp.Interface(), pp.Type(), "ptrptr"
				}
			case 2: // function giving the value
				ft := reflect.FuncOf(nil, []reflect.Type{k.t}, false)
				prov = reflect.MakeFunc(ft, func([]reflect.Value) []reflect.Value { return []reflect.Value{v} }).Interface()
				e.out, e.fn, form = k.t, true, "func"
			case 3: // function giving a pointer, built from a dependency's identity
				p := reflect.New(k.t)
				p.Elem().Set(v)
				ft := reflect.FuncOf(nil, []reflect.Type{p.Type()}, false)
				prov = reflect.MakeFunc(ft, func([]reflect.Value) []reflect.Value { return []reflect.Value{p} }).Interface()
				e.out, e.fn, form = p.Type(), true, "funcptr"
			}
			// how it is registered
			typ := reflect.Zero(reflect.PointerTo(k.t)).Interface()
			how := c.IntN(4)
			if form == "impl" || k.name != "" && how == 0 {
				how = 1 + c.IntN(3)
			}
			switch how {
			case 0:
				s.inj.Provide(prov)
			case 1:
				if k.name == "" && c.Chance(50) {
					s.inj.ProvideAs(prov, typ)
				} else {
					s.inj.ProvideAs(prov, typ, k.name)
				}
			case 2:
				s.inj.Provide(inject.Object{Value: prov, Type: typ, Name: k.name})
			case 3:
				o := &inject.Object{Value: prov, Name: "zzz"}
				s.inj.ProvideAs(o, typ, k.name)
			}
			s.regs[k] = e
			delete(s.cache, k)
			c.Note("register %d in %d: %v %s how=%d", me, s.id, k, form, how)
			sig = append(sig, fmt.Sprint("r", s.id, k, form))
			c.Count("registered", 1)
			continue
		}
		// look up, through Find, a function argument or a field
		e := s.find(k)
		if e != nil && e.fn {
			// what a scope has cached stays, even when a parent registers anew
			for p := s; ; p = p.parent {
				if p.regs[k] != nil {
					break
				}
			}
		}
		dst := k.t
		switch c.IntN(4) {
		case 0, 1:
			dst = reflect.PointerTo(k.t)
		case 2:
			if c.Chance(20) {
				dst = reflect.PointerTo(reflect.PointerTo(k.t))
			}
		}
		want := ""
		if e != nil && assignable(e.out, dst) {
			want = fmt.Sprint(e.id)
		}
		got, how := "", ""
		switch c.IntN(3) {
		case 0:
			how = "Find"
			d := reflect.New(dst)
			d.Elem().Set(sentinel(dst))
			var err error
			if k.name == "" && c.Chance(50) {
				err = s.inj.Find(d.Interface())
			} else {
				err = s.inj.Find(d.Interface(), k.name)
			}
			if err == nil {
				got = ident(d.Elem())
			} else if !reflect.DeepEqual(d.Elem().Interface(), sentinel(dst).Interface()) {
				c.Fail("touched", "failed Find of %v as %v from %d changed its destination to %s", k, dst, s.id, ident(d.Elem()))
			}
		case 1:
			how = "Invoke"
			called := 0
			f := reflect.MakeFunc(reflect.FuncOf([]reflect.Type{dst}, nil, false), func(a []reflect.Value) []reflect.Value {
				called++
				got = ident(a[0])
				return nil
			}).Interface()
			if k.name != "" || c.Chance(30) {
				f = inject.Provide{inject.Dep{0: k.name}, f}
			}
			_, err := s.inj.Invoke(f)
			if (err == nil) != (called == 1) {
				c.Fail("invoke", "Invoke error %v but called %d times", err, called)
			}
		case 2:
			how = "Apply"
			tag := reflect.StructTag("inject")
			if k.name != "" {
				tag = reflect.StructTag(fmt.Sprintf("inject:%q", k.name))
			}
			st := reflect.StructOf([]reflect.StructField{{Name: "F", Type: dst, Tag: tag}})
			d := reflect.New(st)
			d.Elem().Field(0).Set(sentinel(dst))
			err := s.inj.Apply(d.Interface())
			if err == nil {
				got = ident(d.Elem().Field(0))
			} else if !reflect.DeepEqual(d.Elem().Field(0).Interface(), sentinel(dst).Interface()) {
				c.Fail("touched", "failed Apply of %v as %v from %d changed its destination", k, dst, s.id)
			}
		}
		c.Eval(1)
		sig = append(sig, fmt.Sprint("l", s.id, k, dst, how))
		if want != "" {
			c.Count("found", 1)
		} else {
			c.Count("missed", 1)
		}
		if got != want {
			c.Fail("resolve-"+how, "%s of %v as %v from injector %d (parents %v): expected %q, got %q", how, k, dst, s.id, parents(s), want, got)
		}
		// Exists never calls providers and finds values only
		ex := s.inj.Exists(reflect.New(dst).Interface(), k.name)
		if (ex == nil) != (e != nil && (e.fn || assignable(e.out, dst))) {
			c.Fail("exists", "Exists of %v as %v from %d: %v", k, dst, s.id, ex)
		}
	}
	c.Sig("%d %s", n, strings.Join(sig, " "))
}

func parents(s *scope) (out []int) {
	for s = s.parent; s != nil; s = s.parent {
		out = append(out, s.id)
	}
	return
}

func sentinel(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int:
		v.SetInt(-5)
	case reflect.String:
		v.SetString("keep")
	}
	return v
}

// many: each of any number of arguments gets what is provided under its own name.
func many(c *h.C) {
	n := 1 + c.IntN(40)
	inj := inject.New()
	dep := inject.Dep{}
	var in []reflect.Type
	var want []int
	for i := 0; i < n; i++ {
		nm := fmt.Sprint("n", i%(1+c.IntN(n)))
		if c.Chance(10) {
			nm = ""
		} else {
			dep[i] = nm
		}
		var t *T1
		if inj.Find(&t, nm) != nil {
			t = &T1{1000 + i}
			inj.ProvideAs(t, nil, nm)
		}
		want = append(want, t.V)
		in = append(in, reflect.TypeOf(t))
	}
	var got []int
	fn := reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{reflect.TypeOf(&T2{})}, false), func(a []reflect.Value) []reflect.Value {
		for _, v := range a {
			got = append(got, v.Interface().(*T1).V)
		}
		return []reflect.Value{reflect.ValueOf(&T2{5})}
	}).Interface()
	c.Note("%v", dep)
	inj.Provide(inject.Provide{dep, fn})
	var t *T2
	if err := inj.Find(&t); err != nil || t.V != 5 || !reflect.DeepEqual(got, want) {
		c.Fatal("many", "%v: got %v, want %v", err, got, want)
	}
	got = nil
	if _, err := inj.Invoke(inject.Provide{dep, fn}); err != nil || !reflect.DeepEqual(got, want) {
		c.Fatal("many", "invoked: %v: got %v, want %v", err, got, want)
	}
	c.Count("many", 1)
}

// override: providers of a parent resolved from a child use the child's dependencies.
func override(c *h.C) {
	depth := 2 + c.IntN(3)
	if c.Chance(5) {
		depth = 5 + c.IntN(40)
	}
	var sc []inject.Injector
	for i := 0; i < depth; i++ {
		s := inject.New()
		if i > 0 {
			s.SetParent(sc[i-1])
		}
		sc = append(sc, s)
	}
	// T2 is built from T1 by a provider of one ancestor; T1 is provided at random levels
	at := map[int]int{}
	prov := c.IntN(depth)
	byName := c.Chance(30)
	nm := ""
	if byName {
		nm = "x"
	}
	sc[prov].Provide(inject.Provide{inject.Dep{0: nm}, func(t *T1) *T2 { return &T2{t.V * 10} }})
	for i := 0; i < depth; i++ {
		if c.Chance(50) {
			at[i] = i + 1
			sc[i].ProvideAs(&T1{i + 1}, (*T1)(nil), nm)
		}
	}
	order := c.Perm(depth)
	c.Note("depth %d provider at %d, T1 at %v, order %v", depth, prov, at, order)
	c.Sig("%d %d %v %v %s", depth, prov, at, order, nm)
	for _, i := range order {
		want := 0
		if i >= prov {
			for j := i; j >= 0; j-- {
				if at[j] > 0 {
					want = at[j] * 10
					break
				}
			}
		}
		got := &T2{}
		if err := sc[i].Find(&got); err != nil {
			got = &T2{0}
		}
		c.Eval(1)
		c.Count("overrides", 1)
		if got.V != want {
			c.Fail("override", "level %d: expected %d, got %d", i, want, got.V)
		}
	}
	// registering in a child is invisible above
	sc[depth-1].ProvideAs(&T1{99}, (*T1)(nil), "own")
	var t *T1
	for i := 0; i < depth-1; i++ {
		if sc[i].Find(&t, "own") == nil {
			c.Fail("leak", "registration in a child is visible at level %d", i)
		}
	}
}

func main() {
	h.Main(h.Spec{
		ID:          "C11",
		Rule:        "random trees of injectors with values and functions registered for named, unnamed, generic, local, interface and basic types under several names through every registration form; lookups through Find, Invoke and Apply in value, pointer and double pointer form compared with a scoped reference map; provider overrides along chains. Distinct by history.",
		Assumptions: []string{"a value is delivered as it is or, if it is a pointer, dereferenced once; anything else is not assignable"},
		Run: func(r *h.R) {
			r.Par("resolve", r.N(3750, 125000), one)
			r.Loop("resolve", r.N(15000, 500000), one)
			r.Par("override", r.N(750, 25000), override)
			r.Loop("many", r.N(500, 10000), many)
			r.Loop("override", r.N(3000, 100000), override)
		},
		Min:         map[string]int64{"registered": 30000, "found": 10000, "missed": 10000, "overrides": 5000},
		MinDistinct: 10000,
	})
}

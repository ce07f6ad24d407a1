package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/wujiu2020/strip/inject"
	"stripverif/h"
)

type A struct{ V int }
type B struct{ V string }
type I interface{ ID() int }
type Deep struct {
	X int
	A *A `inject`
}

func (a *A) ID() int { return a.V }

var (
	tA = reflect.TypeOf(A{})
	tB = reflect.TypeOf(B{})
	tI = reflect.TypeOf((*I)(nil)).Elem()
	tN = reflect.TypeOf(0)
	tM = reflect.TypeOf(map[string]int{})
)

type gen struct {
	c     *h.C
	n     int
	want  []func(v reflect.Value) string // checks after Apply
	bad   []string                       // fields which cannot be satisfied
	names []string
	prov  map[string]bool
	path  []string
	fills int
	keeps int
}

var leaf = []reflect.Type{tA, reflect.PointerTo(tA), tB, reflect.PointerTo(tB), tI, tN, reflect.PointerTo(tN), tM, reflect.PointerTo(tM)}

func elem(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

// build makes a struct type and an initialiser and records what Apply must do.
func (g *gen) build(level int, pre []int, active bool) (reflect.Type, func(v reflect.Value)) {
	c := g.c
	var fs []reflect.StructField
	var inits []func(v reflect.Value)
	fields := 1 + c.IntN(5)
	if level == 1 && c.Chance(4) {
		fields = 40
	}
	for k := fields; k > 0; k-- {
		g.n++
		i := len(fs)
		name := fmt.Sprint("F", g.n)
		at := append(append([]int{}, pre...), i)
		if level < 5 && c.Chance(35) { // nested struct
			form := c.IntN(4)
			act := active && level < inject.INJECT_MAX_RECURSIVE_LEVEL
			f := reflect.StructField{Name: name}
			if form == 3 {
				act = false // nil pointer or unexported or excluded
			}
			tag := ""
			nilPtr := form == 3 && c.Chance(60)
			if form == 3 && !nilPtr {
				tag = `inject:"-"`
			}
			sub := at
			if form == 1 || form == 3 {
				// pointer: dereference marker
				sub = append(sub, -1)
			}
			if nilPtr {
				nt, _ := (&gen{c: c, n: g.n, prov: g.prov, names: g.names}).build(level+1, nil, false)
				f.Type = reflect.PointerTo(nt)
				at := at
				g.want = append(g.want, func(v reflect.Value) string {
					if x := walk(v, at); !x.IsNil() {
						return name + " was nil and is set"
					}
					return ""
				})
				fs = append(fs, f)
				continue
			}
			nt, ni := g.build(level+1, sub, act)
			switch form {
			case 0:
				f.Type = nt
				inits = append(inits, func(v reflect.Value) { ni(v.Field(i)) })
			case 2:
				f.Type, f.Anonymous = nt, true
				inits = append(inits, func(v reflect.Value) { ni(v.Field(i)) })
			default:
				f.Type = reflect.PointerTo(nt)
				inits = append(inits, func(v reflect.Value) { p := reflect.New(nt); ni(p.Elem()); v.Field(i).Set(p) })
			}
			f.Tag = reflect.StructTag(tag)
			fs = append(fs, f)
			continue
		}
		t := leaf[c.IntN(len(leaf))]
		f := reflect.StructField{Name: name, Type: t}
		tagged, inj := false, ""
		switch c.IntN(8) {
		case 0, 1, 2:
			f.Tag, tagged = "inject", true
		case 3:
			inj, tagged = g.names[1+c.IntN(len(g.names)-1)], true
			f.Tag = reflect.StructTag(fmt.Sprintf("inject:%q", inj))
		case 4:
			inj, tagged = g.names[1+c.IntN(len(g.names)-1)], true
			f.Tag = reflect.StructTag(fmt.Sprintf("json:\"x\" inject:%q", inj))
		case 5:
			f.Tag = `inject:"-"`
		case 6:
			f.Tag = `json:"inject"`
		}
		unexp := c.Chance(10)
		if unexp {
			f.Name, f.PkgPath = "f"+name, "main"
		}
		fs = append(fs, f)
		init := keepValue(t, g.n)
		if !unexp {
			inits = append(inits, func(v reflect.Value) { v.Field(i).Set(init) })
		}
		if tagged && active && !unexp {
			key := elem(t).String() + "/" + inj
			if !g.prov[key] {
				g.bad = append(g.bad, strings.Join([]string{f.Name, key}, ":"))
				continue
			}
			g.fills++
			want := ident(g.value(elem(t), inj))
			g.want = append(g.want, func(v reflect.Value) string {
				if got := ident(walk(v, at)); got != want {
					return fmt.Sprintf("%s (%v %q) is %s, expected %s", f.Name, t, f.Tag, got, want)
				}
				return ""
			})
			continue
		}
		g.keeps++
		want := ident(init)
		g.want = append(g.want, func(v reflect.Value) string {
			x := walk(v, at)
			if unexp {
				if !x.IsZero() {
					return f.Name + " is unexported and was set"
				}
				return ""
			}
			if got := ident(x); got != want {
				return fmt.Sprintf("%s (%v %q) must keep %s, is %s", f.Name, t, f.Tag, want, got)
			}
			return ""
		})
	}
	t := reflect.StructOf(fs)
	return t, func(v reflect.Value) {
		for _, f := range inits {
			f(v)
		}
	}
}

func walk(v reflect.Value, at []int) reflect.Value {
	for _, i := range at {
		if i == -1 {
			v = v.Elem()
		} else {
			v = v.Field(i)
		}
	}
	return v
}

func ident(v reflect.Value) string {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return "nil"
		}
		v = v.Elem()
	}
	return fmt.Sprint(v)
}

func keepValue(t reflect.Type, n int) reflect.Value {
	switch t {
	case tA:
		return reflect.ValueOf(A{-n})
	case tB:
		return reflect.ValueOf(B{fmt.Sprint("keep", n)})
	case tN:
		return reflect.ValueOf(-n)
	}
	return reflect.Zero(t)
}

func (g *gen) value(t reflect.Type, name string) reflect.Value {
	x := len(name) + 1
	switch t {
	case tA:
		return reflect.ValueOf(&A{x})
	case tI:
		return reflect.ValueOf(&A{x + 50})
	case tB:
		return reflect.ValueOf(&B{"v" + name})
	case tN:
		x += 70
		return reflect.ValueOf(&x)
	case tM:
		return reflect.ValueOf(&map[string]int{name: x})
	}
	panic(t)
}

func one(c *h.C) {
	g := &gen{c: c, names: []string{"", "a", "bb", "c c"}, prov: map[string]bool{}}
	parent, inj := inject.New(), inject.New()
	inj.SetParent(parent)
	missing := []int{0, 0, 10}[c.IntN(3)]
	for _, t := range []reflect.Type{tA, tB, tI, tN, tM} {
		for _, n := range g.names {
			if c.Chance(missing) {
				continue
			}
			g.prov[t.String()+"/"+n] = true
			to := inj
			if c.Chance(40) {
				to = parent
			}
			v := g.value(t, n)
			typ := reflect.Zero(reflect.PointerTo(t)).Interface()
			if c.Chance(40) {
				f := reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{v.Type()}, false), func([]reflect.Value) []reflect.Value {
					return []reflect.Value{v}
				}).Interface()
				to.ProvideAs(f, typ, n)
			} else {
				to.ProvideAs(v.Interface(), typ, n)
			}
		}
	}
	t, init := g.build(1, nil, true)
	v := reflect.New(t)
	init(v.Elem())
	c.Note("%v\nmissing %v", t, g.bad)
	c.Sig("%v", t)
	err := inj.Apply(v.Interface())
	c.Count("applied", 1)
	if len(g.bad) > 0 {
		c.Count("unsatisfied", 1)
		if err == nil {
			c.Fail("no-error", "no error although %v cannot be resolved", g.bad)
		}
		return
	}
	if err != nil {
		c.Fatal("error", "everything can be resolved, but %v", err)
	}
	for _, w := range g.want {
		if m := w(v.Elem()); m != "" {
			c.Fail("field", "%s", m)
		}
	}
	c.Count("filled", g.fills)
	c.Count("kept", g.keeps)
}

// Typed structs which reflect.StructOf cannot make.
type Embedded struct {
	A  *A `inject`
	B  B  `inject:"n"`
	no *A
}
type Outer struct {
	Embedded
	*Deep
	Self *Outer
	L2   struct {
		L3 struct {
			A  *A `inject`
			L4 struct {
				A *A `inject`
			}
		}
	}
	I    I `inject`
	V    A `inject`
	PP   **A
	Any  interface{}
	hide *A `inject`
}

// namesakes: types are not told apart by what they are called.
func namesakes(c *h.C) {
	inj := inject.New()
	n := c.IntN(100)
	inj.Provide(&A{n})
	inj.ProvideAs(&A{n + 1}, (*A)(nil), "other")
	inj.Provide(&B{"b"})
	steps := []func() error{
		func() error {
			type T struct {
				X *A `inject`
				Y *A
				Z *B `inject`
			}
			v := T{}
			err := inj.Apply(&v)
			if err == nil && (v.X == nil || v.X.V != n || v.Y != nil || v.Z == nil) {
				err = fmt.Errorf("1: %+v", v)
			}
			return err
		},
		func() error {
			type T struct {
				X *A
				Y *A `inject:"other"`
				Z *B `inject:"-"`
			}
			v := T{}
			err := inj.Apply(&v)
			if err == nil && (v.X != nil || v.Y == nil || v.Y.V != n+1 || v.Z != nil) {
				err = fmt.Errorf("2: %+v", v)
			}
			return err
		},
		func() error {
			type T struct {
				Z A `inject:"other"`
				Y B `inject`
				X A
			}
			v := struct{ T }{}
			err := inj.Apply(&v)
			if err == nil && (v.Z.V != n+1 || v.Y.V != "b" || v.X.V != 0) {
				err = fmt.Errorf("3: %+v", v)
			}
			return err
		},
	}
	for _, i := range c.Perm(len(steps)) {
		if err := steps[i](); err != nil {
			c.Fatal("namesakes", "%v", err)
		}
	}
	c.Count("namesakes", 1)
}

func typed(c *h.C) {
	inj := inject.New()
	n := 1 + c.IntN(100)
	inj.Provide(&A{n})
	inj.ProvideAs(&B{"n"}, (*B)(nil), "n")
	inj.ProvideAs(&A{n + 1}, (*I)(nil))
	o := &Outer{}
	if c.Chance(50) {
		o.Deep = &Deep{X: 3}
	}
	if c.Chance(50) {
		o.Self = o
	}
	if err := inj.Apply(o); err != nil {
		c.Fatal("typed", "%v", err)
	}
	c.Count("typed", 1)
	c.Sig("typed %d %v %v", n, o.Deep != nil, o.Self != nil)
	ok := o.Embedded.A != nil
	ok = ok && o.Embedded.A.V == n && o.B.V == "n" && o.no == nil && o.hide == nil && o.V.V == n && o.PP == nil && o.Any == nil
	ok = ok && o.L2.L3.A != nil && o.L2.L3.A.V == n && o.L2.L3.L4.A == nil && o.I.ID() == n+1
	ok = ok && (o.Deep == nil || o.Deep.X == 3 && o.Deep.A.V == n)
	if !ok {
		c.Fail("typed", "unexpected result %+v", o)
	}
	// not a struct: an error, no panic
	for _, x := range []interface{}{1, new(int), "x", nil, (*Outer)(nil)} {
		if inj.Apply(x) == nil {
			c.Fail("nostruct", "Apply(%T) gave no error", x)
		}
	}
	// a value of the wrong type is an error
	inj2 := inject.New()
	inj2.ProvideAs(&B{}, (*A)(nil))
	var s struct {
		A A `inject`
	}
	if inj2.Apply(&s) == nil {
		c.Fail("unassignable", "a *B provided as A was applied without error")
	}
	inj2.ProvideAs(func() A { return A{5} }, (*A)(nil))
	var p struct {
		A *A `inject`
	}
	if err := inj2.Apply(&p); err == nil && (p.A == nil || p.A.V != 5) {
		c.Fail("unassignable", "no error but the field is %v", p.A)
	}
}

func main() {
	h.Main(h.Spec{
		ID:          "C14",
		Rule:        "random struct types (up to 5 levels, by value, pointer, nil pointer, embedded) with tagged, named, excluded, foreign tagged, untagged and unexported fields in value, pointer and interface form, applied against injector chains that provide everything or miss something; every field is compared with what it must hold. Distinct by struct type.",
		Assumptions: []string{"structs are filled down to INJECT_MAX_RECURSIVE_LEVEL levels"},
		Run: func(r *h.R) {
			r.Par("random", r.N(2250, 75000), one)
			r.Loop("random", r.N(9000, 300000), one)
			r.Loop("namesakes", r.N(100, 1000), namesakes)
			r.Par("typed", r.N(75, 750), typed)
			r.Loop("typed", r.N(300, 3000), typed)
		},
		Min:         map[string]int64{"filled": 10000, "kept": 10000, "unsatisfied": 500, "typed": 100, "namesakes": 100},
		MinDistinct: 5000,
	})
}

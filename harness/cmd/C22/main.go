package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"stripverif/h"
)

type src map[string]string

func (s src) Find(n string) string { return s[n] }

type (
	myInt    int8
	myUint   uint16
	myStr    string
	myBool   bool
	myFloat  float32
	myStrs   []string
	myBytes  []byte
	iface    interface{ M() }
	anything interface{}
)

var leafs = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf([]string(nil)), reflect.TypeOf([]byte(nil)),
	reflect.TypeOf(myInt(0)), reflect.TypeOf(myUint(0)), reflect.TypeOf(myStr("")), reflect.TypeOf(myBool(false)), reflect.TypeOf(myFloat(0)), reflect.TypeOf(myStrs(nil)), reflect.TypeOf(myBytes(nil)), reflect.TypeOf(strip.Mode("")),
}

// destinations whose texts have no meaning: must stay as they are.
var odd = []reflect.Type{
	reflect.TypeOf(map[string]string(nil)), reflect.TypeOf([]int(nil)), reflect.TypeOf([3]int{}), reflect.TypeOf(complex64(0)), reflect.TypeOf((*error)(nil)).Elem(),
	reflect.TypeOf((*iface)(nil)).Elem(), reflect.TypeOf((*anything)(nil)).Elem(), reflect.TypeOf((chan int)(nil)), reflect.TypeOf((func())(nil)), reflect.TypeOf([][]string(nil)), reflect.TypeOf([]myStr(nil)),
	reflect.TypeOf((*map[string]int)(nil)), reflect.TypeOf([]*string(nil)), reflect.TypeOf(uintptr(0)), reflect.TypeOf([2]byte{}), reflect.TypeOf((**struct{ A int })(nil)),
}

var boolTexts = map[string]bool{"1": true, "t": true, "T": true, "TRUE": true, "true": true, "True": true, "on": true, "0": false, "f": false, "F": false, "FALSE": false, "false": false, "False": false}

func digits(c *h.C) string {
	n := 1 + c.IntN(22)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + c.IntN(10))
	}
	return string(b)
}

func decimal(s string) bool {
	if s == "" {
		return false
	}
	for _, r := range s {
		if r < '0' || r > '9' {
			return false
		}
	}
	return true
}

// genInt gives a text and the integer it denotes, if it does.
func genInt(c *h.C, bits int, signed bool) (string, *big.Int) {
	one := big.NewInt(1)
	lim := new(big.Int).Lsh(one, uint(bits))
	min := big.NewInt(0)
	if signed {
		lim.Rsh(lim, 1)
		min.Neg(lim)
	}
	max := new(big.Int).Sub(lim, one)
	v := new(big.Int)
	switch c.IntN(8) {
	case 0:
		v.Set(max)
	case 1:
		v.Set(min)
	case 2:
		v.Add(max, one)
	case 3:
		v.Sub(min, one)
	case 4:
		v.SetString(digits(c), 10)
		if c.Chance(50) {
			v.Neg(v)
		}
	case 5:
		return c.Pick(" ", "x", "1x", "1 2", "0x10", "1.0", "1e3", "--1", "+", "-", "1_000", "١", "true", "1,2", "1."), nil
	default:
		v.SetInt64(int64(c.IntN(256)) - 100)
	}
	t := v.String()
	if c.Chance(10) && v.Sign() >= 0 {
		t = "00" + t
	}
	if c.Chance(10) && signed && v.Sign() >= 0 {
		t = "+" + t
	}
	if v.Cmp(max) > 0 || v.Cmp(min) < 0 {
		return t, nil
	}
	return t, v
}

func genFloat(c *h.C, bits int) (string, float64, bool) {
	switch c.IntN(6) {
	case 0:
		return c.Pick("x", "1,5", "1e", "--1", "1 ", ".", "1e400", "-1e999", "0x"), 0, false
	case 1:
		if bits == 32 {
			return c.Pick("1e39", "-4e38", "3.5e38"), 0, false
		}
		return "1e309", 0, false
	case 2:
		if bits == 32 {
			return "3.4028234663852886e+38", math.MaxFloat32, true
		}
		return "1.7976931348623157e308", math.MaxFloat64, true
	}
	var f float64
	if bits == 32 {
		f = float64(math.Float32frombits(c.Uint32()))
	} else {
		f = math.Float64frombits(c.Uint64())
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		f = 1.5
	}
	return strconv.FormatFloat(f, c.Pick("e", "g", "f")[0], -1, bits), f, true
}

func genList(c *h.C) (string, []string) {
	out := []string{}
	var parts []string
	n := c.IntN(5)
	if c.Chance(15) {
		n = c.IntN(30)
	}
	for i := 0; i < n; i++ {
		s := c.Pick("a", "b c", "中", "x=y", "1", "a")
		if c.Chance(25) {
			parts = append(parts, c.Pick("", " ", "\t"))
			continue
		}
		out = append(out, s)
		parts = append(parts, c.Pick("", " ", "  ")+s+c.Pick("", " "))
	}
	return strings.Join(parts, ","), out
}

// genText gives a text for the type and the value the destination must have,
// or an invalid value when it must stay as it is.
func genText(c *h.C, t reflect.Type) (text string, want reflect.Value, valid bool) {
	if c.Chance(10) {
		return "", reflect.Value{}, false
	}
	want = reflect.New(t).Elem()
	valid = true
	switch t.Kind() {
	case reflect.Ptr:
		text, w, ok := genText(c, t.Elem())
		if !w.IsValid() {
			return text, reflect.Value{}, false
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(w)
		return text, p, ok
	case reflect.Bool:
		if c.Chance(25) {
			return c.Pick("yes", "2", "tRUE", "off", "On", "no", " true"), want, false
		}
		for k, v := range boolTexts {
			if c.Chance(20) || text == "" {
				text = k
				want.SetBool(v)
			}
		}
		return
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		text, v := genInt(c, t.Bits(), true)
		if v != nil {
			want.SetInt(v.Int64())
		}
		return text, want, v != nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		text, v := genInt(c, t.Bits(), false)
		if v != nil {
			want.SetUint(v.Uint64())
		}
		return text, want, v != nil
	case reflect.Float32, reflect.Float64:
		text, v, ok := genFloat(c, t.Bits())
		want.SetFloat(v)
		return text, want, ok
	case reflect.String:
		text = c.Pick("x", " padded ", "中国", "a,b", "0", "false", "\x00\xff", strings.Repeat("long", 100))
		want.SetString(text)
		return
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			text = c.Pick("x", " padded ", "\x00\xff", "中")
			want.SetBytes([]byte(text))
			return
		}
		if !reflect.TypeOf([]string(nil)).ConvertibleTo(t) {
			return "a,b", reflect.Value{}, false
		}
		text, l := genList(c)
		if text == "" {
			return "", reflect.Value{}, false
		}
		want.Set(reflect.ValueOf(l).Convert(t))
		return text, want, true
	}
	return c.Pick("x", "1", "a,b", "{}", "null", "[]"), reflect.Value{}, false
}

func genType(c *h.C) reflect.Type {
	t := leafs[c.IntN(len(leafs))]
	if c.Chance(15) {
		t = odd[c.IntN(len(odd))]
	}
	for c.Chance(20) {
		t = reflect.PtrTo(t)
	}
	return t
}

// fill gives a destination a value that would show when it were changed.
func fill(c *h.C, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if c.Chance(50) {
			p := reflect.New(v.Type().Elem())
			fill(c, p.Elem())
			v.Set(p)
		}
	case reflect.Bool:
		v.SetBool(c.Chance(50))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(77)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(77)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(7.5)
	case reflect.String:
		v.SetString("kept")
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 2))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf("kept"))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(c, v.Field(i))
			}
		}
	}
}

// clone copies what fill makes.
func clone(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(clone(v.Elem()))
			n.Set(p)
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(s, v)
			n.Set(s)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(clone(v.Field(i)))
			}
		}
	}
	return n
}

func same(a, b reflect.Value) bool {
	if a.Kind() == reflect.Func {
		return a.IsNil() == b.IsNil()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func show(v reflect.Value) string {
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	return fmt.Sprintf("%#v", v)
}

// bind: single variables.
func bind(c *h.C) {
	t := genType(c)
	dst := reflect.New(t)
	fill(c, dst.Elem())
	before := clone(dst.Elem())
	text, want, valid := genText(c, t)
	s := src{"k": text, "s::k": text, "other": "wrong"}
	sp := strip.New()
	if c.Chance(90) {
		sp.ImportConfig(s)
	} else {
		want = reflect.Value{}
		c.Count("no_config", 1)
	}
	if !want.IsValid() {
		want = before
		c.Count("kept", 1)
	} else if valid {
		c.Count("valid", 1)
	} else {
		c.Count("malformed", 1)
	}
	name := c.Pick("k", "s::k")
	c.Note("type %v text %q", t, text)
	sp.Config.Bind(dst.Interface(), name)
	if !same(dst.Elem(), want) {
		c.Fatal("bind", "binding %q into %v gave %s, want %s (before %s)", text, t, show(dst.Elem()), show(want), show(before))
	}
	c.Sig("bind %v %q", t, text)
}

type fixedEmbed struct {
	Host string `conf:"host"`
	Port int    `conf:"port"`
}

type hidden struct {
	Level uint8 `conf:"level"`
	plain string
}

type Deep struct {
	hidden
	Where string `conf:"where"`
}

type fixed struct {
	fixedEmbed
	Deep
	secret string `conf:"host"`
	count  *int   `conf:"port"`
	sect   struct {
		Host string `conf:"host"`
	} `conf:"sec"`
	Sec struct {
		Host  string `conf:"host"`
		inner int    `conf:"port"`
		Skip  string `conf:"-"`
		None  string
	} `conf:"sec"`
	NoTag struct {
		Host string `conf:"host"`
	}
	Minus struct {
		Host string `conf:"host"`
	} `conf:"-"`
	P *struct {
		Host string `conf:"host"`
	} `conf:"sec"`
}

// unexported: embedded structs and fields no one outside may set.
func unexported(c *h.C) {
	s := src{"host": fmt.Sprint("h", c.IntN(100)), "port": fmt.Sprint(c.IntN(1000)), "level": fmt.Sprint(c.IntN(256)), "where": fmt.Sprint("w", c.IntN(10)), "sec::host": fmt.Sprint("s", c.IntN(100)), "sec::port": "5"}
	one := 1
	e := fixed{secret: "secret", count: &one}
	e.sect.Host, e.Sec.Skip, e.Sec.None, e.Sec.inner = "a", "b", "c", 9
	e.NoTag.Host, e.Minus.Host, e.plain = "d", "e", "f"
	want := e
	want.Host, want.Where, want.Sec.Host = s["host"], s["where"], s["sec::host"]
	fmt.Sscan(s["port"], &want.Port)
	fmt.Sscan(s["level"], &want.Level)
	sp := strip.New()
	sp.ImportConfig(s)
	config.Decode(sp.Config, &e)
	if !reflect.DeepEqual(e, want) || one != 1 {
		c.Fatal("unexported", "decoded %+v, want %+v", e, want)
	}
	c.Count("unexported", 1)
	c.Sig("unexported %q", s)
}

// namesakes: types are not told apart by what they are called.
func namesakes(c *h.C) {
	sp := strip.New()
	sp.ImportConfig(src{"a": "1", "b": "two", "s::a": "3", "s::b": "four"})
	steps := []func() (any, any){
		func() (any, any) {
			type T struct {
				X int    `conf:"a"`
				Y string `conf:"b"`
			}
			x := struct {
				T
				S T `conf:"s"`
			}{}
			config.Decode(sp.Config, &x)
			return []T{x.T, x.S}, []T{{1, "two"}, {3, "four"}}
		},
		func() (any, any) {
			type T struct {
				X string `conf:"b"`
				Y int    `conf:"-"`
			}
			x := struct {
				T
				S T `conf:"s"`
			}{}
			config.Decode(sp.Config, &x)
			return []T{x.T, x.S}, []T{{"two", 0}, {"four", 0}}
		},
		func() (any, any) {
			type T struct {
				Y string `conf:"a"`
				X int8   `conf:"a"`
			}
			x := T{}
			config.Decode(sp.Config, &x)
			return x, T{"1", 1}
		},
	}
	for _, i := range c.Perm(len(steps)) {
		if a, b := steps[i](); !reflect.DeepEqual(a, b) {
			c.Fatal("namesakes", "%d: decoded %+v, want %+v", i, a, b)
		}
	}
	c.Count("namesakes", 1)
}

type field struct {
	path []int
	name string // lookup name, "" when nothing may change
}

// genStruct makes a struct type; it returns the fields with their lookup names.
func genStruct(c *h.C, sec string, top bool, depth int) (reflect.Type, []field) {
	var fs []reflect.StructField
	var out []field
	n := 1 + c.IntN(6)
	embedded := false
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
		tag := fmt.Sprintf("n%d%d", depth, c.IntN(9))
		name := tag
		if sec != "" {
			name = sec + "::" + tag
		}
		switch k := c.IntN(10); {
		case k == 0:
			tag, name = "-", ""
		case k == 1:
			tag, name = "", ""
		}
		switch {
		case top && depth < 3 && c.Chance(20): // a section
			ft, sub := genStruct(c, tag, false, depth+1)
			f.Type = ft
			for _, s := range sub {
				if name == "" {
					s.name = ""
				}
				out = append(out, field{append([]int{i}, s.path...), s.name})
			}
		case top && depth < 3 && !embedded && c.Chance(15): // embedded: its fields count as own ones
			embedded = true
			ft, sub := genStruct(c, sec, true, depth+1)
			f.Type, f.Anonymous = ft, true
			f.Name = fmt.Sprintf("E%d", i)
			for _, s := range sub {
				out = append(out, field{append([]int{i}, s.path...), s.name})
			}
		default:
			f.Type = genType(c)
			out = append(out, field{[]int{i}, name})
		}
		if tag != "" {
			f.Tag = reflect.StructTag(fmt.Sprintf(`json:"x" conf:%q`, tag))
		} else if c.Chance(50) {
			f.Tag = `json:"x"`
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs), out
}

func decode(c *h.C) {
	t, fs := genStruct(c, "", true, 0)
	s := src{"": "wrong", "-": "wrong", "x": "wrong"}
	dst := reflect.New(t)
	fill(c, dst.Elem())
	before := clone(dst.Elem())
	wants := make([]reflect.Value, len(fs))
	typeOf := map[string]reflect.Type{}
	for i, f := range fs {
		if f.name == "" || c.Chance(20) {
			continue
		}
		ft := t.FieldByIndex(f.path).Type
		if old, ok := typeOf[f.name]; ok {
			if old != ft {
				f.name = ""
			}
			continue
		}
		typeOf[f.name] = ft
		text, want, _ := genText(c, ft)
		s[f.name] = text
		wants[i] = want
	}
	// equal names: same type shares the value, another type reads the same text
	for i, f := range fs {
		if f.name == "" || wants[i].IsValid() {
			continue
		}
		ft := t.FieldByIndex(f.path).Type
		if typeOf[f.name] == ft {
			for j, g := range fs {
				if j != i && g.name == f.name && t.FieldByIndex(g.path).Type == ft && wants[j].IsValid() {
					wants[i] = wants[j]
				}
			}
		} else if typeOf[f.name] != nil {
			// not judged: drop the text
			delete(s, f.name)
			for j, g := range fs {
				if g.name == f.name {
					wants[j] = reflect.Value{}
				}
			}
			delete(typeOf, f.name)
			typeOf[f.name] = nil
		}
	}
	for i, f := range fs {
		if s[f.name] == "" {
			wants[i] = reflect.Value{}
		}
	}
	sp := strip.New()
	sp.ImportConfig(s)
	c.Note("type %v\nconfig %q", t, s)
	config.Decode(sp.Config, dst.Interface())
	for i, f := range fs {
		got, want := dst.Elem().FieldByIndex(f.path), wants[i]
		kind := "set"
		if !want.IsValid() {
			want, kind = before.FieldByIndex(f.path), "kept"
		}
		if !same(got, want) {
			c.Fatal("decode-"+kind, "field %v (%s, %v) = %s, want %s (%s)", f.path, f.name, got.Type(), show(got), show(want), kind)
		}
		c.Count("field_"+kind, 1)
		if len(f.path) > 1 {
			c.Count("nested_"+kind, 1)
		}
	}
	c.Sig("decode %v %q", t, s)
}

// wrong: destinations that are no pointers are refused, nothing else.
func main() {
	h.Main(h.Spec{
		ID:          "C22",
		Rule:        "destinations of every scalar, named, list, byte, pointer and unsupported type, pre-filled with other values, are bound to texts made from known values (limits, just beyond them, malformed ones) or to nothing; generated struct types (sections, embedded structs, excluded and untagged fields) are decoded and every field is compared with the value or with what it held before",
		Assumptions: []string{"an empty text counts as not configured", "fields of sections are not nested further"},
		Min:         map[string]int64{"valid": 3000, "malformed": 500, "kept": 1000, "no_config": 300, "field_set": 3000, "field_kept": 3000, "nested_set": 500, "unexported": 50},
		MinDistinct: 4000,
		Run: func(r *h.R) {
			r.Par("bind", r.N(3000, 150000), bind)
			r.Loop("bind", r.N(12000, 600000), bind)
			r.Loop("namesakes", r.N(100, 1000), namesakes)
			r.Loop("unexported", r.N(100, 1000), unexported)
			r.Par("decode", r.N(1000, 15000), decode)
			r.Loop("decode", r.N(4000, 60000), decode)
		},
	})
}

var _ = decimal

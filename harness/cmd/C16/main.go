package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing/iotest"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	"stripverif/h"
)

type MyInt int16
type MyU uint8
type MyStr string
type MyBool bool
type MyFloat float32
type MyList []int

type Addr struct {
	City string
	Zip  int32
	priv string
}
type Emb struct {
	EName string
	ENum  uint16
	EList []int8
}
type EmbP struct {
	PName string
	PInts []int
}
type inner struct{ IName string }

type User struct {
	Emb
	Name  string
	Age   uint8
	Score float32
	OK    bool
	Home  Addr
	Tags  []string
	Addrs []Addr
	When  time.Time
	P     *int
	M     map[string]int
	note  string
	Any   interface{}
	Fn    func()
}

type WithPtr struct {
	*EmbP
	Own string
}

type Deep struct {
	U  User
	Us []User
	LL [][]int
	W  WithPtr
	MM map[int]string
	T  MyStr
}

// types an application registered binders for
type (
	Hex   int32    // by type, before its kind
	Point struct { // by type, a struct bound from one text
		X, Y int
	}
	Cplx  complex64 // by kind, which has no binder of its own
	Shape struct {
		At  Point
		Ats []Point
		By  map[string]Hex
		H   Hex
		HP  *Hex
		Z   complex128
		N   int32
	}
)

var custom = map[reflect.Type]bool{
	reflect.TypeOf(Hex(0)): true, reflect.TypeOf(Point{}): true, reflect.TypeOf(Cplx(0)): true, reflect.TypeOf(complex128(0)): true,
}

func parsePoint(s string) (p Point) {
	a, b, ok := strings.Cut(s, ";")
	x, e1 := strconv.Atoi(a)
	y, e2 := strconv.Atoi(b)
	if ok && e1 == nil && e2 == nil {
		p = Point{x, y}
	}
	return
}

func parseHex(s string) Hex {
	n, _ := strconv.ParseInt(s, 16, 32)
	return Hex(n)
}

func parseCplx(s string) complex128 {
	p := parsePoint(s)
	return complex(float64(p.X), float64(p.Y))
}

func register() {
	params.TypeBinders[reflect.TypeOf(Hex(0))] = params.Binder{Bind: params.ValueBinder(func(val string, typ reflect.Type) reflect.Value {
		return reflect.ValueOf(parseHex(val))
	})}
	params.TypeBinders[reflect.TypeOf(Point{})] = params.Binder{Bind: params.ValueBinder(func(val string, typ reflect.Type) reflect.Value {
		return reflect.ValueOf(parsePoint(val))
	})}
	for _, k := range []reflect.Kind{reflect.Complex64, reflect.Complex128} {
		params.KindBinders[k] = params.Binder{Bind: params.ValueBinder(func(val string, typ reflect.Type) reflect.Value {
			return reflect.ValueOf(parseCplx(val))
		})}
	}
	file := reflect.TypeOf((*multipart.FileHeader)(nil))
	params.TypeBinders[file] = params.Binder{Bind: func(p *params.Params, name string, typ reflect.Type) reflect.Value {
		if fs := p.Files[name]; len(fs) > 0 {
			return reflect.ValueOf(fs[0])
		}
		return reflect.Zero(typ)
	}}
	params.TypeBinders[reflect.TypeOf(Upload{})] = params.Binder{Bind: func(p *params.Params, name string, typ reflect.Type) reflect.Value {
		if fs := p.Files[name]; len(fs) > 0 {
			return reflect.ValueOf(Upload{fs[0].Filename, fs[0].Size})
		}
		return reflect.ValueOf(Upload{})
	}}
	params.TimeFormats = append(params.TimeFormats, "02.01.2006 15h04", "", "Jan _2 2006 -0700")
}

// text of a scalar, and its value for the type (zero when not representable)
func refScalar(s string, t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	if custom[t] {
		switch t.Kind() {
		case reflect.Struct:
			v.Set(reflect.ValueOf(parsePoint(s)))
		case reflect.Int32:
			v.SetInt(int64(parseHex(s)))
		default:
			v.Set(reflect.ValueOf(parseCplx(s)).Convert(t))
		}
		return v
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n, ok := decimal(s, true); ok {
			lo := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(t.Bits()-1)))
			hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.Bits()-1)), big.NewInt(1))
			if n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 {
				v.SetInt(n.Int64())
			}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n, ok := decimal(s, false); ok {
			hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.Bits())), big.NewInt(1))
			if n.Cmp(hi) <= 0 {
				v.SetUint(n.Uint64())
			}
		}
	case reflect.Float32, reflect.Float64:
		if f, err := strconv.ParseFloat(s, t.Bits()); err == nil {
			v.SetFloat(f)
		}
	case reflect.String:
		v.SetString(s)
	case reflect.Bool:
		switch strings.ToLower(strings.TrimSpace(s)) {
		case "true", "on", "1":
			v.SetBool(true)
		}
	case reflect.Struct: // time
		v.Set(reflect.ValueOf(refTime(s)))
	}
	return v
}

// decimal parses an optionally signed run of digits.
func decimal(s string, signed bool) (*big.Int, bool) {
	d := s
	if signed && (strings.HasPrefix(d, "-") || strings.HasPrefix(d, "+")) {
		d = d[1:]
	}
	if d == "" {
		return nil, false
	}
	for _, r := range d {
		if r < '0' || r > '9' {
			return nil, false
		}
	}
	n, ok := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
	return n, ok
}

func refTime(s string) time.Time {
	for _, f := range []string{"2006-01-02", "2006-01-02 15:04", "2006-01-02 15:04:05"} {
		if t, err := time.ParseInLocation(f, s, time.Local); err == nil {
			return t
		}
	}
	if t, err := time.Parse(time.RFC3339, s); err == nil {
		return t
	}
	if t, err := time.ParseInLocation("02.01.2006 15h04", s, time.Local); err == nil {
		return t
	}
	if t, err := time.Parse("Jan _2 2006 -0700", s); err == nil {
		return t
	}
	if n, ok := decimal(s, true); ok && n.IsInt64() {
		return time.Unix(n.Int64(), 0)
	}
	return time.Time{}
}

// gen makes the parameters for a value of type t under name and the expected
// value; absent leaves it out.
type gen struct {
	c   *h.C
	v   url.Values
	sig strings.Builder
}

var timeT = reflect.TypeOf(time.Time{})

func (g *gen) text(t reflect.Type) string {
	c := g.c
	if c.Chance(6) {
		return c.Pick("", " ", "x", "1e3", "0x10", "1_0", "-", "+", "١", "\x00", "99999999999999999999999", "-99999999999999999999", "1.5", "NaN", "null", " 5", "7 ", "\t3", "4\n", "0b1", "0o7", "5,", "５", "12abc")
	}
	if t == timeT {
		tm := time.Unix(c.Int64N(4e9), 0).In(time.Local)
		return c.Pick(tm.Format("2006-01-02"), tm.Format("2006-01-02 15:04"), tm.Format("2006-01-02 15:04:05"), tm.Format(time.RFC3339), fmt.Sprint(tm.Unix()), fmt.Sprint(-tm.Unix()), fmt.Sprint(tm.Unix()*c.Int64N(50)), tm.UTC().Format(time.RFC3339), "2006-13-02", "2006-01-02 25:00", "2006-01-02 15:0",
			tm.Format("02.01.2006 15h04"), tm.Format("Jan _2 2006 -0700"), tm.In(time.FixedZone("", -7200)).Format("Jan _2 2006 -0700"))
	}
	if custom[t] {
		if t.Kind() == reflect.Int32 {
			return c.Pick("ff", "7fffffff", "10", "-a", "0", "80000000", "g")
		}
		return c.Pick("1;2", "0;0", "-3;40", "10;20", "5", "1;x", ";")
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := t.Bits()
		if c.Chance(30) {
			b = []int{8, 16, 32, 64}[c.IntN(4)]
		}
		lim := new(big.Int).Lsh(big.NewInt(1), uint(b-1))
		switch c.IntN(6) {
		case 0:
			return lim.String()
		case 1:
			return new(big.Int).Sub(lim, big.NewInt(1)).String()
		case 2:
			return new(big.Int).Neg(lim).String()
		case 3:
			return new(big.Int).Sub(new(big.Int).Neg(lim), big.NewInt(1)).String()
		case 4:
			return c.Pick("+", "", "0", "-0", "007", "+") + fmt.Sprint(c.IntN(200))
		}
		return fmt.Sprint(c.IntN(300) - 150)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b := t.Bits()
		if c.Chance(30) {
			b = []int{8, 16, 32, 64}[c.IntN(4)]
		}
		lim := new(big.Int).Lsh(big.NewInt(1), uint(b))
		switch c.IntN(5) {
		case 0:
			return lim.String()
		case 1:
			return new(big.Int).Sub(lim, big.NewInt(1)).String()
		case 2:
			return c.Pick("-1", "+1", "0", "00")
		}
		return fmt.Sprint(c.IntN(300))
	case reflect.Float32, reflect.Float64:
		switch c.IntN(5) {
		case 0:
			return c.Pick("1e39", "-1e39", "3.4028235e38", "1e308", "1e309", "1e-46", "-0", "0.1", "16777217", "1.000000059604644775390626")
		case 1:
			return strconv.FormatFloat(c.NormFloat64()*math.Pow(10, float64(c.IntN(80)-40)), 'g', -1, 64)
		}
		return strconv.FormatFloat(float64(c.IntN(100000))/64, 'f', -1, 64)
	case reflect.Bool:
		return c.Pick("true", "false", "on", "off", "1", "0", "TRUE", " on ", "yes", "t", "2")
	}
	return c.Pick("a", "hello world", "", "é&=+%", "x[0]", "a.b", "\n", "1", "日本", "{\"a\":1}") + c.Pick("", fmt.Sprint(c.IntN(100)))
}

func scalar(t reflect.Type) bool {
	if t == timeT || custom[t] {
		return true
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Map, reflect.Struct, reflect.Ptr, reflect.Interface, reflect.Func:
		return false
	}
	return true
}

func (g *gen) make(name string, t reflect.Type, depth int) reflect.Value {
	c := g.c
	out := reflect.New(t).Elem()
	switch {
	case scalar(t):
		if c.Chance(15) {
			return out
		}
		s := g.text(t)
		g.v[name] = append(g.v[name], s)
		g.sig.WriteString(t.String() + ":" + s + ";")
		if c.Chance(10) { // only the first text counts
			g.v[name] = append(g.v[name], g.text(t), g.text(t))
		}
		return refScalar(s, t)
	case t.Kind() == reflect.Ptr:
		if !scalar(t.Elem()) || c.Chance(30) {
			return out
		}
		s := g.text(t.Elem())
		g.v[name] = append(g.v[name], s)
		p := reflect.New(t.Elem())
		p.Elem().Set(refScalar(s, t.Elem()))
		g.sig.WriteString("*" + s + ";")
		return p
	case t.Kind() == reflect.Slice:
		out = reflect.MakeSlice(t, 0, 0)
		el := t.Elem()
		n := c.IntN(5)
		if c.Chance(4) {
			n = 20 + c.IntN(40)
		}
		elems := map[int]reflect.Value{}
		max := -1
		idx := 0
		for i := 0; i < n; i++ {
			if c.Chance(30) {
				idx += c.IntN(4)
			}
			before := len(g.v)
			key := fmt.Sprintf("%s[%d]", name, idx)
			ev := g.make(key, el, depth+1)
			if len(g.v) > before {
				elems[idx] = ev
				max = idx
			}
			idx++
		}
		if scalarOrPtr(el) && c.Chance(4) {
			k := 100 + c.IntN(800)
			s := g.text(deref(el))
			g.v[fmt.Sprintf("%s[%d]", name, k)] = []string{s}
			elems[k] = wrap(refScalar(s, deref(el)), el)
			max = k
		}
		out = reflect.MakeSlice(t, max+1, max+1)
		for i, e := range elems {
			out.Index(i).Set(e)
		}
		if scalarOrPtr(el) && c.Chance(50) {
			k := name + c.Pick("", "[]")
			for j := c.IntN(4); j > 0; j-- {
				s := g.text(deref(el))
				g.v[k] = append(g.v[k], s)
				out = reflect.Append(out, wrap(refScalar(s, deref(el)), el))
			}
		}
		fmt.Fprintf(&g.sig, "[%d]%s;", out.Len(), el)
		return out
	case t.Kind() == reflect.Map:
		out = reflect.MakeMap(t)
		n := c.IntN(4)
		js := c.Chance(35) && !custom[t.Elem()]
		raw := map[string]any{}
		for i := 0; i < n; i++ {
			var k string
			if t.Key().Kind() == reflect.String {
				k = c.Pick("a", "b", "k.x", "é", "0", "x y", "", "a[b]", "[", "]", "a]b", "[0]", "a][b", " a")
			} else {
				k = fmt.Sprint(c.IntN(100))
			}
			kv := refScalar(k, t.Key())
			if out.MapIndex(kv).IsValid() {
				continue
			}
			if js {
				var val any
				s := ""
				switch t.Elem().Kind() {
				case reflect.Int:
					n := c.Int64N(1 << 62)
					if c.Chance(50) {
						n = c.Int64N(1e9)
					}
					val, s = n, fmt.Sprint(n)
				case reflect.String:
					s = g.text(t.Elem())
					s = strings.ToValidUTF8(s, "")
					val = s
				case reflect.Bool:
					b := c.Chance(50)
					val, s = b, fmt.Sprint(b)
				case reflect.Float64:
					f := float64(c.IntN(1e9)) / 8
					val, s = f, strconv.FormatFloat(f, 'g', -1, 64)
				}
				raw[k] = val
				out.SetMapIndex(kv, refScalar(s, t.Elem()))
				continue
			}
			s := g.text(t.Elem())
			g.v[name+"["+k+"]"] = []string{s}
			if c.Chance(20) {
				// only the first text counts
				g.v[name+"["+k+"]"] = append(g.v[name+"["+k+"]"], g.text(t.Elem()))
			}
			out.SetMapIndex(kv, refScalar(s, t.Elem()))
		}
		if js && len(raw) > 0 {
			b, _ := json.Marshal(raw)
			g.v[name] = []string{string(b)}
			g.sig.WriteString("json")
		}
		fmt.Fprintf(&g.sig, "map%d;", out.Len())
		return out
	case t.Kind() == reflect.Struct:
		g.fields(out, name+".", t, depth)
		return out
	}
	if c.Chance(50) { // nothing can be bound here
		g.v[name] = []string{"x"}
	}
	return out
}

func (g *gen) fields(out reflect.Value, prefix string, t reflect.Type, depth int) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		skip := g.c.Chance(30)
		if depth > 1 {
			skip = g.c.Chance(75)
		}
		switch {
		case f.Anonymous && f.Type.Kind() == reflect.Struct:
			g.fields(out.Field(i), prefix, f.Type, depth)
		case f.Anonymous: // pointer to struct
			before := len(g.v)
			v := reflect.New(f.Type.Elem())
			g.fields(v.Elem(), prefix, f.Type.Elem(), depth)
			if len(g.v) > before {
				out.Field(i).Set(v)
			}
		case f.PkgPath != "":
			if g.c.Chance(20) {
				g.v[prefix+f.Name] = []string{"hidden"}
			}
		case skip:
			if f.Type.Kind() == reflect.Slice || f.Type.Kind() == reflect.Map {
				continue
			}
		default:
			v := g.make(prefix+f.Name, f.Type, depth+1)
			out.Field(i).Set(v)
		}
	}
}

func deref(t reflect.Type) reflect.Type {
	if t.Kind() == reflect.Ptr {
		return t.Elem()
	}
	return t
}
func scalarOrPtr(t reflect.Type) bool { return scalar(deref(t)) }
func wrap(v reflect.Value, t reflect.Type) reflect.Value {
	if t.Kind() == reflect.Ptr {
		p := reflect.New(t.Elem())
		p.Elem().Set(v)
		return p
	}
	return v
}

// show prints a value with pointers followed; empty slices and maps equal nil ones.
func show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + show(v.Elem())
	case reflect.Slice:
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, show(v.Index(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Map:
		var p []string
		for _, k := range v.MapKeys() {
			p = append(p, show(k)+":"+show(v.MapIndex(k)))
		}
		sort.Strings(p)
		return "{" + strings.Join(p, " ") + "}"
	case reflect.Struct:
		if v.Type() == timeT {
			t := v.Interface().(time.Time)
			if t.IsZero() {
				return "T0"
			}
			_, off := t.Zone()
			return fmt.Sprint("T", t.Unix(), "/", off)
		}
		var p []string
		for i := 0; i < v.NumField(); i++ {
			p = append(p, v.Type().Field(i).Name+"="+show(v.Field(i)))
		}
		return "(" + strings.Join(p, " ") + ")"
	case reflect.Func:
		return fmt.Sprint(v.IsNil())
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Complex64, reflect.Complex128:
		return fmt.Sprint(v.Complex())
	case reflect.Float32, reflect.Float64:
		return strconv.FormatUint(math.Float64bits(v.Float()), 16)
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	}
	return fmt.Sprint(v.Uint())
}

var types = []reflect.Type{}

func init() {
	for _, x := range []any{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0),
		float32(0), float64(0), "", true, time.Time{}, MyInt(0), MyU(0), MyStr(""), MyBool(false), MyFloat(0), MyList{},
		[]int{}, []int8{}, []uint16{}, []string{}, []bool{}, []float32{}, []time.Time{}, []*int{}, []*string{}, []MyInt{}, [][]int{}, [][]string{}, [][][]uint8{},
		new(int), new(uint8), new(string), new(bool), new(time.Time), new(MyU), new(float32),
		map[string]string{}, map[string]int{}, map[int]string{}, map[MyStr]bool{}, map[uint8]float64{}, map[string]float64{},
		Hex(0), Point{}, Cplx(0), complex128(0), []Point{}, []*Point{}, []Hex{}, map[string]Point{}, map[Hex]int{}, new(Point), new(Hex), Shape{}, []Shape{},
		Addr{}, Under{}, User{}, WithPtr{}, Deep{}, []Addr{}, []User{}, []WithPtr{}, [][]Addr{}} {
		types = append(types, reflect.TypeOf(x))
	}
}

func noise(c *h.C, v url.Values, name string, isStruct bool) {
	for i := c.IntN(4); i > 0; i-- {
		k := c.Pick(name+"x", "x"+name, name+"x[0]", name+"x.Name", "["+name+"]", "."+name, name+"_", strings.ToUpper(name)+"q", "zz")
		switch c.IntN(5) {
		case 0: // almost the name itself
			near := []string{name + "s", strings.ToUpper(name), strings.ToLower(name), strings.Title(name), " " + name, name + " ", "p" + name}
			if r := []rune(name); len(r) > 1 {
				near = append(near, string(r[:len(r)-1]))
			}
			if k = near[c.IntN(len(near))]; k == name {
				continue
			}
			k += c.Pick("", "", "[]", "[0]", ".Name", ".Street", "[a]")
		case 1: // fields which do not exist
			if isStruct {
				k = name + "." + c.Pick("name", "street", "NAME", "Nam", "Names", "hidden", "a", "", "Name ")
			}
		}
		if _, ok := v[k]; !ok {
			v[k] = []string{c.Pick("1", "noise", "")}
		}
	}
}

func bind(c *h.C) {
	t := types[c.IntN(len(types))]
	if c.Chance(25) {
		t = types[len(types)-1-c.IntN(8)]
	}
	name := c.Pick("p", "user", "ids", "é", "a_b", "Name")
	g := &gen{c: c, v: url.Values{}}
	want := g.make(name, t, 0)
	noise(c, g.v, name, t.Kind() == reflect.Struct && !scalar(t))
	c.Note("type %v name %s values %q", t, name, g.v)
	dst := reflect.New(t)
	if c.Chance(50) { // whatever was there before
		dst.Elem().Set((&gen{c: c, v: url.Values{}}).make(name, t, 0))
	}
	in := clone(g.v)
	var got reflect.Value
	switch c.IntN(3) {
	case 0:
		p := &params.Params{Values: in}
		p.Bind(dst.Interface(), name)
		got = dst.Elem()
	case 1:
		got = params.Bind(&params.Params{Values: in}, name, t)
	case 2: // through a request
		got = viaRequest(c, g.v, dst, name)
	}
	if got.Type() != t {
		c.Fatal("type", "bound value has type %v", got.Type())
	}
	if a, b := show(got), show(want); a != b {
		c.Fatal("bind-"+t.Kind().String(), "bound %s\nwant  %s", a, b)
	}
	if !reflect.DeepEqual(in, clone(g.v)) {
		c.Fatal("modified", "binding changed the parameters: %q, before %q", in, g.v)
	}
	c.Count("bound", 1)
	if g.sig.Len() > 0 {
		c.Count("bound_nonempty", 1)
		c.Sig("bind %v %s", t, g.sig.String())
	}
}

func clone(v url.Values) url.Values {
	o := url.Values{}
	for k, l := range v {
		o[k] = append([]string(nil), l...)
	}
	return o
}

func viaRequest(c *h.C, v url.Values, dst reflect.Value, name string) reflect.Value {
	sp, _ := h.NewApp()
	sp.Provide(params.ParamsParser())
	ran := false
	sp.Routers(strip.Router("/x", strip.Any(func(p *params.Params, rw http.ResponseWriter) {
		ran = true
		p.Bind(dst.Interface(), name)
		rw.WriteHeader(204)
	})))
	var req *http.Request
	if c.Chance(50) {
		req = httptest.NewRequest("POST", "/x", strings.NewReader(v.Encode()))
		req.Header.Set("Content-Type", c.Pick("application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-Urlencoded"))
	} else {
		req = httptest.NewRequest("GET", "/x?"+v.Encode(), nil)
	}
	h.Serve(sp, req)
	if !ran {
		c.Fatal("not-run", "the action did not run")
	}
	c.Count("bound_via_request", 1)
	return dst.Elem()
}

// ---- BindValuesToStruct

type Under struct {
	A_b  int
	X1_  string
	Été  []int
	A    string
	A_bc string
}

type Form struct {
	*EmbP
	Emb
	inner
	ID     int    `param:"id"`
	Name   string `param:"name,omitempty"`
	Plain  uint8
	Skip   string  `param:"-"`
	L      []int64 `param:"list"`
	P      *bool   `param:"p"`
	T      time.Time
	St     MyStr
	hidden string
	M      map[string]string
	Any    interface{}
}

type Self struct {
	*Self
	A int
}

type Unexp struct {
	*inner
	B string
}

type One struct{ OneF string }

type Emb2 struct {
	*EmbP
	One
	X string
}
type Two struct {
	*Emb2
	Y int
}

func toStruct(c *h.C) {
	g := &gen{c: c, v: url.Values{}}
	some := func(name string, t reflect.Type) reflect.Value {
		if c.Chance(40) {
			v := reflect.New(t).Elem()
			return v
		}
		return g.make(name, t, 1)
	}
	set := func(dst any, name string) {
		v := reflect.ValueOf(dst).Elem()
		v.Set(some(name, v.Type()))
	}
	var want, got any
	kind := c.IntN(8)
	switch kind {
	default:
		var w Form
		w.EmbP = &EmbP{}
		before := len(g.v)
		set(&w.PName, "PName")
		set(&w.PInts, "PInts")
		if len(g.v) == before {
			w.EmbP = nil
		}
		set(&w.EName, "EName")
		set(&w.ENum, "ENum")
		set(&w.IName, "IName")
		set(&w.ID, "id")
		set(&w.Name, "name")
		set(&w.Plain, "Plain")
		set(&w.L, "list")
		set(&w.P, "p")
		set(&w.T, "T")
		set(&w.St, "St")
		set(&w.M, "M")
		if c.Chance(50) {
			for _, k := range []string{"Skip", "-", "hidden", "L", "ID", "Any", "plain"} {
				g.v[k] = []string{"5"}
			}
		}
		f := &Form{}
		if c.Chance(40) { // a used destination
			w.Skip, w.hidden = "kept", "kept"
			w.Any = nil
			b := true
			*f = Form{Emb: Emb{EName: "old", ENum: 9}, inner: inner{IName: "old"}, ID: 4, Name: "old", Plain: 5, Skip: "kept", L: []int64{1, 2}, P: &b, T: time.Now(), St: "old", hidden: "kept", M: map[string]string{"old": "x"}}
			c.Count("used_destinations", 1)
		}
		want, got = &w, f
	case 5:
		var w Self
		set(&w.A, "A")
		if _, ok := g.v["A"]; ok {
			// whether a self embedding struct gets its inner copy filled is left open
			s := &Self{}
			params.BindValuesToStruct(s, g.v)
			if s.A != w.A {
				c.Fatal("self", "A=%q bound to %d, want %d", g.v["A"], s.A, w.A)
			}
		}
		want, got = &w, nil
	case 6:
		var w Unexp
		set(&w.B, "B")
		if c.Chance(50) {
			w.inner = &inner{}
			set(&w.IName, "IName")
			want, got = &w, &Unexp{inner: &inner{}}
		} else {
			if c.Chance(50) {
				g.v["IName"] = []string{"x"} // there is no place for it
			}
			want, got = &w, &Unexp{}
		}
	case 7:
		w := Two{Emb2: &Emb2{EmbP: &EmbP{}}}
		n0 := len(g.v)
		set(&w.PName, "PName")
		set(&w.PInts, "PInts")
		n1 := len(g.v)
		if n1 == n0 {
			w.EmbP = nil
		}
		set(&w.OneF, "OneF")
		set(&w.X, "X")
		if len(g.v) == n0 {
			w.Emb2 = nil
		}
		set(&w.Y, "Y")
		want, got = &w, &Two{}
	}
	c.Note("values %q", g.v)
	if got == nil {
		return
	}
	in := clone(g.v)
	if c.Chance(50) {
		params.BindValuesToStruct(got, in)
	} else {
		(&params.Params{Values: in}).BindValuesToStruct(got)
	}
	if a, b := show(reflect.ValueOf(got)), show(reflect.ValueOf(want)); a != b {
		c.Fatal("to-struct", "bound %s\nwant  %s", a, b)
	}
	c.Count("structs", 1)
	if g.sig.Len() > 0 {
		c.Sig("struct %d %s", kind, g.sig.String())
	}
}

// namesakes: types are not told apart by what they are called.
func namesakes(c *h.C) {
	v := url.Values{"A": {"1"}, "B": {"two"}, "c": {"3"}}
	steps := []func() (any, any){
		func() (any, any) {
			type T struct {
				A int
				B string
				C int `param:"c"`
			}
			x := T{}
			params.BindValuesToStruct(&x, v)
			return x, T{1, "two", 3}
		},
		func() (any, any) {
			type T struct {
				A string `param:"B"`
				B int    `param:"c"`
				C int    `param:"-"`
			}
			x := T{}
			params.BindValuesToStruct(&x, v)
			return x, T{"two", 3, 0}
		},
		func() (any, any) {
			type T struct {
				C []string `param:"B"`
				A uint8
				B *int `param:"c"`
			}
			x := T{}
			params.BindValuesToStruct(&x, url.Values{"B[]": v["B"], "A": v["A"], "c": v["c"]})
			if x.B == nil || *x.B != 3 {
				return x, "B of 3"
			}
			b := x.B
			return x, T{[]string{"two"}, 1, b}
		},
		func() (any, any) {
			type N int
			var x N
			x = params.Bind(&params.Params{Values: v}, "c", reflect.TypeOf(x)).Interface().(N)
			return x, N(3)
		},
		func() (any, any) {
			type N string
			var x N
			x = params.Bind(&params.Params{Values: v}, "c", reflect.TypeOf(x)).Interface().(N)
			return x, N("3")
		},
	}
	for _, i := range c.Perm(len(steps)) {
		if a, b := steps[i](); !reflect.DeepEqual(a, b) {
			c.Fatal("namesakes", "%d: bound %+v, want %+v", i, a, b)
		}
	}
	c.Count("namesakes", 1)
}

// ---- malformed names never disturb well formed ones

func malformed(c *h.C) {
	v := url.Values{}
	n := 1 + c.IntN(4)
	var want []int
	for i := 0; i < n; i++ {
		x := 1 + c.IntN(1000)
		v[fmt.Sprintf("ids[%d]", i)] = []string{fmt.Sprint(x)}
		want = append(want, x)
	}
	bad := c.Pick("ids[abc]", "ids[ ]", "ids[-1]", "ids[99999999999999999999]", "ids[1e3]", "ids[0x0]", "ids[-9223372036854775808]", "ids[4000000000]", "ids[2147483647]", "ids[0.5]", "ids[é]", "ids[\x00]",
		"ids[", "ids[0", "ids[7", "ids]", "ids]0[", "ids[0]x", "ids[7]y", "ids.0", "ids.0]")
	v[bad] = []string{"31337"}
	c.Note("values %q", v)
	var got []int
	(&params.Params{Values: v}).Bind(&got, "ids")
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			c.Fatal("malformed-index", "with %q present, ids bound to %v, want %v first", bad, got, want)
		}
	}
	for i, x := range got {
		if x == 31337 {
			c.Fatal("malformed-index", "the value given under %q was bound as element %d: %v", bad, i, got)
		}
	}
	c.Count("malformed", 1)
	c.Sig("malformed %s %d", bad, n)
}

// ---- uploads, by binders an application registered for them

type Upload struct {
	Name string
	Size int64
}

func uploads(c *h.C) {
	type file struct {
		field string
		Upload
	}
	var files []file
	seq := 0
	add := func(field string) Upload {
		seq++
		u := Upload{fmt.Sprintf("file%d.txt", seq), int64(c.IntN(40))}
		files = append(files, file{field, u})
		return u
	}
	name := c.Pick("f", "files", "doc.f", "a[0]")
	var want []Upload
	used := map[int]bool{}
	for n := c.IntN(4); n > 0; n-- {
		i := c.IntN(6)
		if used[i] {
			continue
		}
		used[i] = true
		for len(want) <= i {
			want = append(want, Upload{})
		}
		want[i] = add(fmt.Sprintf("%s[%d]", name, i))
		if c.Chance(20) { // of several for one place the first counts
			add(fmt.Sprintf("%s[%d]", name, i))
		}
	}
	plain := c.Chance(50)
	var first Upload
	spell := name + "[]"
	if plain {
		spell = name
	}
	for n := c.IntN(4); n > 0; n-- {
		u := add(spell)
		if plain && first.Name == "" {
			first = u
		}
		want = append(want, u)
	}
	for n := c.IntN(3); n > 0; n-- {
		add(c.Pick("g", name+"x", "x"+name, name+"[", name+"]"))
	}
	// fields of a form stand in any order, files of one field keep theirs
	perm := c.Perm(len(files))
	byField := map[string][]int{}
	for i := range files {
		byField[files[i].field] = append(byField[files[i].field], i)
	}
	var buf bytes.Buffer
	w := multipart.NewWriter(&buf)
	w.WriteField("other", "text")
	for _, i := range perm {
		f := files[byField[files[i].field][0]]
		byField[files[i].field] = byField[files[i].field][1:]
		p, err := w.CreateFormFile(f.field, f.Name)
		if err != nil {
			panic(err)
		}
		p.Write(make([]byte, f.Size))
	}
	w.Close()
	c.Note("%s: %v", name, files)
	sp, _ := h.NewApp()
	sp.Provide(params.ParamsParser())
	ran := false
	pick := func(what string, got, want []Upload) {
		if len(got) != len(want) {
			c.Fatal("uploads", "%s of %d uploads bound, want %d: %v, want %v", what, len(got), len(want), got, want)
		}
		for i := range want {
			if got[i] != want[i] {
				c.Fatal("uploads", "%s: element %d is %v, want %v", what, i, got[i], want[i])
			}
		}
	}
	of := func(h *multipart.FileHeader) (u Upload) {
		if h != nil {
			u = Upload{h.Filename, h.Size}
		}
		return
	}
	sp.Routers(strip.Router("/x", strip.Post(func(p *params.Params, rw http.ResponseWriter) {
		ran = true
		var a []Upload
		p.Bind(&a, name)
		pick("slice", a, want)
		var b []*multipart.FileHeader
		p.Bind(&b, name)
		var bs []Upload
		for _, x := range b {
			bs = append(bs, of(x))
		}
		pick("slice of file headers", bs, want)
		var one Upload
		p.Bind(&one, name)
		pick("value", []Upload{one}, []Upload{first})
		var h *multipart.FileHeader
		p.Bind(&h, name)
		pick("file header", []Upload{of(h)}, []Upload{first})
		c.Count("uploads", 1)
	})))
	req := httptest.NewRequest("POST", "/x", &buf)
	req.Header.Set("Content-Type", w.FormDataContentType())
	h.Serve(sp, req)
	if !ran {
		c.Fatal("not-run", "the action did not run")
	}
	c.Sig("uploads %v %v", plain, len(want))
}

// ---- JSON bodies

func jsonBody(c *h.C) {
	type doc struct {
		A int
		B string
		C []float64
		D map[string]any
	}
	want := doc{c.IntN(1000), c.Pick("x", "é", ""), []float64{float64(c.IntN(100)) / 4}, map[string]any{"k": float64(c.IntN(10))}}
	b, _ := json.Marshal(want)
	mode := c.IntN(5)
	if c.Chance(10) {
		want.B = strings.Repeat(c.Pick("x", "é"), 1<<(10+c.IntN(13)))
		b, _ = json.Marshal(want)
	}
	switch mode {
	case 1:
		b = b[:c.IntN(len(b))]
	case 2:
		b = nil
	}
	num := mode == 3
	if num {
		want.D["k"] = json.Number(fmt.Sprint(want.D["k"]))
	}
	sp, _ := h.NewApp()
	sp.Provide(params.ParamsParser())
	var got doc
	var err error
	ran := false
	sp.Routers(strip.Router("/x", strip.Post(func(p *params.Params, rw http.ResponseWriter) {
		ran = true
		if num {
			err = p.BindJsonBody(&got, true)
		} else {
			err = p.BindJsonBody(&got)
		}
		rw.WriteHeader(204)
	})))
	var body io.Reader = strings.NewReader(string(b))
	if mode == 4 { // the client goes away before it has sent everything it wanted to
		body = io.MultiReader(body, iotest.ErrReader(errors.New("connection lost")))
	}
	req := httptest.NewRequest("POST", "/x", body)
	req.Header.Set("Content-Type", c.Pick("application/json", "", "text/plain"))
	h.Serve(sp, req)
	c.Note("body %q", h.Short(string(b)))
	switch {
	case !ran:
		c.Fatal("not-run", "the action did not run")
	case len(b) == 0:
		if err != nil || !reflect.DeepEqual(got, doc{}) {
			c.Fatal("json-empty", "empty body: %v %+v", err, got)
		}
	case mode == 4:
		if err == nil {
			c.Fatal("json-lost", "no error from a body that could not be read: %+v", got)
		}
	case mode == 1:
		if err == nil {
			c.Fatal("json-bad", "truncated body accepted: %+v", got)
		}
	default:
		if err != nil || !reflect.DeepEqual(got, want) {
			c.Fatal("json", "body bound to %+v (%v), want %+v", got, err, want)
		}
		c.Sig("json %d %d %s", mode, len(b), h.Short(string(b)))
	}
}

func main() {
	h.Main(h.Spec{
		ID:          "C16",
		Rule:        "bind: one of more than 60 destination types (all scalar kinds, named ones, times also in formats an application added, types and kinds an application registered binders for, pointers, slices nested to 3 levels, maps in bracket and JSON form, structs with embedded values and pointers) is given a random well formed encoding with boundary texts (limits +-1 of every width, malformed texts), unrelated parameters are added, and the bound value is compared with the value computed by construction (big integers for representability); struct: the same for BindValuesToStruct; malformed: malformed or huge indexes beside well formed ones; uploads: files bound to values and slices by binders the application registered; json: bodies",
		Assumptions: []string{"strconv.ParseFloat and time.Parse define floats and times", "first text decides for scalars; order of unindexed values given under different spellings is unspecified"},
		Min:         map[string]int64{"bound_nonempty": 5000, "bound_via_request": 1000, "structs": 1000, "malformed": 200, "uploads": 300},
		MinDistinct: 3000,
		Run: func(r *h.R) {
			time.Local = time.FixedZone("X", 3*3600+1800)
			register()
			r.Par("bind", r.N(3000, 150000), bind)
			r.Loop("bind", r.N(12000, 600000), bind)
			r.Par("struct", r.N(1000, 50000), toStruct)
			r.Loop("struct", r.N(4000, 200000), toStruct)
			r.Loop("namesakes", r.N(100, 1000), namesakes)
			r.Par("malformed", r.N(100, 2500), malformed)
			r.Loop("malformed", r.N(400, 10000), malformed)
			r.Par("uploads", r.N(150, 5000), uploads)
			r.Loop("uploads", r.N(600, 20000), uploads)
			r.Par("json", r.N(100, 2500), jsonBody)
			r.Loop("json", r.N(400, 10000), jsonBody)
		},
	})
}

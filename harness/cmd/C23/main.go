package main

import (
	"crypto/md5"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils"
	"stripverif/h"
)

type (
	nInt   int8
	nUint  uint32
	nStr   string
	nBool  bool
	nF32   float32
	nBytes []byte
	nByte  byte
)

var kinds = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
}

// call runs the method for the type and gives value and error.
func call(recv any, m string) (reflect.Value, error) {
	out := reflect.ValueOf(recv).MethodByName(m).Call(nil)
	var err error
	if len(out) > 1 && !out[1].IsNil() {
		err = out[1].Interface().(error)
	}
	return out[0], err
}

func method(t reflect.Type) string {
	n := t.Kind().String()
	return strings.ToUpper(n[:1]) + n[1:]
}

func eq(a, b reflect.Value) bool {
	if a.Kind() == reflect.Float32 || a.Kind() == reflect.Float64 {
		x, y := a.Float(), b.Convert(a.Type()).Float()
		return x == y && math.Signbit(x) == math.Signbit(y) || x != x && y != y
	}
	return a.Type() == b.Type() && a.Interface() == b.Interface()
}

func randVal(c *h.C, t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(c.Chance(50))
	case reflect.Float32:
		v.SetFloat(float64(math.Float32frombits(c.Uint32())))
		if c.Chance(20) {
			v.SetFloat([]float64{0, 1, -1.5, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1), 16777217}[c.IntN(8)])
		}
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(c.Uint64()))
		if c.Chance(20) {
			v.SetFloat([]float64{0, 1, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 1 << 53}[c.IntN(8)])
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(c.Uint64()) >> c.IntN(64)
		switch c.IntN(6) {
		case 0:
			x = math.MaxInt64 >> (64 - t.Bits())
		case 1:
			x = math.MinInt64 >> (64 - t.Bits())
		}
		x = x << (64 - t.Bits()) >> (64 - t.Bits())
		v.SetInt(x)
	default:
		x := c.Uint64() >> c.IntN(64)
		if c.Chance(20) {
			x = math.MaxUint64
			if c.Chance(60) { // around the limits of the signed types
				x = uint64(1)<<[]int{7, 8, 15, 16, 31, 32, 63}[c.IntN(7)] + uint64(c.IntN(3)) - 1
			}
		}
		v.SetUint(x << (64 - t.Bits()) >> (64 - t.Bits()))
	}
	return v
}

// roundTrip: every value to text and back, in both packages.
func roundTrip(c *h.C) {
	t := kinds[c.IntN(len(kinds))]
	v := randVal(c, t)
	if f := v; (f.Kind() == reflect.Float32 || f.Kind() == reflect.Float64) && f.Float() != f.Float() {
		c.Count("nan", 1)
	}
	m := method(t)
	x := v.Interface()
	c.Note("%v %v", t, x)
	texts := map[string]string{"strip": strip.ToStr(x), "utils": utils.ToStr(x), "value": utils.ValueTo(x).String()}
	p := v.Interface()
	ptr := reflect.New(t)
	ptr.Elem().Set(v)
	pp := reflect.New(ptr.Type())
	pp.Elem().Set(ptr)
	texts["pointer"] = strip.ToStr(ptr.Interface())
	texts["pointer to pointer"] = strip.ToStr(pp.Interface())
	_ = p
	for n, s := range texts {
		for _, r := range []struct {
			name string
			recv any
			meth string
		}{{"strip.StrTo", strip.StrTo(s), m}, {"utils.StrTo", utils.StrTo(s), m}, {"utils.StrTo.Must", utils.StrTo(s), "Must" + m}, {"utils.Value", utils.ValueTo(s), m}, {"utils.Value.Must", utils.ValueTo(s), "Must" + m}, {"utils.Value direct", utils.ValueTo(x), m}, {"utils.Value.Must direct", utils.ValueTo(x), "Must" + m}} {
			got, err := call(r.recv, r.meth)
			if err != nil || !eq(got, v) {
				c.Fatal("round-trip", "%v %v became %q by %s and %v (%v) by %s", t, x, s, n, got, err, r.name)
			}
			c.Count("round_trips", 1)
		}
	}
	// the same number in any sized type that can hold it, and only there
	if t.Kind() != reflect.Bool && t.Kind() != reflect.Float32 && t.Kind() != reflect.Float64 {
		d, err := utils.ToInt64(x)
		b, _ := new(big.Int).SetString(fmt.Sprint(x), 10)
		if b.IsInt64() {
			if err != nil || d != b.Int64() {
				c.Fatal("toint64", "ToInt64(%v %v) = %d, %v", t, x, d, err)
			}
		} else if err == nil {
			c.Fatal("toint64-wrap", "ToInt64(%v %v) = %d without error", t, x, d)
		}
	} else if _, err := utils.ToInt64(x); err == nil {
		c.Fatal("toint64-kind", "ToInt64(%v %v) has no error", t, x)
	}
	c.Sig("rt %v %v", t, x)
}

func fits(b *big.Int, t reflect.Type) (reflect.Value, bool) {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if !b.IsInt64() || v.OverflowInt(b.Int64()) {
			return v, false
		}
		v.SetInt(b.Int64())
	default:
		if !b.IsUint64() || v.OverflowUint(b.Uint64()) {
			return v, false
		}
		v.SetUint(b.Uint64())
	}
	return v, true
}

// integers: texts of numbers around all limits against exact arithmetic.
func integers(c *h.C) {
	t := kinds[3+c.IntN(10)]
	b := big.NewInt(1)
	b.Lsh(b, uint([]int{0, 6, 7, 8, 15, 16, 31, 32, 63, 64, 70}[c.IntN(11)]))
	b.Add(b, big.NewInt(int64(c.IntN(5))-2))
	if c.Chance(40) {
		b.Neg(b)
	}
	s := b.String()
	if c.Chance(15) {
		s = strings.Replace(s, "-", "-00", 1)
	}
	want, ok := fits(b, t)
	if b.Sign() == 0 && strings.HasPrefix(s, "-") {
		c.Skip()
	}
	m := method(t)
	for _, r := range []struct {
		name string
		recv any
	}{{"strip.StrTo", strip.StrTo(s)}, {"utils.StrTo", utils.StrTo(s)}, {"utils.Value", utils.ValueTo(s)}} {
		got, err := call(r.recv, m)
		if ok != (err == nil) {
			c.Fatal("range", "%s(%q).%s() = %v, error %v, but in range is %v", r.name, s, m, got, err, ok)
		}
		if ok && !eq(got, want) {
			c.Fatal("range", "%s(%q).%s() = %v", r.name, s, m, got)
		}
		if !ok && r.name == "strip.StrTo" && !got.IsZero() {
			c.Fatal("range-zero", "%s(%q).%s() = %v with an error", r.name, s, m, got)
		}
		c.Count("ranges", 1)
	}
	// numbers of other types convert by their value
	d, err := call(utils.ValueTo(randOther(c, b)), m)
	_, _ = d, err
	c.Sig("int %v %s", t, s)
}

func randOther(c *h.C, b *big.Int) any {
	if b.IsInt64() {
		return b.Int64()
	}
	if b.IsUint64() {
		return b.Uint64()
	}
	return b.String()
}

// floats: texts of fractions around the limits of both float kinds.
func floats(c *h.C) {
	s := c.Pick("3.5e38", "-3.5e38", "1e39", "1e308", "1e309", "-1e400", "1e-46", "1e-400", "3.4028235e38", "3.4028236e38", "1.00000006", "0x1p-200", "inf", "-Inf", "nan")
	switch c.IntN(4) {
	case 0: // between two neighbours, where rounding twice goes wrong
		f := math.Float32frombits(c.Uint32() &^ (1 << 31) % 0x7f000000)
		g := math.Nextafter32(f, math.MaxFloat32)
		mid := new(big.Float).SetPrec(200).Add(big.NewFloat(float64(f)), big.NewFloat(float64(g)))
		mid.Quo(mid, big.NewFloat(2))
		eps := new(big.Float).SetPrec(200).SetMantExp(big.NewFloat(1), mid.MantExp(nil)-80-c.IntN(40))
		if c.Chance(50) {
			eps.Neg(eps)
		}
		s = mid.Add(mid, eps).Text('e', 60)
	case 1:
		s = fmt.Sprintf("%d.%de%d", c.IntN(10), c.IntN(1<<30), c.IntN(700)-350)
	case 2:
		s = fmt.Sprintf("%de%d", 1+c.IntN(9), 30+c.IntN(12))
	}
	for bits, m := range map[int]string{32: "Float32", 64: "Float64"} {
		w, werr := strconv.ParseFloat(s, bits)
		want := reflect.ValueOf(w)
		if bits == 32 {
			want = reflect.ValueOf(float32(w))
		}
		for _, r := range []any{strip.StrTo(s), utils.StrTo(s), utils.ValueTo(s)} {
			got, err := call(r, m)
			if (err == nil) != (werr == nil) {
				c.Fatal("float-range", "%T(%q).%s() = %v, error %v; the number has %v", r, s, m, got, err, werr)
			}
			if err == nil && !eq(got, want) {
				c.Fatal("float-value", "%T(%q).%s() = %v, it is %v", r, s, m, got, want)
			}
		}
	}
	c.Count("float_texts", 1)
	c.Sig("float %s", s)
}

// crossFloat: a Value holding a number asked for as a fraction, and back.
func crossFloat(c *h.C) {
	from := kinds[1+c.IntN(12)]
	v := randVal(c, from)
	exact := new(big.Float).SetPrec(2000)
	switch {
	case v.CanFloat():
		f := v.Float()
		if f != f || math.IsInf(f, 0) {
			c.Skip()
		}
		exact.SetFloat64(f)
	case v.CanInt():
		exact.SetInt64(v.Int())
	default:
		exact.SetUint64(v.Uint())
	}
	w64, _ := exact.Float64()
	w32, _ := exact.Float32()
	got, err := call(utils.ValueTo(v.Interface()), "Float32")
	if from.Kind() == reflect.Float64 && !math.IsInf(float64(w32), 0) && err == nil && exact.Sign() != 0 {
		// the shortest text of a float64 may lie beside the exact value
		if d := got.Interface().(float32); d != w32 && d != math.Nextafter32(w32, math.MaxFloat32) && d != math.Nextafter32(w32, -math.MaxFloat32) {
			c.Fatal("cross-float", "ValueTo(%v %v).Float32() = %v", from, v, got)
		}
	} else if math.IsInf(float64(w32), 0) != (err != nil) || err == nil && got.Float() != float64(w32) {
		c.Fatal("cross-float", "ValueTo(%v %v).Float32() = %v, %v, want %v", from, v, got, err, w32)
	}
	if from.Kind() != reflect.Float32 { // the shortest text of a float32 names another float64
		got, err = call(utils.ValueTo(v.Interface()), "Float64")
		if err != nil || got.Float() != w64 {
			c.Fatal("cross-float", "ValueTo(%v %v).Float64() = %v, %v, want %v", from, v, got, err, w64)
		}
	}
	// fractions are no integers
	if to := kinds[3+c.IntN(10)]; v.CanFloat() && !exact.IsInt() {
		if got, err := call(utils.ValueTo(v.Interface()), method(to)); err == nil {
			c.Fatal("cross-float", "ValueTo(%v %v).%s() = %v without error", from, v, method(to), got)
		}
	}
	c.Count("cross_floats", 1)
	c.Sig("crossf %v %v", from, v)
}

// cross: a Value holding one kind asked for another.
func cross(c *h.C) {
	from, to := kinds[3+c.IntN(10)], kinds[3+c.IntN(10)]
	v := randVal(c, from)
	b, _ := new(big.Int).SetString(fmt.Sprint(v.Interface()), 10)
	want, ok := fits(b, to)
	m := method(to)
	got, err := call(utils.ValueTo(v.Interface()), m)
	if ok != (err == nil) || ok && !eq(got, want) {
		c.Fatal("cross", "ValueTo(%v %v).%s() = %v, %v", from, v, m, got, err)
	}
	must, _ := call(utils.ValueTo(v.Interface()), "Must"+m)
	if ok && !eq(must, want) {
		c.Fatal("cross", "ValueTo(%v %v).Must%s() = %v", from, v, m, must)
	}
	c.Count("cross", 1)
	c.Sig("cross %v %v %v", from, to, v)
}

var badTexts = []string{"", " ", "x", "1x", "x1", "1 ", " 1", "1,0", "0x1F", "1e", "--1", "+-1", "１", "٣", "nul", "null", "true1", "1.5.2", "0b1", "\x00", "1\x00", "%d", "<nil>"}

// malformed texts give errors and, where there is none, a zero value.
func malformed(c *h.C) {
	s := badTexts[c.IntN(len(badTexts))]
	if c.Chance(30) {
		s = strings.Repeat(s, 1+c.IntN(4)) + c.Pick("q", "?", "/", "..")
	}
	for _, t := range kinds {
		m := method(t)
		if (t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64) && s == "0x1F" {
			continue // a hexadecimal float needs an exponent, judged below by its own rule
		}
		for _, r := range []struct {
			name string
			recv any
		}{{"strip.StrTo", strip.StrTo(s)}, {"utils.StrTo", utils.StrTo(s)}, {"utils.Value", utils.ValueTo(s)}} {
			got, err := call(r.recv, m)
			if err == nil {
				c.Fatal("accepted", "%s(%q).%s() = %v without error", r.name, s, m, got)
			}
			if !got.IsZero() {
				c.Fatal("accepted", "%s(%q).%s() = %v with an error", r.name, s, m, got)
			}
		}
		for _, recv := range []any{utils.StrTo(s), utils.ValueTo(s)} {
			if got, _ := call(recv, "Must"+m); !got.IsZero() {
				c.Fatal("must", "%T(%q).Must%s() = %v", recv, s, m, got)
			}
		}
		c.Count("malformed", 1)
	}
	c.Sig("bad %q", s)
}

var boolTexts = map[string]bool{"1": true, "t": true, "T": true, "TRUE": true, "true": true, "True": true, "on": true, "0": false, "f": false, "F": false, "FALSE": false, "false": false, "False": false}

func bools(c *h.C) {
	all := []string{"1", "t", "T", "TRUE", "true", "True", "on", "0", "f", "F", "FALSE", "false", "False", "ON", "On", "off", "yes", "2", "tRue", "", " on", "on "}
	s := all[c.IntN(len(all))]
	want, ok := boolTexts[s]
	for _, r := range []any{strip.StrTo(s), utils.StrTo(s), utils.ValueTo(s)} {
		got, err := call(r, "Bool")
		if (err == nil) != ok || got.Bool() != want {
			c.Fatal("bool", "%T(%q).Bool() = %v, %v", r, s, got, err)
		}
	}
	c.Count("bools", 1)
	c.Sig("bool %q", s)
}

// texts: strings and bytes in every wrapping are themselves.
func texts(c *h.C) {
	n := c.IntN(12)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.Uint32())
		if c.Chance(70) {
			b[i] = byte(' ' + c.IntN(94))
		}
	}
	s := string(b)
	ps, nb := &s, nStr(s)
	pps := &ps
	pb := &b
	var arr [4]byte
	copy(arr[:], b)
	same := func(what, got, want string) {
		if got != want {
			c.Fatal("text", "%s of %q = %q", what, want, got)
		}
		c.Count("texts", 1)
	}
	same("strip.ToStr(string)", strip.ToStr(s), s)
	same("strip.ToStr(*string)", strip.ToStr(ps), s)
	same("strip.ToStr(**string)", strip.ToStr(pps), s)
	same("strip.ToStr(named string)", strip.ToStr(nb), s)
	same("strip.ToStr([]byte)", strip.ToStr(b), s)
	same("strip.ToStr(*[]byte)", strip.ToStr(pb), s)
	same("strip.ToStr(named []byte)", strip.ToStr(nBytes(b)), s)
	same("strip.ToStr([4]byte)", strip.ToStr(arr), string(arr[:]))
	same("strip.ToStr(*[4]byte)", strip.ToStr(&arr), string(arr[:]))
	same("utils.ToStr(string)", utils.ToStr(s), s)
	same("utils.ToStr(named string)", utils.ToStr(nb), s)
	same("utils.ToStr([]byte)", utils.ToStr(b), s)
	same("Value.String(string)", utils.ValueTo(s).String(), s)
	same("Value.MustString(string)", utils.ValueTo(s).MustString(), s)
	same("Value.String([]byte)", utils.ValueTo(b).String(), s)
	same("Value.MustBytes", string(utils.ValueTo(b).MustBytes()), s)
	same("StrTo.Bytes", string(utils.StrTo(s).Bytes()), s)
	same("StrTo.String", utils.StrTo(s).String()+strip.StrTo(s).String(), s+s)
	same("StrTo.Md5", utils.StrTo(s).Md5(), fmt.Sprintf("%x", md5.Sum([]byte(s))))
	list := []string{s, "", s}
	if got := utils.ValueTo(list).MustSliceString(); !reflect.DeepEqual(got, list) {
		c.Fatal("text", "MustSliceString = %q, want %q", got, list)
	}
	if utils.ValueTo(s).MustSliceString() != nil || utils.ValueTo(s).MustBytes() != nil || utils.ValueTo(s).IsNil() || !utils.ValueTo(nil).IsNil() {
		c.Fatal("text", "other types are not what they are asked for")
	}
	c.Sig("text %q", s)
}

// lists: StrTo.Strings splits at the delimiter and trims.
func lists(c *h.C) {
	d := c.Pick(",", ";", "|", "::", " ")
	var parts, want []string
	n := 1 + c.IntN(5)
	if c.Chance(15) {
		n = 1 + c.IntN(60)
	}
	for i := 0; i < n; i++ {
		w := c.Pick("", "a", "b c", "中", "x")
		if d == " " {
			w = strings.ReplaceAll(w, " ", "_")
		}
		p := c.Pick("", "\t") + w + c.Pick("", "\n")
		parts, want = append(parts, p), append(want, w)
	}
	s := strip.StrTo(strings.Join(parts, d))
	got := s.Strings(d)
	if d == "," && c.Chance(50) {
		got = s.Strings()
	}
	if !reflect.DeepEqual(got, want) {
		c.Fatal("list", "StrTo(%q).Strings(%q) = %q, want %q", string(s), d, got, want)
	}
	c.Count("lists", 1)
	c.Sig("list %q %q", s, d)
}

type rec struct {
	A int
	B *rec
}

// anything: no value makes a conversion panic and equal values give equal texts.
func anything(c *h.C) {
	n := 5
	var nilErr error
	vals := []any{nil, nilErr, (*int)(nil), (**string)(nil), &n, []int{1, 2}, []string{"a"}, [3]int{1}, [0]byte{}, []byte(nil), nBytes(nil), []nByte{65}, map[string]int{"a": 1}, struct{}{}, rec{1, nil}, &rec{2, nil},
		func() {}, make(chan int), 1 + 2i, uintptr(7), fmt.Errorf("e"), nInt(-5), nUint(7), nBool(true), nF32(1.5), float32(math.NaN()), math.Inf(-1), new(any), reflect.ValueOf(1), [][]byte{{1}}, [2][]byte{}, struct{ X []int }{[]int{1}}, new(map[string]int), big.NewInt(5)}
	i := c.IntN(len(vals))
	v := vals[i]
	s1, s2 := strip.ToStr(v), utils.ToStr(v)
	val := utils.ValueTo(v)
	_ = val.String()
	_, _ = utils.ToInt64(v)
	_ = val.MustSliceString()
	_ = val.MustBytes()
	for _, t := range kinds {
		call(val, method(t))
		call(val, "Must"+method(t))
	}
	for want, w := range map[string]any{"-5": nInt(-5), "7": nUint(7), "true": nBool(true), "1.5": nF32(1.5), "5": &n} {
		if w == v && strip.ToStr(v) != want {
			c.Fatal("anything", "strip.ToStr(%T) = %q, want %q", v, s1, want)
		}
	}
	switch v.(type) {
	case []int, []string, map[string]int, rec, [3]int, complex128:
		// utils.ToStr shows the value itself
		if s2 != fmt.Sprintf("%#v", v) && s2 != fmt.Sprint(v) {
			c.Fatal("anything-utils", "utils.ToStr(%#v) = %q", v, s2)
		}
	}
	c.Count("anything", 1)
	c.Sig("any %d %T", i, v)
}

// formatting arguments of utils.ToStr.
func args(c *h.C) {
	x := int64(c.Uint64()) >> c.IntN(64)
	base := 2 + c.IntN(35)
	if got := utils.ToStr(x, base); got != strconv.FormatInt(x, base) {
		c.Fatal("base", "ToStr(%d, %d) = %q", x, base, got)
	}
	if b, ok := new(big.Int).SetString(utils.ToStr(uint64(x), base), base); !ok || b.Uint64() != uint64(x) {
		c.Fatal("base", "ToStr(uint64 %d, %d) = %q", uint64(x), base, utils.ToStr(uint64(x), base))
	}
	t := kinds[c.IntN(len(kinds))]
	v := randVal(c, t)
	switch v.Kind() {
	case reflect.Bool:
	case reflect.Float32, reflect.Float64:
		prec := c.IntN(6) - 1
		if got, want := utils.ToStr(v.Interface(), prec), strconv.FormatFloat(v.Float(), 'f', prec, t.Bits()); got != want {
			c.Fatal("precision", "ToStr(%v %v, %d) = %q, want %q", t, v.Interface(), prec, got, want)
		}
		if got, want := utils.ToStr(v.Interface(), prec, 32), strconv.FormatFloat(v.Float(), 'f', prec, 32); got != want {
			c.Fatal("precision", "ToStr(%v %v, %d, 32) = %q, want %q", t, v.Interface(), prec, got, want)
		}
	default:
		want := new(big.Int)
		if v.CanInt() {
			want.SetInt64(v.Int())
		} else {
			want.SetUint64(v.Uint())
		}
		if got := utils.ToStr(v.Interface(), base); got != want.Text(base) {
			c.Fatal("base", "ToStr(%v %v, %d) = %q, want %q", t, v.Interface(), base, got, want.Text(base))
		}
	}
	f := float64(c.IntN(1<<30)) / 1024
	prec := c.IntN(8)
	got := utils.ToStr(f, prec)
	if want := fmt.Sprintf("%.*f", prec, f); got != want {
		c.Fatal("precision", "ToStr(%v, %d) = %q, want %q", f, prec, got, want)
	}
	c.Count("args", 1)
	c.Sig("args %d %d %v %d", x, base, f, prec)
}

func main() {
	h.Main(h.Spec{
		ID:          "C23",
		Rule:        "random and limit values of every numeric and boolean kind go to text and back through every helper of both packages; texts of integers around every limit are judged against exact arithmetic, malformed texts by construction; strings and byte lists in every wrapping, lists, formatting arguments, values of one kind asked for as another, and arbitrary values of any type (nil, typed nil, funcs, arrays) which must not panic",
		Assumptions: []string{"helpers without error may saturate a number that is out of range"},
		Min:         map[string]int64{"round_trips": 50000, "ranges": 5000, "cross": 3000, "float_texts": 1000, "cross_floats": 1000, "malformed": 3000, "bools": 100, "texts": 5000, "lists": 200, "anything": 500, "args": 200, "nan": 1},
		MinDistinct: 5000,
		Run: func(r *h.R) {
			r.Par("round-trip", r.N(1000, 100000), roundTrip)
			r.Loop("round-trip", r.N(4000, 400000), roundTrip)
			r.Par("integers", r.N(1000, 25000), integers)
			r.Loop("integers", r.N(4000, 100000), integers)
			r.Par("cross", r.N(1500, 75000), cross)
			r.Loop("cross", r.N(6000, 300000), cross)
			r.Par("floats", r.N(1000, 50000), floats)
			r.Loop("floats", r.N(4000, 200000), floats)
			r.Par("cross-floats", r.N(1000, 50000), crossFloat)
			r.Loop("cross-floats", r.N(4000, 200000), crossFloat)
			r.Par("malformed", r.N(100, 2500), malformed)
			r.Loop("malformed", r.N(400, 10000), malformed)
			r.Par("bools", r.N(50, 250), bools)
			r.Loop("bools", r.N(200, 1000), bools)
			r.Par("texts", r.N(250, 12500), texts)
			r.Loop("texts", r.N(1000, 50000), texts)
			r.Par("lists", r.N(125, 5000), lists)
			r.Loop("lists", r.N(500, 20000), lists)
			r.Par("anything", r.N(250, 1250), anything)
			r.Loop("anything", r.N(1000, 5000), anything)
			r.Par("args", r.N(125, 12500), args)
			r.Loop("args", r.N(500, 50000), args)
		},
	})
}

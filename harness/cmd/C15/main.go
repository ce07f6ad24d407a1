package main

import (
	"bytes"
	"fmt"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	"stripverif/h"
)

type Leaf struct {
	A    int
	B    string
	C    []byte
	When time.Time
	P    *int
}
type Emb struct{ X, Y int8 }
type embp struct{ Z string }
type EmbPub struct {
	W  string
	WL []int
}
type Node struct {
	Leaf Leaf
	L    []Leaf
	LL   [][]Leaf
	M    map[string]string
	MI   map[int]int
	N    *Node
	Ns   []Node
	NP   []*Node
	Emb
	*EmbPub
	*embp
	I    interface{}
	F    func()
	Ch   chan int
	Arr  [3]int
	Cx   complex128
	U    uintptr
	E    error
	St   fmt.Stringer
	priv int
}
type Big struct {
	Pad [64]int
	A   int
}
type Tree map[string]string
type SelfP struct {
	*SelfP
	A int
}
type A1 struct {
	*B1
	X int
}
type B1 struct {
	*A1
	Y []string
}

var types []reflect.Type

func init() {
	for _, x := range []any{0, int8(0), uint(0), uint8(0), float32(0), 0.0, "", true, time.Time{}, complex(1, 1), [2]int{}, uintptr(0),
		[]int{}, []string{}, []byte{}, []bool{}, [][]int{}, [][][]string{}, []Leaf{}, []Node{}, []*Node{}, []time.Time{}, []interface{}{}, []Big{}, [][]Big{}, []map[string]string{},
		new(int), new(string), new([]int), new(Node), new(map[string]int), new(*int), new(time.Time),
		map[string]string{}, map[int]int{}, map[string][]string{}, map[bool]float64{}, map[time.Time]string{}, map[interface{}]interface{}{}, map[[2]int]string{}, map[string]map[string]map[string]int{}, map[Emb]Emb{}, map[*int]int{}, map[string]Node{}, map[float64]string{},
		Leaf{}, Node{}, Emb{}, SelfP{}, A1{}, Tree{}, make(chan int), func() {}, &multipart.FileHeader{}, []*multipart.FileHeader{}, multipart.FileHeader{}, url.Values{}, http.Header{}, http.Request{}, url.URL{}} {
		types = append(types, reflect.TypeOf(x))
	}
	types = append(types, reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*interface{})(nil)).Elem())
}

var frag = []string{"[", "]", "[]", "[0]", "[1]", "[abc]", "[-1]", "[999999999]", "[2147483647]", "[4294967296]", "[9223372036854775807]", "[9223372036854775808]", "[00]", "[ 1 ]", "[+1]", "[0x10]", "[1e9]", "[.]", "[[0]]", "[]]", "][", ".", "..", ".A", ".Leaf", ".L", ".LL", ".M", ".MI", ".N", ".Ns", ".NP", ".Emb", ".X", ".EmbPub", ".W", ".WL", ".embp", ".Z", ".I", ".F", ".Ch", ".Arr", ".Cx", ".E", ".St", ".priv", ".When", ".P", ".C", "é", "\x00", "p", " ", "=", "[é]", "[\xff]", ".Leaf.A", "[0].L[0].A", "[1000]", "[1999]", "[50000]", ".String", ".wall", ".Pad", ".URL", ".Body"}

var vals = []string{"", "1", "-1", "300", "x", "true", "null", "{}", "{\"a\":1}", "{\"a\":{\"b\":[1,2]}}", "[1]", "{\"a\":null}", "{", "1e400", "NaN", "9223372036854775808", "2006-01-02", "9999999999999999999999", "\xff\xfe", "{\"\":\"\"}", "-9223372036854775808", "253402300800", "0x1p-2", "9223372036854775807"}

func name(c *h.C, base string) string {
	var b strings.Builder
	if !c.Chance(8) {
		b.WriteString(base)
	}
	n := c.IntN(5)
	if c.Chance(5) {
		n = c.IntN(60)
	}
	for i := 0; i < n; i++ {
		b.WriteString(frag[c.IntN(len(frag))])
	}
	return b.String()
}

type req struct {
	v     url.Values
	files map[string][]*multipart.FileHeader
	size  int
}

func gen(c *h.C, base string) (r req) {
	r.v = url.Values{}
	for i := 1 + c.IntN(8); i > 0; i-- {
		k := name(c, base)
		for j := 1 + c.IntN(3); j > 0; j-- {
			s := vals[c.IntN(len(vals))]
			r.v[k] = append(r.v[k], s)
			r.size += len(k) + len(s) + 2
		}
	}
	if c.Chance(30) {
		r.files = map[string][]*multipart.FileHeader{}
		for i := 1 + c.IntN(3); i > 0; i-- {
			k := name(c, base)
			r.files[k] = append(r.files[k], &multipart.FileHeader{Filename: "f", Size: 1})
			r.size += len(k) + 100
		}
	}
	return
}

// measure runs f and fails when it allocates out of proportion.
func measure(c *h.C, what string, size, keys, elem int, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	got := int64(b.TotalAlloc - a.TotalAlloc)
	// a few words and one element gap of the slice limit per key, per nesting
	limit := int64(1<<20) + int64(size)*200 + int64(keys+1)*(16<<10)*int64(1+elem/8)
	if got > limit {
		c.Fatal("allocation", "%s: a request of %d bytes and %d names made binding allocate %d bytes (limit %d)", what, size, keys, got, limit)
	}
	c.Count("measured", 1)
}

func random(c *h.C) {
	base := c.Pick("p", "", "a.b", "p[0]", "é")
	r := gen(c, base)
	c.Note("name %q values %q files %d", base, r.v, len(r.files))
	for i := 0; i < 6; i++ {
		t := types[c.IntN(len(types))]
		c.Note("type %v", t)
		p := &params.Params{Values: r.v, Files: r.files}
		var v reflect.Value
		measure(c, t.String(), r.size, len(r.v)+len(r.files), int(elemSize(t)), func() { v = params.Bind(p, base, t) })
		if !v.IsValid() || v.Type() != t {
			c.Fatal("type", "Bind(%v) returned %v", t, v)
		}
		if t.Kind() == reflect.Struct && t.PkgPath() == "main" {
			d := reflect.New(t)
			measure(c, "BindValuesToStruct "+t.String(), r.size, len(r.v), int(t.Size()), func() { p.BindValuesToStruct(d.Interface()) })
			c.Count("structs", 1)
		}
		params.BindValue(vals[c.IntN(len(vals))], t)
		params.BindFile(&multipart.FileHeader{Filename: "x"}, t)
		c.Count("binds", 1)
		c.Sig("%v %d names %s", t, len(r.v), first(r.v))
	}
	// empty lists may come from callers
	if c.Chance(10) {
		v := url.Values{base: {}, base + "[a]": {}, base + "[0]": nil, base + ".A": {}}
		t := types[c.IntN(len(types))]
		params.Bind(&params.Params{Values: v}, base, t)
		n := Node{}
		params.BindValuesToStruct(&n, v)
	}
}

func elemSize(t reflect.Type) uintptr {
	switch t.Kind() {
	case reflect.Slice, reflect.Map, reflect.Ptr:
		return elemSize(t.Elem())
	}
	return t.Size()
}

func first(v url.Values) string {
	m := ""
	for k := range v {
		if m == "" || k < m {
			m = k
		}
	}
	return m
}

// large requests with a shape that tempts to repeat work
func large(c *h.C) {
	n := 200 + c.IntN(800)
	shapes := []string{"p[0].L[%d].A", "p[%d].Leaf.A", "p[0].Ns[0].L[%d].B", "p[0].LL[0][%d].A", "p[0].LL[%d][0].A", "p[0].Ns[%d].Ns[0].Leaf.A", "p[0].Ns[0].Ns[0].Ns[%d].Leaf.B", "p[].%d", "p[0].M[%d]", "p[0].MI[%d]", "p.L[%d].A", "p.Ns[%d].L[0].A", "p.Ns[0].Ns[0].L[%d].A"}
	shape := shapes[c.IntN(len(shapes))]
	v := url.Values{}
	size := 0
	for i := 0; i < n; i++ {
		k := fmt.Sprintf(shape, i)
		v[k] = []string{"1"}
		size += len(k) + 3
	}
	t := reflect.TypeOf([]Node{})
	if !strings.HasPrefix(shape, "p[") {
		t = reflect.TypeOf(Node{})
	}
	c.Note("%d names like %s bound to %v", n, shape, t)
	measure(c, shape, size, n, int(reflect.TypeOf(Node{}).Size())/8, func() { params.Bind(&params.Params{Values: v}, "p", t) })
	c.Count("large", 1)
	c.Sig("large %s %d", shape, n)
}

// huge single indexes
func huge(c *h.C) {
	k := c.Pick("p[%d]", "p[%d].A", "p[0][%d]", "p[%d][0]", "p[0].L[%d].A")
	idx := int64(1) << c.IntN(63)
	switch c.IntN(4) {
	case 0:
		idx--
	case 1:
		idx += int64(c.IntN(1000))
	case 2:
		idx = c.Int64N(2e9)
	}
	if idx < 0 {
		idx = 1 << 40
	}
	key := fmt.Sprintf(k, idx)
	v := url.Values{key: {"1"}}
	ts := []reflect.Type{reflect.TypeOf([]int{}), reflect.TypeOf([][]int{}), reflect.TypeOf([]Big{}), reflect.TypeOf([]Node{}), reflect.TypeOf([][]Big{}), reflect.TypeOf([]string{}), reflect.TypeOf([]bool{})}
	t := ts[c.IntN(len(ts))]
	c.Note("%s bound to %v", key, t)
	measure(c, key, len(key)+2, 1, int(elemSize(t)), func() { params.Bind(&params.Params{Values: v}, "p", t) })
	c.Count("huge", 1)
	c.Sig("huge %s %v", key, t)
}

// through the server: query, form and multipart
func served(c *h.C) {
	sp, _ := h.NewApp()
	sp.Provide(params.ParamsParser())
	r := gen(c, "p")
	r.v["p"] = append(r.v["p"], "1")
	var ts []reflect.Type
	for i := 0; i < 4; i++ {
		ts = append(ts, types[c.IntN(len(types))])
	}
	c.Note("values %q types %v", r.v, ts)
	ran := false
	sp.Routers(strip.Router("/x", strip.Any(func(p *params.Params, rw http.ResponseWriter) {
		for _, t := range ts {
			d := reflect.New(t)
			p.Bind(d.Interface(), "p")
		}
		n := Node{}
		p.BindValuesToStruct(&n)
		ran = true
		rw.WriteHeader(204)
	})))
	var q *http.Request
	kind := c.IntN(3)
	switch kind {
	case 0:
		q = httptest.NewRequest("GET", "/x?"+r.v.Encode(), nil)
	case 1:
		q = httptest.NewRequest("POST", "/x", strings.NewReader(r.v.Encode()))
		q.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	case 2:
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		for k, l := range r.v {
			for _, s := range l {
				w.WriteField(strings.Map(func(r rune) rune {
					if r < 32 {
						return 'c'
					}
					return r
				}, k), s)
			}
		}
		if c.Chance(50) {
			f, _ := w.CreateFormFile("p[0]", "name")
			f.Write([]byte("x"))
		}
		w.Close()
		q = httptest.NewRequest("POST", "/x", &b)
		q.Header.Set("Content-Type", w.FormDataContentType())
	}
	rec := h.Serve(sp, q)
	if !ran || rec.Code != 204 {
		c.Fatal("served", "status %d ran %v", rec.Code, ran)
	}
	c.Count("served", 1)
	c.Sig("served %d %v %s", kind, ts, first(r.v))
}

func main() {
	h.Main(h.Spec{
		ID:          "C15",
		Rule:        "random: 1-8 hostile parameter names (bracket, dot, index and field fragments, up to 60) and files bound to 62 destination types, also BindValuesToStruct, BindValue and BindFile; large: 200-1000 names of shapes that tempt to repeat work; huge: single names with indexes up to 2^63; served: the same through query, form and multipart requests. A panic, a stack overflow, a stall or TotalAlloc growth above 1 MB + 200 bytes per request byte + 16 KB per name and element word is a violation",
		Assumptions: []string{"runtime.MemStats.TotalAlloc as the allocation meter", "types containing only themselves (type T []T) have no bindable content and are not tried"},
		Min:         map[string]int64{"binds": 10000, "large": 40, "huge": 500, "served": 500, "structs": 500},
		MinDistinct: 3000,
		StallTicks:  300,
		Run: func(r *h.R) {
			r.Loop("random", r.N(4000, 300000), random)
			r.Loop("large", r.N(60, 2000), large)
			r.Loop("huge", r.N(1000, 30000), huge)
			r.Loop("served", r.N(1500, 60000), served)
		},
	})
}

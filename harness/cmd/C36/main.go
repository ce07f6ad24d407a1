package main

import (
	"fmt"
	"math"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/wujiu2020/strip/caches"
	"stripverif/fake"
	"stripverif/h"
)

const (
	slack = 3 * time.Second
	year  = 365 * 24 * time.Hour
	never = time.Duration(1 << 62)
	ages  = 60 * year
)

// entry is what the model knows of a key.
type entry struct {
	text     string
	counter  bool // set as an integer
	deadline time.Duration
}

type world struct {
	c     *h.C
	b     *fake.Backend
	provs []caches.CacheProvider
	pre   []string
	opts  []fake.MgoOpts
	keys  []string
	model map[string]*entry // by space and key
	now   time.Duration
	start time.Time
}

func (w *world) full(p int, key string) string {
	if w.b.Kind == "mongo" {
		return w.pre[p] + "\x00" + key
	}
	return w.pre[p] + key
}

// look returns the live entry, and whether it is too close to its end to tell.
func (w *world) look(p int, key string) (e *entry, unsure bool) {
	e = w.model[w.full(p, key)]
	if e == nil || e.deadline == never {
		return e, false
	}
	left := e.deadline - w.now
	if left < slack && left > -slack {
		return nil, true
	}
	if left <= 0 {
		return nil, false
	}
	return e, false
}

func ttl(c *h.C) (params []int, d time.Duration, what string) {
	switch c.IntN(10) {
	case 0, 1:
		return nil, time.Minute, "default"
	case 2:
		return []int{0}, time.Minute, "zero"
	case 3, 4:
		return []int{[]int{-1, -2, -60, -1000000000, -1 << 40}[c.IntN(5)]}, never, "never"
	case 5:
		n := []int{2592000, 2592001, 2592000 + 3600, 45 * 86400, 365 * 86400, 4 * 365 * 86400}[c.IntN(6)]
		return []int{n}, time.Duration(n) * time.Second, "long"
	case 6:
		if c.Chance(30) {
			// longer than anything is judged
			n := []int{1<<31 - 1, 1 << 31, 3000000000, 1 << 32, 9000000000, 9223372036, 9223372037, 10000000000, 1 << 40, 1 << 55, 1<<63 - 1}[c.IntN(11)]
			return []int{n}, ages, "ages"
		}
		n := 1 + c.IntN(11)
		return []int{n}, time.Duration(n) * time.Second, "short"
	}
	n := []int{20, 59, 60, 61, 120, 3600, 3601, 86400, 7 * 86400}[c.IntN(9)]
	return []int{n}, time.Duration(n) * time.Second, "usual"
}

func value(c *h.C, kind string) (v any, text string, counter bool) {
	switch c.IntN(8) {
	case 0, 1:
		n := []int{0, 1, 2, 9, 10, 11, 99, 100, 101, 1000, 65535, 2147483647, 2147483648, 9999999999}[c.IntN(14)]
		switch c.IntN(6) {
		case 0:
			return int64(n), strconv.Itoa(n), true
		case 1:
			return uint64(n), strconv.Itoa(n), true
		case 2:
			return int32(n % 100000), strconv.Itoa(n % 100000), true
		case 3:
			return uint16(n % 65536), strconv.Itoa(n % 65536), true
		}
		return n, strconv.Itoa(n), true
	case 2:
		n := -c.IntN(1000000) - 1
		return n, strconv.Itoa(n), kind != "memcached"
	case 3:
		f := []float64{0.5, -1.25, 3.75, 1e6 + 0.5, 0.001}[c.IntN(5)]
		return f, strconv.FormatFloat(f, 'f', -1, 64), false
	case 4:
		t := c.Chance(50)
		return t, strconv.FormatBool(t), false
	case 5:
		b := make([]byte, c.IntN(300))
		for i := range b {
			b[i] = byte(c.IntN(256))
		}
		return b, string(b), false
	}
	s := c.Pick("", "val", "none", " lead", "trail ", "5 ", "12  ", "a\r\nb", "END\r\n", "VALUE x 0 1\r\nx\r\nEND\r\n", "日本語", "\x00nul", strings.Repeat("long ", 500), "STORED", "$-1\r\n", "*1", "null", "<nil>", "-", "0x10", "1e3", "007 ", "+")
	return s, s, false
}

func (w *world) fail(key, f string, a ...any) { w.c.Fatal(w.b.Kind+"-"+key, f, a...) }

// op runs one operation and judges it.
func (w *world) op() {
	c := w.c
	p := c.IntN(len(w.provs))
	prov, key := w.provs[p], w.keys[c.IntN(len(w.keys))]
	e, unsure := w.look(p, key)
	full := w.full(p, key)
	state := "live"
	switch {
	case unsure:
		state = "unsure"
	case e == nil && w.model[full] != nil:
		state = "expired"
	case e == nil:
		state = "missing"
	}
	miss := func(name string, err error) bool {
		if unsure {
			return err != nil
		}
		if e == nil {
			if err != caches.ErrMissedKey {
				w.fail("miss-"+name+"-"+state, "%s of the %s key %q: error %v, want ErrMissedKey", name, state, key, err)
			}
			return true
		}
		if err != nil {
			w.fail("hit-"+name, "%s of the live key %q (%+v, now %v): %v", name, key, *e, w.now, err)
		}
		return false
	}
	name := ""
	switch k := c.IntN(22); {
	case k < 5:
		name = "set"
		v, text, counter := value(c, w.b.Kind)
		params, d, what := ttl(c)
		c.Note("%d set %q = %T %.40q for %v", p, key, v, text, params)
		if err := prov.Set(key, v, params...); err != nil {
			w.fail("set", "Set(%q, %.60q, %v): %v", key, text, params, err)
		}
		ne := &entry{text, counter, never}
		if d != never {
			ne.deadline = w.now + d
		}
		w.model[full] = ne
		name += "-" + what
	case k < 8:
		name = "get"
		v, err := prov.Get(key)
		c.Note("%d get %q: %.40q %v", p, key, string(v), err)
		if !miss("get", err) && !unsure && string(v) != e.text {
			w.fail("value", "Get(%q) = %.80q, want %.80q", key, string(v), e.text)
		}
	case k < 10:
		name = "has"
		ok, err := prov.Has(key)
		c.Note("%d has %q: %v %v", p, key, ok, err)
		if err != nil || !unsure && ok != (e != nil) {
			w.fail("has-"+state, "Has(%q) = %v, %v of the %s key", key, ok, err, state)
		}
	case k < 12:
		name = "touch"
		params, d, what := ttl(c)
		err := prov.Touch(key, params...)
		c.Note("%d touch %q %v: %v", p, key, params, err)
		if unsure {
			if err == nil {
				// it was still there; it has the new lifetime
				w.model[full].deadline = w.now + d
				if d == never {
					w.model[full].deadline = never
				}
			}
			break
		}
		if !miss("touch", err) {
			e.deadline = never
			if d != never {
				e.deadline = w.now + d
			}
		}
		name += "-" + what
	case k < 13:
		name = "delete"
		err := prov.Delete(key)
		c.Note("%d delete %q: %v", p, key, err)
		miss("delete", err)
		if err == nil {
			delete(w.model, full)
		}
	case k < 17:
		name = "incr"
		down := c.Chance(50)
		n, params := 1, []int(nil)
		if c.Chance(70) {
			n = []int{0, 1, 2, 5, 9, 10, 99, 100, 1000, 65536, 3000000000}[c.IntN(11)]
			params = []int{n}
		}
		if unsure {
			return
		}
		if e != nil && !e.counter {
			// texts that some backends count and others do not are left alone
			if t := strings.TrimSpace(e.text); t != "" {
				if _, err := strconv.ParseFloat(t, 64); err == nil || strings.HasPrefix(t, "0x") {
					return
				}
			}
		}
		var cur int
		if e != nil && e.counter {
			cur, _ = strconv.Atoi(e.text)
			if down && w.b.Kind == "memcached" && n > cur {
				n = cur
				params = []int{n}
			}
		}
		var err error
		if down {
			name = "decr"
			n = -n
			err = prov.Decr(key, params...)
		} else {
			err = prov.Incr(key, params...)
		}
		c.Note("%d %s %q %v: %v", p, name, key, params, err)
		if e != nil && !e.counter {
			if err == nil || err == caches.ErrMissedKey {
				w.fail("count-text", "%s of the text %.40q: error %v", name, e.text, err)
			}
			break
		}
		if !miss(name, err) {
			e.text = strconv.Itoa(cur + n)
		}
	case k < 18:
		if !c.Chance(15) {
			return
		}
		name = "clean"
		if err := prov.Clean(); err != nil {
			w.fail("clean", "Clean: %v", err)
		}
		c.Note("%d clean", p)
		if w.b.Others() > 0 {
			w.fail("clean", "Clean emptied the other databases of the server, too")
		}
		for k := range w.model {
			if w.b.Kind != "mongo" || strings.HasPrefix(k, w.pre[p]+"\x00") {
				delete(w.model, k)
			}
		}
	case k < 19:
		name = "gc"
		if err := prov.GC(); err != nil {
			w.fail("gc", "GC: %v", err)
		}
		c.Note("%d gc", p)
		if w.b.Kind == "mongo" && !w.opts[p].AutoExpire {
			// nothing expired is left, nothing live is gone
			max := 0
			for k, e := range w.model {
				if strings.HasPrefix(k, w.pre[p]+"\x00") && e.deadline > w.now-slack {
					max++
				}
			}
			if n := w.b.Docs(w.pre[p]); n > max {
				w.fail("gc-left", "%d documents after GC, at most %d are live", n, max)
			}
			c.Count("gc judged", 1)
		}
	default:
		name = "advance"
		w.advance()
	}
	c.Count("op "+name, 1)
	c.Count("state "+state, 1)
	c.Sig("%s %s %s", w.b.Kind, name, state)
}

func (w *world) advance() {
	c := w.c
	var d time.Duration
	if c.Chance(70) && len(w.model) > 0 {
		// go right before or right after the end of some key
		var ks []*entry
		for _, k := range sortedKeys(w.model) {
			if w.model[k].deadline != never && w.model[k].deadline > w.now {
				ks = append(ks, w.model[k])
			}
		}
		if len(ks) > 0 {
			d = ks[c.IntN(len(ks))].deadline - w.now
			if c.Chance(50) && d > slack+time.Second {
				d -= slack + time.Second
			} else {
				d += slack + time.Second
			}
		}
	}
	if d == 0 {
		d = time.Duration(1+c.IntN(100)) * []time.Duration{time.Second, time.Minute, time.Hour, 24 * time.Hour, 20 * 24 * time.Hour}[c.IntN(5)]
	}
	if w.now+d > 18*year || w.b.Kind == "memcached" && time.Now().Add(w.now+d).Unix() > math.MaxInt32-100*86400 {
		// memcached cannot be told a time later than that
		return
	}
	sweep := c.Chance(60)
	w.b.Advance(d, sweep)
	w.now += d
	c.Note("advance %v to %v", d, w.now)
	if sweep && w.b.Kind == "mongo" {
		for p := range w.provs {
			if !w.opts[p].AutoExpire {
				continue
			}
			max := 0
			for k, e := range w.model {
				if strings.HasPrefix(k, w.pre[p]+"\x00") && e.deadline > w.now-time.Minute-slack {
					max++
				}
			}
			if n := w.b.Docs(w.pre[p]); n > max {
				w.fail("ttl-index", "%d documents after the TTL monitor ran, at most %d may be left", n, max)
			}
			c.Count("ttl judged", 1)
		}
	}
}

func sortedKeys(m map[string]*entry) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// sweepAll compares every key with the model.
func (w *world) sweepAll() {
	for p := range w.provs {
		for _, key := range w.keys {
			e, unsure := w.look(p, key)
			if unsure {
				continue
			}
			v, err := w.provs[p].Get(key)
			switch {
			case e == nil && (err != caches.ErrMissedKey || v != ""):
				w.fail("end-ghost", "at the end Get(%q) of provider %d = %.60q, %v; want a miss", key, p, string(v), err)
			case e != nil && (err != nil || string(v) != e.text):
				w.fail("end-value", "at the end Get(%q) of provider %d = %.60q, %v; want %.60q", key, p, string(v), err, e.text)
			}
			if ok, err := w.provs[p].Has(key); err != nil || ok != (e != nil) {
				w.fail("end-has", "at the end Has(%q) of provider %d = %v, %v; want %v", key, p, ok, err, e != nil)
			}
			w.c.Eval(1)
		}
	}
}

func newWorld(c *h.C, b *fake.Backend) *world {
	b.Fresh()
	w := &world{c: c, b: b, model: map[string]*entry{}, start: time.Now()}
	n := 1 + c.IntN(3)
	prefixes := []string{"a", "b:", "ab", "prefix_", "A"}
	prefixes = append(prefixes, "")
	if b.Kind == "redis" {
		prefixes = append(prefixes, "sp ace:")
	}
	c.Shuffle(len(prefixes), func(i, j int) { prefixes[i], prefixes[j] = prefixes[j], prefixes[i] })
	if b.Kind == "mongo" {
		prefixes = []string{"c1", "c2", "c3"}
	}
	for i := 0; i < n; i++ {
		o := fake.MgoOpts{AutoExpire: c.Chance(50), Key: c.Pick("_id", "_id", "k", "key"), Value: c.Pick("value", "v"), Exp: c.Pick("expiredAt", "x")}
		p, err := b.Cache(prefixes[i], o)
		if err != nil {
			w.fail("new", "new provider: %v", err)
		}
		w.provs, w.pre, w.opts = append(w.provs, p), append(w.pre, prefixes[i]), append(w.opts, o)
	}
	w.keys = []string{"k", "key", "k:2", "bk", "日", strings.Repeat("x", 40)}
	if b.Kind != "memcached" {
		w.keys = append(w.keys, "", "with space", "cr\r\nlf", "$gt", "a.b", "nul\x00")
	}
	if b.Kind != "mongo" {
		// keys that look as if they had a prefix already
		w.keys = append(w.keys, w.pre[0]+"k", w.pre[n-1]+"key")
	}
	c.Shuffle(len(w.keys), func(i, j int) { w.keys[i], w.keys[j] = w.keys[j], w.keys[i] })
	w.keys = w.keys[:2+c.IntN(4)]
	return w
}

func (w *world) done() {
	if bad := w.b.Bad(); len(bad) > 0 {
		panic(fmt.Sprintf("the fake does not know: %q", bad))
	}
}

func sequences(c *h.C, b *fake.Backend) {
	w := newWorld(c, b)
	for i, n := 0, 20+c.IntN(60); i < n; i++ {
		if time.Since(w.start) > slack-1500*time.Millisecond {
			c.Count("slow cases cut", 1)
			break
		}
		w.op()
		c.Eval(1)
	}
	w.sweepAll()
	w.done()
}

// edge: the ends of keys in real time; only mongo's ends are decided by the
// provider, the other servers count in seconds.
func edge(c *h.C, b *fake.Backend) {
	w := newWorld(c, b)
	type item struct {
		key      string
		lo, hi   time.Time // it ends between these
		hit, mis int
	}
	var items []*item
	n := 3 + c.IntN(3)
	for i := 0; i < n; i++ {
		it := &item{key: fmt.Sprint("edge", i), lo: time.Now().Add(time.Second - 2*time.Millisecond)}
		how := c.Pick("set", "touch")
		var err error
		if how == "touch" {
			if err = w.provs[0].Set(it.key, "x", 3600); err == nil {
				it.lo = time.Now().Add(time.Second - 2*time.Millisecond)
				err = w.provs[0].Touch(it.key, 1)
			}
		} else {
			err = w.provs[0].Set(it.key, "x", 1)
		}
		if err != nil {
			w.fail("set", "%v", err)
		}
		it.hi = time.Now().Add(time.Second + 2*time.Millisecond)
		items = append(items, it)
		time.Sleep(time.Duration(c.IntN(350)) * time.Millisecond)
	}
	for end := items[n-1].hi.Add(300 * time.Millisecond); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		for _, it := range items {
			for _, op := range []string{"has", "get", "touch-late"} {
				before := time.Now()
				var ok bool
				switch op {
				case "has":
					ok, _ = w.provs[0].Has(it.key)
				case "get":
					_, err := w.provs[0].Get(it.key)
					ok = err == nil
				default:
					if !before.After(it.hi) {
						continue
					}
					ok = w.provs[0].Touch(it.key, 3600) == nil
				}
				after := time.Now()
				if ok {
					it.hit++
				} else {
					it.mis++
				}
				if !ok && after.Before(it.lo) {
					w.fail("edge-early", "%s misses %v before the key's lifetime has passed", op, it.lo.Sub(after))
				}
				if ok && before.After(it.hi) {
					w.fail("edge-late", "%s finds the key %v after its lifetime has passed", op, before.Sub(it.hi))
				}
			}
		}
	}
	for _, it := range items {
		if it.hit > 0 && it.mis > 0 {
			c.Count("ends seen in real time", 1)
		}
	}
	w.done()
}

// faults: an error of the backend is an error, never a miss or a success.
func faults(c *h.C, b *fake.Backend) {
	w := newWorld(c, b)
	prov, key := w.provs[0], "k"
	present := c.Chance(60)
	if present {
		if err := prov.Set(key, 7, 600); err != nil {
			w.fail("set", "%v", err)
		}
	}
	f := []fake.Fault{fake.Err, fake.DropBefore}[c.IntN(2)]
	b.SetHook(func(o fake.Op) fake.Fault { return f })
	ops := map[string]func() error{
		"get":    func() error { _, err := prov.Get(key); return err },
		"set":    func() error { return prov.Set(key, 9, 60) },
		"touch":  func() error { return prov.Touch(key, 60) },
		"delete": func() error { return prov.Delete(key) },
		"incr":   func() error { return prov.Incr(key) },
		"decr":   func() error { return prov.Decr(key) },
		"clean":  prov.Clean,
		"has": func() error {
			ok, err := prov.Has(key)
			if ok {
				w.fail("fault-has-true", "Has is true although the backend failed")
			}
			return err
		},
	}
	name := c.Pick("get", "set", "touch", "delete", "incr", "decr", "clean", "has")
	err := ops[name]()
	if err == nil || err == caches.ErrMissedKey {
		w.fail("fault-"+name, "%s with a failing backend (%v): error %v", name, f, err)
	}
	b.SetHook(nil)
	v, err := prov.Get(key)
	if present && (err != nil || v != "7") || !present && err != caches.ErrMissedKey {
		w.fail("fault-after-"+name, "after a failed %s: Get = %q, %v (present %v)", name, string(v), err, present)
	}
	c.Sig("%s fault %s %v present=%v", b.Kind, name, f, present)
	c.Count("faults judged", 1)
	w.done()
}

// connections: whatever the outcome, an operation gives its connection back.
func connections(c *h.C, b *fake.Backend) {
	w := newWorld(c, b)
	prov := w.provs[0]
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // lost connections are not to be closed by finalizers
	key := "conn"
	ops := []struct {
		name string
		f    func()
	}{
		{"set", func() { prov.Set(key, 7, 600) }},
		{"get", func() { prov.Get(key) }},
		{"get-missed", func() { prov.Get("none") }},
		{"has", func() { prov.Has(key) }},
		{"has-missed", func() { prov.Has("none") }},
		{"touch", func() { prov.Touch(key, 60) }},
		{"touch-missed", func() { prov.Touch("none", 60) }},
		{"touch-never", func() { prov.Touch(key, -1) }},
		{"incr", func() { prov.Incr(key) }},
		{"incr-missed", func() { prov.Incr("none") }},
		{"decr", func() { prov.Decr(key) }},
		{"decr-missed", func() { prov.Decr("none") }},
		{"delete-missed", func() { prov.Delete("none") }},
		{"delete", func() { prov.Delete(key) }},
		{"gc", func() { prov.GC() }},
		{"clean", func() { prov.Clean() }},
	}
	for _, fault := range []fake.Fault{fake.None, fake.Err} {
		b.SetHook(func(o fake.Op) fake.Fault { return fault })
		prov.Get(key)
		for _, op := range ops {
			before := b.Open()
			for i := 0; i < 40; i++ {
				op.f()
				if i%8 == 0 {
					c.Beat()
				}
			}
			after := b.Open()
			if after > before+16 {
				w.fail("connections-"+op.name, "40 calls of %s (fault %v), one after the other, raised the number of open connections from %d to %d", op.name, fault, before, after)
			}
			c.Count("calls watched for connections", 40)
			c.Sig("%s connections %s %v", b.Kind, op.name, fault)
		}
	}
	b.SetHook(nil)
	w.done()
}

func main() {
	h.Main(h.Spec{
		ID:   "C36",
		Rule: "a generated sequence of operations by 1 to 3 providers of one backend (memcached, redis, mongo servers in process, real clients) over few keys, many lifetimes and a clock that is advanced to right before and after the ends of keys, each result compared with a map with deadlines; single operations with a failing backend; and the number of open connections while every operation is repeated",
		Assumptions: []string{
			"the in-process servers follow the documented protocols of memcached, redis and mongod (the repository's own backend tests pass against them)",
			"time passing is simulated by moving stored deadlines back; results within 3 s of a deadline are not judged, except for mongo in real time",
			"counters below zero on memcached, counting of texts, and negative amounts are left out because the backends differ by design",
		},
		Min:         map[string]int64{"op touch-never": 20, "op set-long": 50, "state expired": 200, "gc judged": 20, "ttl judged": 20, "faults judged": 100, "calls watched for connections": 3000},
		MinDistinct: 80,
		Run: func(r *h.R) {
			for _, k := range fake.Kinds {
				b := fake.NewBackend(k)
				r.Loop("sequences-"+k, r.N(500, 20000), func(c *h.C) { sequences(c, b) })
				if k == "mongo" {
					r.Loop("edge-"+k, r.N(4, 100), func(c *h.C) { edge(c, b) })
				}
				r.Loop("faults-"+k, r.N(60, 1000), func(c *h.C) { faults(c, b) })
				r.Loop("connections-"+k, r.N(2, 20), func(c *h.C) { connections(c, b) })
			}
		},
	})
}

package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/wujiu2020/strip/caches"
	"stripverif/fake"
	"stripverif/h"
)

type input struct {
	op   string // set get has delete touch incr decr
	key  string
	text string
	n    int
}

type output struct {
	miss bool
	text string
	yes  bool
}

type state struct {
	live bool
	text string
}

var model = porcupine.Model{
	Partition: func(history []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range history {
			k := o.Input.(input).key
			m[k] = append(m[k], o)
		}
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var out [][]porcupine.Operation
		for _, k := range keys {
			out = append(out, m[k])
		}
		return out
	},
	Init: func() interface{} { return state{} },
	Step: func(s, in, out interface{}) (bool, interface{}) {
		st, i, o := s.(state), in.(input), out.(output)
		switch i.op {
		case "set":
			return true, state{true, i.text}
		case "get":
			return o.miss == !st.live && (o.miss || o.text == st.text), st
		case "has":
			return o.yes == st.live, st
		case "delete":
			return o.miss == !st.live, state{}
		case "touch":
			return o.miss == !st.live, st
		}
		if !st.live {
			return o.miss, st
		}
		v, _ := strconv.Atoi(st.text)
		if i.op == "incr" {
			v += i.n
		} else {
			v -= i.n
		}
		return !o.miss, state{true, strconv.Itoa(v)}
	},
	Equal: func(a, b interface{}) bool { return a == b },
	DescribeOperation: func(in, out interface{}) string {
		return fmt.Sprintf("%+v -> %+v", in, out)
	},
}

func provider(c *h.C, b *fake.Backend) caches.CacheProvider {
	b.Fresh()
	p, err := b.Cache("p", fake.MgoOpts{Key: c.Pick("_id", "k"), Value: "value", Exp: "expiredAt", AutoExpire: c.Chance(50)})
	if err != nil {
		c.Fatal("new", "%v", err)
	}
	mode := c.IntN(3)
	var n atomic.Uint64
	seed := c.Uint64()
	b.SetDelay(func() {
		x := (n.Add(1) + seed) * 0x9E3779B97F4A7C15
		switch {
		case mode == 1 && x>>60 < 6:
			runtime.Gosched()
		case mode == 2 && x>>60 < 5:
			time.Sleep(time.Duration(x>>40&255) * time.Microsecond)
		}
	})
	return p
}

// linear: the history of concurrent operations is some sequential one.
func linear(c *h.C, b *fake.Backend) {
	p := provider(c, b)
	clients, per := 2+c.IntN(5), 4+c.IntN(8)
	keys := []string{"k1", "k2"}[:1+c.IntN(2)]
	var mu sync.Mutex
	var hist []porcupine.Operation
	t0 := time.Now()
	counters := c.Chance(70)
	var wg sync.WaitGroup
	gate := make(chan bool)
	for i := 0; i < clients; i++ {
		r := rand.New(rand.NewPCG(c.Uint64(), uint64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for j := 0; j < per; j++ {
				in := input{key: keys[r.IntN(len(keys))], n: 1 + r.IntN(3)}
				var out output
				var err error
				call := time.Since(t0).Nanoseconds()
				switch k := r.IntN(20); {
				case k < 4:
					in.op = "set"
					v := 10000 + 1000*i + j
					in.text = strconv.Itoa(v)
					if counters {
						err = p.Set(in.key, v, 600)
					} else {
						in.text = "v" + in.text
						err = p.Set(in.key, in.text, 600)
					}
				case k < 8:
					in.op = "get"
					var v interface{ String() string }
					x, e := p.Get(in.key)
					v, err = x, e
					out.text = v.String()
				case k < 10:
					in.op = "has"
					out.yes, err = p.Has(in.key)
				case k < 12:
					in.op = "delete"
					err = p.Delete(in.key)
				case k < 13:
					in.op = "touch"
					err = p.Touch(in.key, []int{600, -1}[r.IntN(2)])
				default:
					if !counters {
						in.op = "get"
						x, e := p.Get(in.key)
						out.text, err = x.String(), e
						break
					}
					if k < 17 {
						in.op = "incr"
						err = p.Incr(in.key, in.n)
					} else {
						in.op = "decr"
						err = p.Decr(in.key, in.n)
					}
				}
				ret := time.Since(t0).Nanoseconds()
				if err == caches.ErrMissedKey {
					out.miss, err = true, nil
				}
				if err != nil {
					c.Fail("error-"+in.op, "%s: %+v: %v", b.Kind, in, err)
					return
				}
				mu.Lock()
				hist = append(hist, porcupine.Operation{ClientId: i, Input: in, Call: call, Output: out, Return: ret})
				mu.Unlock()
			}
		}()
	}
	close(gate)
	wg.Wait()
	if c.Failed() {
		return
	}
	res := porcupine.CheckOperationsTimeout(model, hist, 20*time.Second)
	if res == porcupine.Unknown {
		c.Inconclusive("the history of %d operations was not decided in time", len(hist))
	}
	if res == porcupine.Illegal {
		sort.Slice(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
		for _, o := range hist {
			c.Note("client %d [%d..%d] %+v -> %+v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
		}
		c.Fail("not-linearizable-"+b.Kind, "%s: no sequential order of the operations explains their results", b.Kind)
	}
	over := 0
	for i := range hist {
		for j := range hist {
			if i < j && hist[i].Call < hist[j].Return && hist[j].Call < hist[i].Return {
				over++
			}
		}
	}
	c.Count("operations", len(hist))
	c.Count("overlapping pairs", over)
	c.Eval(len(hist))
	order := ""
	for _, o := range hist {
		order += fmt.Sprint(o.ClientId, o.Input.(input).op[0])
	}
	c.Sig("%s %s", b.Kind, order)
}

// conserved: a counter ends at its start plus what was acknowledged.
func conserved(c *h.C, b *fake.Backend) {
	p := provider(c, b)
	start := 1000000
	if err := p.Set("n", start, 600); err != nil {
		c.Fatal("set", "%v", err)
	}
	// another provider value of the same configuration, as another process has
	var wg sync.WaitGroup
	var sum, acks atomic.Int64
	// operations that reach a lost connection are not acknowledged
	clients, per := 4+c.IntN(8), 10+c.IntN(20)
	for i := 0; i < clients; i++ {
		r := rand.New(rand.NewPCG(c.Uint64(), uint64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < per; j++ {
				n := 1 + r.IntN(9)
				var err error
				switch r.IntN(4) {
				case 0:
					n = 1
					err = p.Incr("n")
				case 1:
					err = p.Incr("n", n)
				case 2:
					n = 1
					err = p.Decr("n")
					n = -n
				default:
					err = p.Decr("n", n)
					n = -n
				}
				if err != nil {
					c.Fail("count-error", "%s: %v", b.Kind, err)
					return
				}
				sum.Add(int64(n))
				acks.Add(1)
			}
		}()
	}
	wg.Wait()
	v, err := p.Get("n")
	if want := strconv.Itoa(start + int(sum.Load())); err != nil || v.String() != want {
		c.Fail("lost-update-"+b.Kind, "%s: the counter is %q (%v) after %d acknowledged changes, want %s", b.Kind, v, err, acks.Load(), want)
	}
	c.Count("acknowledged counts", int(acks.Load()))
	c.Sig("%s conserved %d", b.Kind, sum.Load())
}

// counted: faults make some counts fail; those not applied do not count, those
// whose acknowledgement was lost may.
func counted(c *h.C, b *fake.Backend) {
	p := provider(c, b)
	start := 1000000
	if err := p.Set("n", start, 600); err != nil {
		c.Fatal("set", "%v", err)
	}
	b.SetHook(func(o fake.Op) fake.Fault {
		if rand.IntN(10) == 0 {
			return fake.Fault(1 + rand.IntN(3))
		}
		return fake.None
	})
	var wg sync.WaitGroup
	var sum, lost atomic.Int64
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 15; j++ {
				if err := p.Incr("n", 1); err == nil {
					sum.Add(1)
				} else if err == caches.ErrMissedKey {
					c.Fail("fault-miss", "%s: a failing backend is reported as a missing key", b.Kind)
				} else {
					lost.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	b.SetHook(nil)
	x, err := p.Get("n")
	v, _ := strconv.Atoi(x.String())
	if err != nil || v < start+int(sum.Load()) || v > start+int(sum.Load()+lost.Load()) {
		c.Fail("fault-count-"+b.Kind, "%s: the counter is %d (%v) after %d acknowledged and %d failed increments from %d", b.Kind, v, err, sum.Load(), lost.Load(), start)
	}
	c.Count("failed counts", int(lost.Load()))
}

func main() {
	h.Main(h.Spec{
		ID:   "C37",
		Rule: "concurrent clients run generated operations on few keys of one provider while the server yields or sleeps at random points; the recorded history is checked for linearizability against a map (porcupine), counters are checked for conservation also with failing operations, all under the race detector",
		Assumptions: []string{
			"the in-process servers apply each command atomically, as real ones do",
			"no lifetime ends during a case",
		},
		Min:         map[string]int64{"operations": 3000, "overlapping pairs": 3000, "acknowledged counts": 5000, "failed counts": 100},
		MinDistinct: 100,
		Run: func(r *h.R) {
			for _, k := range fake.Kinds {
				b := fake.NewBackend(k)
				r.Loop("linear-"+k, r.N(120, 4000), func(c *h.C) { linear(c, b) })
				r.Loop("conserved-"+k, r.N(25, 800), func(c *h.C) { conserved(c, b) })
				r.Loop("counted-"+k, r.N(10, 300), func(c *h.C) { counted(c, b) })
			}
		},
	})
}

package main

import (
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sync"
	"time"

	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/sessions"
	"stripverif/fake"
	"stripverif/h"
)

// state is what a saved session may hold; nil values mean not saved.
type state map[string]any

type handle struct {
	store    sessions.SessionStore
	sid      string
	values   state
	changed  bool
	closed   bool
	poisoned bool // has a value that cannot be saved
}

type client struct {
	value string // of its cookie
	sid   string
	hd    *handle
}

type world struct {
	c     *h.C
	b     *fake.Backend
	prov  sessions.SessionProvider
	mgr   *sessions.SessionManager
	cfg   *sessions.CookieConfig
	cand  map[string][]state // by id: what the backend may hold
	mu    sync.Mutex
	plan  fake.Fault // for the next operations
	skip  int        // operations before the fault
	left  int        // operations that fail
	fired []string   // what failed
	after bool       // a write was applied and not acknowledged
}

func (w *world) fail(key, f string, a ...any) { w.c.Fatal(key, w.b.Kind+": "+f, a...) }

func (w *world) hook(o fake.Op) fake.Fault {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.plan == fake.None || w.left == 0 {
		return fake.None
	}
	if w.skip > 0 {
		w.skip--
		return fake.None
	}
	w.left--
	w.fired = append(w.fired, fmt.Sprintf("%s:%v", o.Name, w.plan))
	if o.Write && w.plan == fake.DropAfter {
		w.after = true
	}
	return w.plan
}

// arm chooses the faults of the next call.
func (w *world) arm() {
	c := w.c
	w.mu.Lock()
	defer w.mu.Unlock()
	w.fired, w.after, w.skip, w.left = nil, false, 0, 0
	w.plan = fake.None
	if c.Chance(55) {
		w.plan = fake.Fault(1 + c.IntN(3))
		w.skip = []int{0, 0, 0, 1, 1, 2, 2, 3}[c.IntN(8)]
		w.left = []int{1, 1, 1, 2, 1000}[c.IntN(5)]
	}
}

// disarm ends the faults and tells what happened.
func (w *world) disarm() (fired []string, after bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.plan, w.left = fake.None, 0
	return w.fired, w.after
}

func same(a, b state) bool {
	return (a == nil) == (b == nil) && (len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b))
}

func clone(m map[string]any) state {
	out := state{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// settle reads an id with a healthy backend and keeps only what it saw.
func (w *world) settle(sid, when string) state {
	sess, err := w.prov.Read(sid)
	var got state
	if err == nil {
		got = clone(sess.Values())
	} else if err != sessions.ErrNotFoundSession {
		w.fail("healthy-read", "%s: reading %q: %v", when, sid, err)
	}
	cands, ok := w.cand[sid]
	if !ok {
		cands = []state{nil}
	}
	for _, s := range cands {
		if same(s, got) {
			w.cand[sid] = []state{got}
			w.c.Eval(1)
			return got
		}
	}
	w.fail("held", "%s: the session %q holds %v, it may only hold one of %v", when, sid, got, cands)
	return nil
}

func (w *world) cands(sid string) []state {
	if l, ok := w.cand[sid]; ok {
		return l
	}
	return []state{nil}
}

// judge compares the error of a call with the faults during it.
func (w *world) judge(what string, err error) (fired []string, after bool) {
	fired, after = w.disarm()
	if len(fired) > 0 && (err == nil || err == caches.ErrMissedKey || err == sessions.ErrNotFoundSession) {
		w.fail("silent-"+what, "%s: the backend failed (%v) and the error is %v", what, fired, err)
	}
	for _, f := range fired {
		w.c.Sig("%s %s %s", w.b.Kind, what, f)
	}
	if len(fired) > 0 {
		w.c.Count("faults in "+what, 1)
	}
	return
}

func (w *world) request(cl *client) *http.Request {
	r := httptest.NewRequest("GET", "/", nil)
	if cl.value != "" {
		r.AddCookie(&http.Cookie{Name: "S", Value: cl.value})
	}
	return r
}

// take applies what a response does to the client.
func (w *world) take(cl *client, rec *httptest.ResponseRecorder) bool {
	for _, k := range rec.Result().Cookies() {
		if k.MaxAge < 0 {
			cl.value, cl.sid = "", ""
			return true
		}
		sid, _, ok := sessions.DecodeSecureValue(k.Value, "key")
		if !ok {
			w.fail("cookie", "a cookie that does not decode")
		}
		cl.value, cl.sid = k.Value, sid
		return true
	}
	return false
}

func (w *world) start(cl *client) {
	old := cl.sid
	w.arm()
	rec := httptest.NewRecorder()
	sess, _, err := w.mgr.Start(w.cfg, rec, w.request(cl))
	fired, _ := w.judge("start", err)
	w.c.Note("start of %q: %v (faults %v)", old, err, fired)
	if err != nil {
		if len(fired) == 0 {
			w.fail("start-error", "Start of %q: %v", old, err)
		}
		if w.take(cl, rec) && old != "" {
			w.fail("start-replaced", "a failed Start replaced the cookie of %q", old)
		}
		cl.hd = nil
		return
	}
	w.take(cl, rec)
	if old != "" && sess.Sid() != old {
		w.fail("start-id", "Start of %q gave %q", old, sess.Sid())
	}
	vals := clone(sess.Values())
	ok := false
	for _, s := range w.cands(cl.sid) {
		if same(s, vals) || s == nil && len(vals) == 0 {
			ok = true
			w.cand[cl.sid] = []state{s}
			break
		}
	}
	if !ok {
		w.fail("start-data", "Start of %q has %v, it may only have one of %v", cl.sid, vals, w.cands(cl.sid))
	}
	if len(vals) == 0 {
		// saved empty and not saved look the same here
		delete(w.cand, cl.sid)
		w.cand[cl.sid] = []state{nil, {}}
	}
	cl.hd = &handle{store: sess, sid: cl.sid, values: vals}
}

func (w *world) set(cl *client) {
	c := w.c
	k := c.Pick("a", "b", "c")
	switch c.IntN(8) {
	case 0:
		delete(cl.hd.values, k)
		cl.hd.store.Delete(k)
	case 1:
		cl.hd.values = state{}
		cl.hd.store.Clean()
		cl.hd.poisoned = false
	default:
		v := fmt.Sprintf("%s%d", c.Pick("x", "y"), c.IntN(1000))
		cl.hd.values[k] = v
		cl.hd.store.Set(k, v)
	}
	cl.hd.changed = true
	if c.Chance(10) {
		// something that cannot be saved
		cl.hd.store.Set("bad", []any{uint64(math.MaxUint64), make(chan int), func() {}}[c.IntN(3)])
		cl.hd.poisoned = true
	} else if cl.hd.poisoned && c.Chance(70) {
		cl.hd.store.Delete("bad")
		cl.hd.poisoned = false
	}
	c.Note("set %q: %v (poisoned %v)", cl.hd.sid, cl.hd.values, cl.hd.poisoned)
}

func (w *world) flush(cl *client) {
	hd := cl.hd
	w.arm()
	err := hd.store.Flush()
	fired, after := w.judge("flush", err)
	w.c.Note("flush %q (changed %v closed %v): %v (faults %v)", hd.sid, hd.changed, hd.closed, err, fired)
	if hd.closed || !hd.changed {
		if err != nil {
			w.fail("flush-idle", "Flush of the unchanged or closed session %q: %v", hd.sid, err)
		}
		return
	}
	if hd.poisoned {
		if err == nil {
			w.fail("flush-unsaveable", "Flush of a value that cannot be saved reports no error")
		}
		w.c.Count("unsaveable values", 1)
		return
	}
	now := clone(hd.values)
	if err != nil {
		if len(fired) == 0 {
			w.fail("flush-error", "Flush of %q: %v", hd.sid, err)
		}
		if after {
			w.cand[hd.sid] = append(append([]state(nil), w.cands(hd.sid)...), now)
		}
		w.c.Count("failed saves", 1)
		return
	}
	hd.changed = false
	w.cand[hd.sid] = []state{now}
	w.c.Count("saves", 1)
}

func (w *world) touch(cl *client) {
	w.arm()
	err := cl.hd.store.Touch()
	fired, _ := w.judge("touch", err)
	w.c.Note("touch %q: %v (faults %v)", cl.hd.sid, err, fired)
	if len(fired) == 0 && err != nil {
		for _, s := range w.cands(cl.hd.sid) {
			if s == nil {
				return
			}
		}
		w.fail("touch", "Touch of the saved session %q: %v", cl.hd.sid, err)
	}
}

func (w *world) destroyed(sid string, err error, fired []string, after bool, what string) {
	switch {
	case err == nil || len(fired) == 0:
		if err != nil && err != caches.ErrMissedKey {
			w.fail(what+"-error", "destroying %q: %v", sid, err)
		}
		w.cand[sid] = []state{nil}
	case after:
		w.cand[sid] = append([]state{nil}, w.cands(sid)...)
	}
}

func (w *world) storeDestroy(cl *client) {
	hd := cl.hd
	w.arm()
	err := hd.store.Destroy()
	fired, after := w.judge("store-destroy", err)
	w.c.Note("store destroy %q: %v (faults %v)", hd.sid, err, fired)
	w.destroyed(hd.sid, err, fired, after, "store-destroy")
	hd.closed = true
	hd.values = state{}
	// a destroyed session is not saved any more
	hd.store.Set("late", 1)
	hd.store.Flush()
}

func (w *world) destroy(cl *client) {
	sid := cl.sid
	w.arm()
	rec := httptest.NewRecorder()
	err := w.mgr.Destroy(w.cfg, rec, w.request(cl))
	fired, after := w.judge("destroy", err)
	w.c.Note("destroy %q: %v (faults %v)", sid, err, fired)
	if sid == "" {
		return
	}
	w.destroyed(sid, err, fired, after, "destroy")
	if !w.take(cl, rec) {
		w.fail("destroy-cookie", "Destroy left the cookie")
	}
	w.take(cl, rec)
	cl.hd = nil
}

func (w *world) regenerate(cl *client) {
	old := cl.sid
	if old != "" {
		w.settle(old, "before Regenerate")
	}
	had := w.cands(old)[0]
	w.arm()
	rec := httptest.NewRecorder()
	sess, _, err := w.mgr.Regenerate(w.cfg, rec, w.request(cl))
	fired, after := w.judge("regenerate", err)
	moved := w.take(cl, rec)
	w.c.Note("regenerate %q -> %q: %v (faults %v)", old, cl.sid, err, fired)
	if err != nil {
		if len(fired) == 0 {
			w.fail("regenerate-error", "Regenerate of %q: %v", old, err)
		}
		cl.hd = nil
		if old == "" {
			return
		}
		if after && !moved {
			w.cand[old] = []state{had, nil}
		}
		if moved {
			// the client has the new id, so the data must be there
			w.cand[cl.sid] = []state{had}
			w.settle(cl.sid, "after a failed Regenerate that set a cookie")
			w.cand[old] = []state{had, nil}
		}
		w.settle(old, "after a failed Regenerate")
		w.c.Count("failed regenerations", 1)
		return
	}
	if !moved || sess.Sid() != cl.sid || cl.sid == old {
		w.fail("regenerate-id", "Regenerate of %q gave %q, cookie %q", old, sess.Sid(), cl.sid)
	}
	vals := clone(sess.Values())
	if !same(vals, clone(had)) {
		w.fail("regenerate-data", "Regenerate of %q has %v, want %v", old, vals, had)
	}
	cl.hd = &handle{store: sess, sid: cl.sid, values: vals}
	w.cand[cl.sid] = []state{had}
	if had == nil {
		w.cand[cl.sid] = []state{nil}
	}
	if old != "" {
		w.cand[old] = []state{nil}
		w.settle(old, "the old id after Regenerate")
	}
	w.settle(cl.sid, "the new id after Regenerate")
	w.c.Count("regenerations", 1)
}

func one(c *h.C, b *fake.Backend) {
	b.Fresh()
	w := &world{c: c, b: b, cand: map[string][]state{}, cfg: &sessions.CookieConfig{CookieName: "S", CookieExpire: 3600}}
	var err error
	if w.prov, err = b.Sessions(sessions.Config{SecretKey: "key", SessionExpire: 36000}, "p", c.Chance(50)); err != nil {
		c.Fatal("new", "%v", err)
	}
	w.mgr = sessions.NewSessionManager(w.prov)
	b.SetHook(w.hook)
	clients := []*client{{}, {}}
	for i, n := 0, 15+c.IntN(30); i < n; i++ {
		cl := clients[c.IntN(len(clients))]
		if cl.hd == nil && c.Chance(80) {
			w.start(cl)
			continue
		}
		switch k := c.IntN(20); {
		case k < 2:
			w.start(cl)
		case k < 7:
			if cl.hd != nil && !cl.hd.closed {
				w.set(cl)
			}
		case k < 13:
			if cl.hd != nil {
				w.flush(cl)
			}
		case k < 14:
			if cl.hd != nil {
				w.touch(cl)
			}
		case k < 15:
			if cl.hd != nil && c.Chance(60) {
				w.storeDestroy(cl)
			}
		case k < 16:
			w.destroy(cl)
		case k < 19:
			w.regenerate(cl)
		default:
			if cl.sid != "" {
				w.settle(cl.sid, "between")
			}
		}
		if bad := b.Bad(); len(bad) > 0 {
			panic(fmt.Sprintf("the fake does not know: %q", bad))
		}
	}
	// the backend has recovered: everything pending can be saved
	for _, cl := range clients {
		if hd := cl.hd; hd != nil && !hd.closed && hd.changed && !hd.poisoned {
			if err := hd.store.Flush(); err != nil {
				w.fail("recovered-flush", "after recovery Flush of %q: %v", hd.sid, err)
			}
			w.cand[hd.sid] = []state{clone(hd.values)}
			c.Count("pending saved after recovery", 1)
		}
	}
	for _, cl := range clients {
		if cl.sid != "" {
			w.settle(cl.sid, "at the end")
		}
	}
}

// garbage in the backend is an error, not a panic.
func garbage(c *h.C, b *fake.Backend) {
	b.Fresh()
	prov, err := b.Sessions(sessions.Config{SecretKey: "key", SessionExpire: 36000}, "p", true)
	if err != nil {
		c.Fatal("new", "%v", err)
	}
	raw, err := b.Cache("p", fake.MgoOpts{Key: "_id", Value: "value", Exp: "expiredAt", AutoExpire: true})
	if err != nil {
		c.Fatal("new-cache", "%v", err)
	}
	mgr := sessions.NewSessionManager(prov)
	sid := sessions.CreateSid()
	g := make([]byte, c.IntN(40))
	for i := range g {
		g[i] = byte(c.IntN(256))
	}
	if c.Chance(50) {
		// a damaged real session
		s, _ := prov.Create(sid)
		s.Set("a", "text")
		s.Set("n", 5)
		s.Flush()
		v, _ := raw.Get(sid)
		g = []byte(v)
		switch c.IntN(3) {
		case 0:
			g = g[:c.IntN(len(g))]
		case 1:
			g[c.IntN(len(g))] ^= byte(1 + c.IntN(255))
		default:
			g = append(g, g...)
		}
	}
	if err := raw.Set(sid, g, 3600); err != nil {
		c.Fatal("garbage-set", "%v", err)
	}
	value, _ := sessions.EncodeSecureValue(sid, "key", time.Now())
	cfg := &sessions.CookieConfig{CookieName: "S"}
	for _, f := range []func(w http.ResponseWriter, r *http.Request) (sessions.SessionStore, time.Time, error){
		func(w http.ResponseWriter, r *http.Request) (sessions.SessionStore, time.Time, error) {
			return mgr.Start(cfg, w, r)
		},
		func(w http.ResponseWriter, r *http.Request) (sessions.SessionStore, time.Time, error) {
			return mgr.Regenerate(cfg, w, r)
		},
	} {
		r := httptest.NewRequest("GET", "/", nil)
		r.AddCookie(&http.Cookie{Name: "S", Value: value})
		sess, _, err := f(httptest.NewRecorder(), r)
		if err == nil && sess == nil {
			c.Fatal("garbage-nil", "no session and no error for %q", g)
		}
		if err != nil {
			c.Count("garbage refused", 1)
		}
	}
	c.Count("garbage", 1)
}

func main() {
	h.Main(h.Spec{
		ID:   "C35",
		Rule: "a generated sequence of session calls by two clients on one backend, with operations of the backend failing at chosen points of a call (error reply, connection lost before or after applying, one or many in a row), each call's error and the data held afterwards compared with a model that keeps every outcome an unacknowledged write may have",
		Assumptions: []string{
			"the in-process servers fail the way real ones do: an error reply or a lost connection",
			"a write whose acknowledgement was lost may or may not have been applied",
		},
		Min:         map[string]int64{"faults in start": 50, "faults in flush": 100, "faults in regenerate": 100, "faults in destroy": 20, "faults in store-destroy": 20, "faults in touch": 20, "failed regenerations": 50, "regenerations": 50, "pending saved after recovery": 50, "garbage": 100, "unsaveable values": 20},
		MinDistinct: 60,
		Run: func(r *h.R) {
			for _, k := range fake.Kinds {
				b := fake.NewBackend(k)
				r.Loop("faults-"+k, r.N(400, 8000), func(c *h.C) { one(c, b) })
				r.Loop("garbage-"+k, r.N(60, 2000), func(c *h.C) { garbage(c, b) })
			}
		},
	})
}

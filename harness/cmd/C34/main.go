package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/wujiu2020/strip/sessions"
	"stripverif/fake"
	"stripverif/h"
)

const slack = 3 * time.Second

// data of one saved session
type saved struct {
	values   map[string]any // as they read back
	deadline time.Duration
}

type service struct {
	key    string
	expire time.Duration
	ages   bool // the configured lifetime is longer than anything judged
	prefix string
	prov   sessions.SessionProvider
	mgr    *sessions.SessionManager
	data   map[string]*saved // by session id
	issued map[string]bool   // ids made by this service
}

// handle is a session store obtained in some request, with its model.
type handle struct {
	store   sessions.SessionStore
	svc     *service
	values  map[string]any
	changed bool
	closed  bool
}

type cookie struct {
	name    string
	svc     *service
	sid     string
	value   string
	born    time.Duration
	dropped time.Duration // when the client drops it (0 never)
}

type client struct {
	jar     map[string]*cookie // by cookie name
	handles []*handle
}

type world struct {
	c       *h.C
	b       *fake.Backend
	now     time.Duration
	start   time.Time
	svcs    []*service
	cfgs    []*sessions.CookieConfig
	clients []*client
	old     []*cookie // every cookie ever issued
	shared  map[string]any
	sharedN map[string]any
}

func (w *world) fail(key, f string, a ...any) { w.c.Fatal(key, w.b.Kind+": "+f, a...) }

func (w *world) live(s *service, sid string) (*saved, bool) {
	d := s.data[sid]
	if d == nil {
		return nil, false
	}
	left := d.deadline - w.now
	if left < slack && left > -slack {
		return nil, true
	}
	if left < 0 {
		return nil, false
	}
	return d, false
}

// canon makes values comparable across the store.
func canon(v any) any {
	switch t := v.(type) {
	case int:
		return int64(t)
	case int32:
		return int64(t)
	case uint16:
		return int64(t)
	case time.Time:
		return "time:" + fmt.Sprint(t.UnixMilli())
	case []byte:
		return bytes.Clone(t)
	case []string:
		l := make([]any, len(t))
		for i := range t {
			l[i] = t[i]
		}
		return l
	case []any:
		l := make([]any, len(t))
		for i := range t {
			l[i] = canon(t[i])
		}
		return l
	case map[string]any:
		m := map[string]any{}
		for k, x := range t {
			m[k] = canon(x)
		}
		return m
	case map[string]string:
		m := map[string]any{}
		for k, x := range t {
			m[k] = x
		}
		return m
	}
	return v
}

func canonMap(m map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range m {
		out[k] = canon(v)
	}
	return out
}

func value(c *h.C) any {
	switch c.IntN(14) {
	case 0:
		return c.IntN(1000) - 500
	case 1:
		return int64(c.Uint64() >> 1)
	case 2:
		return float64(c.IntN(1000)) / 8
	case 3:
		return c.Chance(50)
	case 4:
		b := make([]byte, c.IntN(60))
		for i := range b {
			b[i] = byte(c.IntN(256))
		}
		return b
	case 5:
		return time.UnixMilli(int64(c.IntN(2000000000)) * 1000).Add(time.Duration(c.IntN(1000)) * time.Millisecond)
	case 6:
		return []string{c.Pick("a", ""), c.Pick("b", "日本")}
	case 7:
		return map[string]any{"a": c.IntN(9), c.Pick("x", "y.z"): []any{1, "two", nil}}
	case 8:
		return nil
	case 9:
		return uint16(c.IntN(65536))
	case 10:
		return strings.Repeat(c.Pick("long ", "\x00", "é"), 1+c.IntN(3000))
	}
	return c.Pick("", "v", "alice", "bob", "a\r\nb", "END\r\n", "日本語", "\x00", "1", " s ") + fmt.Sprint(c.IntN(1000))
}

func key(c *h.C) string {
	return c.Pick("uid", "name", "a.b", "$x", "_id", "", "key with space", "日", "uid2", "value", "expiredAt")
}

func (w *world) note(f string, a ...any) { w.c.Note("[%v] "+f, append([]any{w.now}, a...)...) }

// request makes a request of a client as its jar has it.
func (w *world) request(cl *client, s *service, cfg *sessions.CookieConfig) (*http.Request, *cookie, bool) {
	r := httptest.NewRequest("GET", "http://www.domain.com/", nil)
	for i, n := 0, w.c.IntN(3); i < n; i++ {
		r.AddCookie(&http.Cookie{Name: w.c.Pick("other", "SESSIO", cfg.CookieName+"2", strings.ToLower(cfg.CookieName)+"x"), Value: "v"})
	}
	ck := cl.jar[cfg.CookieName]
	if ck == nil {
		return r, nil, false
	}
	if ck.dropped != 0 && w.now > ck.dropped && w.c.Chance(70) {
		delete(cl.jar, cfg.CookieName)
		return r, nil, false
	}
	return w.with(r, ck, s), ck, true
}

func (w *world) with(r *http.Request, ck *cookie, s *service) *http.Request {
	r.AddCookie(&http.Cookie{Name: ck.name, Value: ck.value})
	return r
}

// valid tells whether service s must accept the cookie for cfg.
func (w *world) valid(ck *cookie, s *service, cfg *sessions.CookieConfig) (ok, unsure bool) {
	if ck == nil || ck.svc.key != s.key || ck.name != cfg.CookieName {
		return false, false
	}
	left := s.expire - (w.now - ck.born)
	if left < slack && left > -slack {
		return false, true
	}
	return left > 0, false
}

func domain(s string) string { return strings.TrimPrefix(s, ".") }

// issuedCookie checks the single cookie a response sets, and gives it to the client.
func (w *world) issuedCookie(rec *httptest.ResponseRecorder, cl *client, s *service, cfg *sessions.CookieConfig, sid, what string) {
	cs := rec.Result().Cookies()
	if len(cs) != 1 {
		w.fail("cookie-count", "%s set %d cookies: %v", what, len(cs), cs)
	}
	k := cs[0]
	maxAge := cfg.CookieExpire
	if maxAge < 0 {
		maxAge = 0
	}
	if k.Name != cfg.CookieName || k.Path != "/" || !k.HttpOnly || k.Secure != cfg.CookieSecure || k.Domain != domain(cfg.CookieDomain) || k.MaxAge != maxAge || !k.Expires.IsZero() {
		w.fail("cookie-attributes", "%s set %q for %+v", what, k.String(), *cfg)
	}
	raw, at, ok := sessions.DecodeSecureValue(k.Value, s.key)
	if !ok || raw != sid || time.Since(at) > time.Minute || time.Since(at) < 0 {
		w.fail("cookie-value", "%s set a cookie for %q at %v (%v), the session is %q", what, raw, at, ok, sid)
	}
	ck := &cookie{name: k.Name, svc: s, sid: sid, value: k.Value, born: w.now}
	if maxAge > 0 {
		ck.dropped = w.now + time.Duration(maxAge)*time.Second
	}
	if cl != nil {
		cl.jar[k.Name] = ck
	}
	w.old = append(w.old, ck)
}

func (w *world) freshID(s *service, sid, what string) {
	if len(sid) != sessions.SESSION_ID_LENGTH || strings.Trim(sid, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ") != "" {
		w.fail("id-shape", "%s gave the id %q", what, sid)
	}
	for _, o := range w.svcs {
		if o.issued[sid] {
			w.fail("id-reused", "%s gave the id %q again", what, sid)
		}
	}
	s.issued[sid] = true
}

func (w *world) same(hd *handle, what string) {
	got := hd.store.Values()
	if !reflect.DeepEqual(canonMap(got), canonMap(hd.values)) {
		w.fail("data", "%s: session %q has %v, want %v", what, hd.store.Sid(), got, hd.values)
	}
	// the copy is independent
	got["intruder"] = 1
	if hd.store.Has("intruder") {
		w.fail("values-alias", "changing the result of Values changed the session")
	}
	w.c.Eval(1)
}

func (w *world) begin(cl *client, r *http.Request, ck *cookie, s *service, cfg *sessions.CookieConfig, what string) {
	ok, unsure := w.valid(ck, s, cfg)
	if unsure {
		return
	}
	if ok {
		if _, unsure := w.live(s, ck.sid); unsure {
			return
		}
	}
	rec := httptest.NewRecorder()
	sess, created, err := s.mgr.Start(cfg, rec, r)
	if err != nil || sess == nil {
		w.fail("start-error", "%s: Start: %v", what, err)
	}
	hd := &handle{store: sess, svc: s, values: map[string]any{}}
	state := "new"
	if ok {
		if sess.Sid() != ck.sid {
			w.fail("start-id", "%s: Start with the valid cookie of %q gave %q", what, ck.sid, sess.Sid())
		}
		if n := len(rec.Result().Cookies()); n != 0 {
			w.fail("start-sets", "%s: Start with a valid cookie sets %d cookies", what, n)
		}
		want := time.Now().Add(-(w.now - ck.born))
		if d := created.Sub(want); d > slack || d < -slack {
			w.fail("created", "%s: created at %v, want about %v", what, created, want)
		}
		state = "missing"
		if d, _ := w.live(s, ck.sid); d != nil {
			hd.values = canonMap(d.values)
			state = "found"
		}
	} else {
		w.freshID(s, sess.Sid(), what)
		w.issuedCookie(rec, cl, s, cfg, sess.Sid(), what)
		if d := time.Since(created); d < 0 || d > slack {
			w.fail("created-new", "%s: new session created at %v", what, created)
		}
		// the request now carries the new session
		if sid, _, ok := s.mgr.ReadSidFromRequest(r, cfg.CookieName); !ok || sid != sess.Sid() {
			w.fail("request-cookie", "%s: after Start the request reads %q (%v), want %q", what, sid, ok, sess.Sid())
		}
	}
	w.note("%s: start -> %s %s", what, sess.Sid(), state)
	w.same(hd, what)
	cl.handles = append(cl.handles, hd)
	w.c.Count("start "+state, 1)
	w.c.Sig("%s start %s %s", w.b.Kind, strings.Fields(what)[0], state)
}

// use does one thing with an open store.
func (w *world) use(hd *handle) {
	c := w.c
	k := key(c)
	sid := hd.store.Sid()
	switch n := c.IntN(20); {
	case n < 6:
		v := value(c)
		w.note("%s set %q = %.40q", sid, k, fmt.Sprint(v))
		hd.store.Set(k, v)
		hd.values[k] = v
		hd.changed = true
	case n < 7 && len(hd.values) > 0:
		w.again(hd)
	case n < 8:
		want, has := hd.values[k]
		if hd.store.Has(k) != has || !reflect.DeepEqual(canon(hd.store.Get(k).Value()), canon(want)) {
			w.fail("get", "session %q: Get(%q) = %v (%v), want %v (%v)", sid, k, hd.store.Get(k).Value(), hd.store.Has(k), want, has)
		}
	case n < 9:
		w.note("%s delete %q", sid, k)
		hd.store.Delete(k)
		delete(hd.values, k)
		hd.changed = true
	case n < 10:
		w.note("%s clean", sid)
		hd.store.Clean()
		hd.values = map[string]any{}
		hd.changed = true
	case n < 15:
		w.flush(hd)
	case n < 17:
		d, unsure := w.live(hd.svc, sid)
		if unsure {
			return
		}
		err := hd.store.Touch()
		w.note("%s touch: %v", sid, err)
		if (err == nil) != (d != nil) {
			w.fail("touch", "Touch of %q: %v, saved %v", sid, err, d != nil)
		}
		if d != nil {
			d.deadline = w.now + hd.svc.expire
			c.Count("touched", 1)
		}
	case n < 18 && c.Chance(40):
		d, unsure := w.live(hd.svc, sid)
		err := hd.store.Destroy()
		w.note("%s destroy: %v", sid, err)
		if d != nil && err != nil && !unsure {
			w.fail("store-destroy", "Destroy of %q: %v", sid, err)
		}
		delete(hd.svc.data, sid)
		hd.closed = true
		hd.values = map[string]any{}
		c.Count("store destroyed", 1)
	default:
		w.same(hd, "use")
	}
	w.c.Eval(1)
}

// again stores a value under a key that has one: the same, of another type
// with the same text, or the stored one changed in place.
func (w *world) again(hd *handle) {
	var ks []string
	for k := range hd.values {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	k := ks[w.c.IntN(len(ks))]
	v := hd.store.Get(k).Value()
	what := "same"
	if w.c.Chance(70) {
		what = "in place"
		switch t := v.(type) {
		case []any:
			if len(t) > 0 {
				t[0] = fmt.Sprint("changed", w.c.IntN(1000))
			}
		case map[string]any:
			t["changed"] = fmt.Sprint(w.c.IntN(1000))
		case []byte:
			if len(t) > 0 {
				t[0]++
			}
		case []string:
			t[0] = fmt.Sprint("changed", w.c.IntN(1000))
		case int:
			v, what = fmt.Sprint(t), "text of int"
		case int64:
			v, what = fmt.Sprint(t), "text of int"
		case bool:
			v, what = fmt.Sprint(t), "text of bool"
		case nil:
			v, what = "", "text of nil"
		case string:
			if n, err := strconv.ParseInt(t, 10, 64); err == nil {
				v, what = n, "int of text"
			} else {
				v, what = []byte(t), "bytes of text"
			}
		}
	}
	w.note("%s set %q again, %s: %.40q", hd.store.Sid(), k, what, fmt.Sprint(v))
	hd.store.Set(k, v)
	hd.values[k] = canon(v)
	hd.changed = true
	w.c.Count("set again "+what, 1)
}

func (w *world) flush(hd *handle) {
	sid := hd.store.Sid()
	w.note("%s flush (changed %v closed %v)", sid, hd.changed, hd.closed)
	if err := hd.store.Flush(); err != nil {
		w.fail("flush", "Flush of %q: %v", sid, err)
	}
	if hd.changed && !hd.closed {
		hd.svc.data[sid] = &saved{canonMap(hd.values), w.now + hd.svc.expire}
		w.c.Count("saved", 1)
	}
	hd.changed = false
}

func (w *world) regenerate(cl *client, s *service, cfg *sessions.CookieConfig) {
	c := w.c
	r, ck, _ := w.request(cl, s, cfg)
	ok, unsure := w.valid(ck, s, cfg)
	var old *saved
	if ok {
		var u bool
		old, u = w.live(s, ck.sid)
		unsure = unsure || u
	}
	if unsure {
		return
	}
	var params []map[string]any
	var extra map[string]any
	switch c.IntN(4) {
	case 0:
		extra = map[string]any{"seed": c.IntN(100), key(c): value(c)}
		params = append(params, extra)
	case 1:
		params = append(params, nil)
	case 2:
		// one map of defaults used for every client
		extra = w.shared
		params = append(params, extra)
	}
	rec := httptest.NewRecorder()
	sess, created, err := s.mgr.Regenerate(cfg, rec, r, params...)
	if err != nil || sess == nil {
		w.fail("regenerate-error", "Regenerate: %v", err)
	}
	w.freshID(s, sess.Sid(), "Regenerate")
	w.issuedCookie(rec, cl, s, cfg, sess.Sid(), "Regenerate")
	if d := time.Since(created); d < 0 || d > slack {
		w.fail("created-regenerate", "regenerated session created at %v", created)
	}
	if sid, _, ok := s.mgr.ReadSidFromRequest(r, cfg.CookieName); !ok || sid != sess.Sid() {
		w.fail("request-cookie-regenerate", "after Regenerate the request reads %q (%v), want %q", sid, ok, sess.Sid())
	}
	hd := &handle{store: sess, svc: s, values: map[string]any{}}
	state := "none"
	switch {
	case old != nil:
		state = "moved"
		hd.values = canonMap(old.values)
		s.data[sess.Sid()] = &saved{canonMap(old.values), w.now + s.expire}
		delete(s.data, ck.sid)
	case extra != nil:
		hd.values = canonMap(extra)
		hd.changed = true
		state = "params"
	case len(params) > 0:
		hd.changed = true
	}
	w.note("regenerate -> %s %s", sess.Sid(), state)
	w.same(hd, "regenerate "+state)
	if ok {
		if _, err := s.prov.Read(ck.sid); err != sessions.ErrNotFoundSession {
			w.fail("old-id", "after Regenerate the old id %q reads %v", ck.sid, err)
		}
	}
	cl.handles = append(cl.handles, hd)
	c.Count("regenerate "+state, 1)
	c.Sig("%s regenerate %s valid=%v", w.b.Kind, state, ok)
}

func (w *world) destroy(cl *client, s *service, cfg *sessions.CookieConfig) {
	r, ck, _ := w.request(cl, s, cfg)
	ok, unsure := w.valid(ck, s, cfg)
	if unsure {
		return
	}
	rec := httptest.NewRecorder()
	err := s.mgr.Destroy(cfg, rec, r)
	w.note("manager destroy (valid %v): %v", ok, err)
	if err != nil {
		w.fail("destroy", "Destroy: %v", err)
	}
	cs := rec.Result().Cookies()
	if ok {
		if len(cs) != 1 || cs[0].Name != cfg.CookieName || cs[0].Path != "/" || cs[0].Domain != domain(cfg.CookieDomain) || cs[0].MaxAge >= 0 || cs[0].Value != "" {
			w.fail("destroy-cookie", "Destroy set %v", cs)
		}
		delete(s.data, ck.sid)
		delete(cl.jar, cfg.CookieName)
		if _, err := s.prov.Read(ck.sid); err != sessions.ErrNotFoundSession {
			w.fail("destroy-data", "after Destroy the id %q reads %v", ck.sid, err)
		}
		w.c.Count("destroyed", 1)
	}
	w.c.Sig("%s destroy valid=%v", w.b.Kind, ok)
}

// forged presents something that was not issued.
func (w *world) forged(cl *client, s *service, cfg *sessions.CookieConfig) {
	c := w.c
	var base *cookie
	if len(w.old) > 0 {
		base = w.old[c.IntN(len(w.old))]
	}
	what, v := "junk", c.Pick("", "x", "====", "%", "%zz", "a,b,c", base64.URLEncoding.EncodeToString([]byte("SID,1,deadbeef")), strings.Repeat("A", 500))
	if base != nil && c.Chance(85) {
		sid := base.sid
		age := time.Duration(c.IntN(100)) * time.Second
		switch c.IntN(6) {
		case 0:
			what = "other-key"
			v, _ = sessions.EncodeSecureValue(sid, s.key+"x", time.Now().Add(-age))
		case 1:
			what = "altered-id"
			raw, _ := base64.URLEncoding.DecodeString(base.value)
			raw[c.IntN(5)] ^= 1
			v = base64.URLEncoding.EncodeToString(raw)
		case 2:
			what = "altered-time"
			raw, _ := base64.URLEncoding.DecodeString(base.value)
			p := strings.SplitN(string(raw), ",", 3)
			p[1] = fmt.Sprint(time.Now().UnixNano())
			v = base64.URLEncoding.EncodeToString([]byte(strings.Join(p, ",")))
		case 3:
			if s.ages {
				return
			}
			what = "expired"
			v, _ = sessions.EncodeSecureValue(sid, s.key, time.Now().Add(-s.expire-slack-time.Duration(c.IntN(1000000))*time.Second))
		case 4:
			what = "plain"
			v = sid
		case 5:
			what = "truncated"
			v = base.value[:len(base.value)-4*(1+c.IntN(5))]
		}
	}
	r := httptest.NewRequest("GET", "/", nil)
	if c.Chance(30) && base != nil {
		// an earlier cookie of the name does not count
		r.AddCookie(&http.Cookie{Name: cfg.CookieName, Value: base.value})
	}
	r.AddCookie(&http.Cookie{Name: cfg.CookieName, Value: v})
	w.begin(cl, r, nil, s, cfg, "forged "+what)
	c.Count("forged", 1)
	c.Sig("%s forged %s", w.b.Kind, what)
}

// advance lets time pass for the backend and for all cookies.
func (w *world) advance() {
	c := w.c
	var d time.Duration
	var ends []time.Duration
	for _, ck := range w.old {
		if !ck.svc.ages {
			ends = append(ends, ck.born+ck.svc.expire)
		}
	}
	for _, s := range w.svcs {
		if s.ages {
			continue
		}
		var ks []time.Duration
		for _, x := range s.data {
			ks = append(ks, x.deadline)
		}
		// map order does not matter: only the smallest is used
		var min time.Duration
		for _, k := range ks {
			if k > w.now && (min == 0 || k < min) {
				min = k
			}
		}
		if min != 0 {
			ends = append(ends, min)
		}
	}
	var up []time.Duration
	for _, e := range ends {
		if e > w.now {
			up = append(up, e)
		}
	}
	if len(up) > 0 && c.Chance(60) {
		d = up[c.IntN(len(up))] - w.now
		if d > 2*slack && c.Chance(60) {
			d -= slack + time.Second
		} else {
			d += slack + time.Second
		}
	} else {
		d = time.Duration(1+c.IntN(3000)) * time.Second
	}
	w.b.Advance(d, c.Chance(50))
	w.now += d
	for _, ck := range w.old {
		raw, at, ok := sessions.DecodeSecureValue(ck.value, ck.svc.key)
		if !ok {
			w.fail("redecode", "an issued cookie does not decode")
		}
		at = at.Add(-d)
		if at.UnixNano() <= 0 {
			w.c.Skip()
		}
		ck.value, _ = sessions.EncodeSecureValue(raw, ck.svc.key, at)
	}
	w.note("advance %v", d)
}

// margin: cookies written with a time near the end of their lifetime are read
// exactly until that end.
func margin(c *h.C, b *fake.Backend) {
	b.Fresh()
	secs := []int{1, 2, 59, 60, 3600, 86400, 30 * 86400}[c.IntN(7)]
	life := time.Duration(secs) * time.Second
	prov, err := b.Sessions(sessions.Config{SecretKey: "margin", SessionExpire: secs}, "p", true)
	if err != nil {
		c.Fatal("new", "%v", err)
	}
	m := sessions.NewSessionManager(prov)
	cfg := &sessions.CookieConfig{CookieName: "SESS", CookieExpire: []int{-1, 5}[c.IntN(2)]}
	for i := 0; i < 60; i++ {
		left := time.Duration(c.IntN(2400)-1200) * time.Millisecond
		if c.Chance(30) {
			left = time.Duration(c.IntN(40)-20) * time.Millisecond
		}
		at := time.Now().Add(left - life)
		r := httptest.NewRequest("GET", "/", nil)
		rec := httptest.NewRecorder()
		m.WriteSessionCookie(cfg, r, rec, "SID0123456789", at)
		before := time.Now()
		sid, created, ok := m.ReadSidFromRequest(r, "SESS")
		after := time.Now()
		end := time.Unix(0, at.UnixNano()).Add(life)
		if ok && before.After(end) {
			c.Fatal("margin-late", "a session cookie is read %v after the end of its %v", before.Sub(end), life)
		}
		if !ok && after.Before(end) {
			c.Fatal("margin-early", "a session cookie is not read %v before the end of its %v", end.Sub(after), life)
		}
		if ok && (sid != "SID0123456789" || created.UnixNano() != at.UnixNano()) {
			c.Fatal("margin-value", "the cookie of SID0123456789 at %v is read as %q at %v", at, sid, created)
		}
		c.Eval(1)
		c.Count("cookies near their end", 1)
	}
}

func newWorld(c *h.C, b *fake.Backend) *world {
	b.Fresh()
	w := &world{c: c, b: b, start: time.Now(), shared: map[string]any{"theme": "dark", "n": 1}}
	w.sharedN = canonMap(w.shared)
	for i, n := 0, 1+c.IntN(2); i < n; i++ {
		s := &service{key: []string{"secret_key", "Other key"}[i], prefix: []string{"pa", "pb"}[i], data: map[string]*saved{}, issued: map[string]bool{}}
		s.expire = time.Duration([]int{60, 600, 3600, 86400, 40 * 86400}[c.IntN(5)]) * time.Second
		secs := int(s.expire / time.Second)
		if c.Chance(8) {
			// practically for ever
			secs, s.ages = []int{9223372037, 10000000000, 1 << 40, 1<<63 - 1}[c.IntN(4)], true
			s.expire = 40 * 365 * 86400 * time.Second
		}
		var err error
		s.prov, err = b.Sessions(sessions.Config{SecretKey: s.key, SessionExpire: secs}, s.prefix, c.Chance(50))
		if err != nil {
			w.fail("new", "new provider: %v", err)
		}
		s.mgr = sessions.NewSessionManager(s.prov)
		w.svcs = append(w.svcs, s)
		w.cfgs = append(w.cfgs, &sessions.CookieConfig{
			CookieName: []string{"SESS_A", "SESS_B"}[i], CookieRememberName: "REM", CookieSecure: c.Chance(50),
			CookieDomain: c.Pick("", ".domain.com", "www.domain.com"), CookieExpire: []int{-1, 0, 30, 3600, 86400 * 365}[c.IntN(5)], RememberExpire: 77})
	}
	for i, n := 0, 1+c.IntN(3); i < n; i++ {
		w.clients = append(w.clients, &client{jar: map[string]*cookie{}})
	}
	return w
}

func (w *world) step() {
	c := w.c
	i := c.IntN(len(w.svcs))
	s, cfg := w.svcs[i], w.cfgs[i]
	cl := w.clients[c.IntN(len(w.clients))]
	switch n := c.IntN(30); {
	case n < 7:
		r, ck, had := w.request(cl, s, cfg)
		what := "request without-cookie"
		if had {
			what = "request with-cookie"
		}
		w.begin(cl, r, ck, s, cfg, what)
		if len(cl.handles) > 0 && c.Chance(70) {
			hd := cl.handles[len(cl.handles)-1]
			for i := c.IntN(4); i >= 0; i-- {
				w.use(hd)
			}
			if c.Chance(80) {
				w.flush(hd)
			}
		}
	case n < 20:
		if len(cl.handles) > 0 {
			j := len(cl.handles) - 1
			if c.Chance(25) {
				j = c.IntN(len(cl.handles))
			}
			w.use(cl.handles[j])
		}
	case n < 22:
		w.regenerate(cl, s, cfg)
	case n < 23:
		w.destroy(cl, s, cfg)
	case n < 25:
		w.forged(cl, s, cfg)
	case n < 26 && len(w.old) > 0:
		// an old cookie, of any service, under this name
		ck := w.old[c.IntN(len(w.old))]
		if ck.svc == s {
			r := httptest.NewRequest("GET", "/", nil)
			r.AddCookie(&http.Cookie{Name: cfg.CookieName, Value: ck.value})
			w.begin(cl, r, ck, s, cfg, "replay own")
		} else {
			r := httptest.NewRequest("GET", "/", nil)
			r.AddCookie(&http.Cookie{Name: cfg.CookieName, Value: ck.value})
			w.begin(cl, r, nil, s, cfg, "replay other-service")
		}
		c.Count("replay", 1)
	case n < 27:
		if err := s.prov.GC(); err != nil {
			w.fail("gc", "GC: %v", err)
		}
	default:
		w.advance()
	}
}

// finish compares the backend with the model for every id.
func (w *world) finish() {
	for _, s := range w.svcs {
		for _, sid := range sorted(s.issued) {
			d, unsure := w.live(s, sid)
			if unsure {
				continue
			}
			sess, err := s.prov.Read(sid)
			switch {
			case d == nil && err != sessions.ErrNotFoundSession:
				w.fail("end-ghost", "at the end the session %q reads %v, want not found", sid, err)
			case d != nil && err != nil:
				w.fail("end-lost", "at the end the session %q reads %v, want %v", sid, err, d.values)
			case d != nil && !reflect.DeepEqual(canonMap(sess.Values()), canonMap(d.values)):
				w.fail("end-data", "at the end the session %q has %v, want %v", sid, sess.Values(), d.values)
			}
			w.c.Eval(1)
			for _, o := range w.svcs {
				if o != s {
					if _, err := o.prov.Read(sid); err != sessions.ErrNotFoundSession {
						w.fail("other-service", "service %s reads the session of %s: %v", o.prefix, s.prefix, err)
					}
				}
			}
		}
	}
	if !reflect.DeepEqual(canonMap(w.shared), w.sharedN) {
		w.fail("params-alias", "the map given to Regenerate was changed to %v", w.shared)
	}
	if bad := w.b.Bad(); len(bad) > 0 {
		panic(fmt.Sprintf("the fake does not know: %q", bad))
	}
}

func sorted(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

func histories(c *h.C, b *fake.Backend) {
	w := newWorld(c, b)
	for i, n := 0, 30+c.IntN(60); i < n; i++ {
		if time.Since(w.start) > slack-1500*time.Millisecond {
			c.Count("slow cases cut", 1)
			break
		}
		w.step()
	}
	w.finish()
}

// concurrent clients each keep to their own session.
func concurrent(c *h.C, b *fake.Backend) {
	b.Fresh()
	prov, err := b.Sessions(sessions.Config{SecretKey: "k", SessionExpire: 3600}, "p", true)
	if err != nil {
		c.Fatal("new", "%v", err)
	}
	m := sessions.NewSessionManager(prov)
	cfg := &sessions.CookieConfig{CookieName: "S", CookieExpire: 3600}
	defaults := map[string]any{"theme": "dark"}
	var mu sync.Mutex
	ids := map[string]int{}
	var wg sync.WaitGroup
	clients, rounds := 4+c.IntN(8), 6+c.IntN(10)
	seeds := make([]uint64, clients)
	for i := range seeds {
		seeds[i] = c.Uint64()
	}
	for i := 0; i < clients; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mine := fmt.Sprintf("client-%d", i)
			value, rnd := "", seeds[i]
			count := 0
			for j := 0; j < rounds; j++ {
				rnd = rnd*6364136223846793005 + 1442695040888963407
				r := httptest.NewRequest("GET", "/", nil)
				if value != "" {
					r.AddCookie(&http.Cookie{Name: "S", Value: value})
				}
				rec := httptest.NewRecorder()
				var sess sessions.SessionStore
				var err error
				if rnd>>60 < 3 {
					sess, _, err = m.Regenerate(cfg, rec, r, defaults)
				} else {
					sess, _, err = m.Start(cfg, rec, r)
				}
				if err != nil {
					c.Fail("concurrent-error", "%s round %d: %v", mine, j, err)
					return
				}
				for _, k := range rec.Result().Cookies() {
					value = k.Value
					mu.Lock()
					if o, dup := ids[sess.Sid()]; dup {
						c.Fail("concurrent-id", "the id %q was given to client %d and client %d", sess.Sid(), o, i)
					}
					ids[sess.Sid()] = i
					mu.Unlock()
				}
				if got := sess.Get("owner").MustString(); count > 0 && got != mine || count == 0 && sess.Has("owner") {
					c.Fail("concurrent-owner", "%s round %d sees the owner %q", mine, j, got)
				}
				if got := sess.Get("count").MustInt(); got != count {
					c.Fail("concurrent-count", "%s round %d sees count %d, want %d", mine, j, got, count)
				}
				count++
				sess.Set("owner", mine)
				sess.Set("count", count)
				if err := sess.Flush(); err != nil {
					c.Fail("concurrent-flush", "%s: %v", mine, err)
				}
				c.Eval(1)
			}
		}()
	}
	wg.Wait()
	c.Count("concurrent clients", clients)
	c.Sig("%s concurrent %d", b.Kind, clients)
}

// ids are unique however fast they are made.
func manyIDs(c *h.C) {
	var mu sync.Mutex
	seen := map[string]bool{}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var l []string
			for i := 0; i < 500; i++ {
				l = append(l, sessions.CreateSid())
			}
			mu.Lock()
			defer mu.Unlock()
			for _, s := range l {
				if seen[s] {
					c.Fail("sid-twice", "CreateSid gave %q twice", s)
				}
				seen[s] = true
			}
		}()
	}
	wg.Wait()
	// the tail of an id cannot be told from others: every place of it has many
	// characters, and no two ids have the same one
	tails := map[string]bool{}
	places := make([]map[byte]int, 8)
	for s := range seen {
		if len(s) < len(places) {
			c.Fatal("id-shape", "CreateSid gave %q", s)
		}
		t := s[len(s)-len(places):]
		tails[t] = true
		for i := range places {
			if places[i] == nil {
				places[i] = map[byte]int{}
			}
			places[i][t[i]]++
		}
	}
	if len(tails) < len(seen)-20 {
		c.Fail("id-guess", "%d ids have only %d different ends", len(seen), len(tails))
	}
	for i, m := range places {
		most := 0
		for _, n := range m {
			most = max(most, n)
		}
		if len(m) < 30 || most > len(seen)/10 {
			c.Fail("id-guess", "place %d of the end of %d ids has %d characters, one of them %d times", i, len(seen), len(m), most)
		}
	}
	for i := range places {
		for j := range i {
			same := 0
			for t := range tails {
				if t[i] == t[j] {
					same++
				}
			}
			if same > len(tails)/4 {
				c.Fail("id-guess", "places %d and %d of the end of %d ids are equal %d times", j, i, len(tails), same)
			}
		}
	}
	c.Count("ids made", 4000)
}

// unsaved: the store that is kept in memory only.
func unsaved(c *h.C) {
	model := map[string]any{}
	var given map[string]any
	if c.Chance(50) {
		given = map[string]any{}
		for i, n := 0, c.IntN(4); i < n; i++ {
			k := key(c)
			given[k] = c.IntN(100)
			model[k] = given[k]
		}
	}
	sid := fmt.Sprint("sid", c.IntN(1000))
	st := sessions.NewDummySessionStore(sid, given)
	for i, n := 0, 5+c.IntN(20); i < n; i++ {
		k := key(c)
		what := ""
		switch c.IntN(8) {
		case 0, 1:
			v := c.IntN(1000)
			st.Set(k, v)
			model[k] = v
			what = "set"
		case 2:
			st.Delete(k)
			delete(model, k)
			what = "delete"
		case 3:
			vs := st.Values()
			for x := range vs {
				delete(vs, x)
			}
			vs["added"] = 1
			what = "values"
		case 4:
			if c.Chance(20) {
				st.Clean()
				model = map[string]any{}
				what = "clean"
			}
		case 5:
			if err := st.Flush(); err != nil {
				c.Fatal("unsaved", "Flush: %v", err)
			}
			what = "flush"
		case 6:
			if err := st.Touch(); err != nil {
				c.Fatal("unsaved", "Touch: %v", err)
			}
		case 7:
			if c.Chance(10) {
				if err := st.Destroy(); err != nil {
					c.Fatal("unsaved", "Destroy: %v", err)
				}
				model = map[string]any{}
				what = "destroy"
			}
		}
		c.Note("%s %q", what, k)
		if st.Sid() != sid {
			c.Fatal("unsaved", "Sid is %q, want %q", st.Sid(), sid)
		}
		got := st.Values()
		if len(got) != len(model) {
			c.Fatal("unsaved", "after %s Values are %v, want %v", what, got, model)
		}
		for k, v := range model {
			if n, err := st.Get(k).Int(); got[k] != v || !st.Has(k) || err != nil || n != v {
				c.Fatal("unsaved", "after %s %q is %v (has %v, get %v %v), want %v", what, k, got[k], st.Has(k), n, err, v)
			}
		}
		if _, ok := model[k]; !ok && (st.Has(k) || st.Get(k).String() != "") {
			c.Fatal("unsaved", "after %s %q is still there", what, k)
		}
		c.Count("unsaved steps", 1)
	}
	c.Sig("unsaved %v", model)
}

func main() {
	h.Main(h.Spec{
		ID:   "C34",
		Rule: "a generated history of requests by 1 to 3 clients with cookie jars against 1 or 2 services on one backend (real providers and clients, in-process servers): starts, reads and writes on any open store, saves, regenerations, destructions, forged, replayed and expired cookies, time moved to right before and after the ends of cookies and data, every observation compared with a model; clients in parallel, each following its own session",
		Assumptions: []string{
			"the in-process servers follow the documented protocols (the repository's own session tests pass against them)",
			"time passing is simulated by moving stored deadlines back and re-signing cookies with an earlier time; results within 3 s of an end are not judged",
		},
		Min:         map[string]int64{"start new": 300, "start found": 300, "start missing": 100, "saved": 500, "regenerate moved": 50, "regenerate params": 50, "destroyed": 20, "forged": 200, "concurrent clients": 100},
		MinDistinct: 30,
		Run: func(r *h.R) {
			r.Loop("ids", r.N(5, 50), manyIDs)
			r.Loop("unsaved", r.N(200, 5000), unsaved)
			for _, k := range fake.Kinds {
				b := fake.NewBackend(k)
				r.Loop("history-"+k, r.N(250, 8000), func(c *h.C) { histories(c, b) })
				r.Loop("margin-"+k, r.N(6, 200), func(c *h.C) { margin(c, b) })
				r.Loop("concurrent-"+k, r.N(30, 600), func(c *h.C) { concurrent(c, b) })
			}
		},
	})
}

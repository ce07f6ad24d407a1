package main

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"net/http/cookiejar"
	"net/http/httptest"
	"net/url"
	"strings"
	"time"

	"github.com/bradfitz/gomemcache/memcache"
	"github.com/wujiu2020/strip/sessions"
	"stripverif/h"
)

type service struct {
	key string
	m   *sessions.SessionManager
}

func newService(c *h.C, key string) *service {
	// remember-me never talks to the backend
	p, err := sessions.NewMcProvider(sessions.McConfig{Config: sessions.Config{SecretKey: key, SessionExpire: 3600}, Client: memcache.New("127.0.0.1:1")})
	if err != nil {
		c.Fatal("provider", "%v", err)
	}
	return &service{key, sessions.NewSessionManager(p)}
}

type cookie struct {
	svc       *service
	psk, salt string
	value     string
	hash      string
	age       time.Duration // of the outer and of the inner signature
	innerAge  time.Duration
}

func user(c *h.C) string {
	return c.Pick("alice", "bob", "1", "12", "123", "alice|bob", "a,b", "a b", "a+b", "%7C", "日本", "|", ",", "x@example.com", "\x00", "alice%7Cbob", strings.Repeat("long", 50), " lead", "trail ", "0", "\xff")
}

const bcrypt = "$2a$10$N9qo8uLOickgx2ZMRZoMyeIjZAgcfl7p92ldGxad68LJZdL17lhW"

func salt(c *h.C) string {
	return c.Pick("salt", "Salt", "salt1", "pw|hash", "$2a$10$abcdef", "s,t", "日", " ", "0", "00", bcrypt+"u", bcrypt+"v", strings.Repeat(bcrypt, 3)+"1", strings.Repeat(bcrypt, 3)+"2", "salt ", " salt")
}

func request(name string, values ...string) *http.Request {
	r := httptest.NewRequest("GET", "/", nil)
	for _, v := range values {
		r.AddCookie(&http.Cookie{Name: name, Value: v})
	}
	return r
}

func one(c *h.C) {
	cfg := &sessions.CookieConfig{CookieName: "SESS", CookieRememberName: "REM", CookieSecure: c.Chance(50), CookieDomain: c.Pick("", ".example.com"), CookieExpire: 3600, RememberExpire: []int{60, 3600, 86400 * 30, 86400 * 365}[c.IntN(4)]}
	judged := cfg.RememberExpire
	if c.Chance(8) {
		// practically for ever
		cfg.RememberExpire, judged = []int{9223372037, 10000000000, 1 << 40, 1<<63 - 1}[c.IntN(4)], 100*365*86400
	}
	svcs := []*service{newService(c, "secret"+c.Pick("1", "2", "3", strings.Repeat("key", 30))), newService(c, "Other key"+c.Pick("", "x"))}
	var pool []*cookie
	u, _ := url.Parse("https://www.example.com/path/deep")
	for i, n := 0, 1+c.IntN(5); i < n; i++ {
		k := &cookie{svc: svcs[c.IntN(2)], psk: user(c), salt: salt(c)}
		rec := httptest.NewRecorder()
		ok := k.svc.m.WriteRemember(cfg, rec, k.psk, k.salt)
		cs := rec.Result().Cookies()
		if !ok || len(cs) != 1 {
			c.Fatal("write", "WriteRemember(%q, %q): %v, cookies %v", k.psk, k.salt, ok, cs)
		}
		ck := cs[0]
		if ck.Name != "REM" || !ck.HttpOnly || ck.Secure != cfg.CookieSecure || ck.Path != "/" || ck.MaxAge != cfg.RememberExpire {
			c.Fatal("attributes", "cookie %+v for %+v", ck, cfg)
		}
		k.value = ck.Value
		if strings.Contains(k.value, k.salt) && len(k.salt) > 3 {
			c.Fatal("salt-leak", "the cookie contains the salt")
		}
		psk, hash, ok := k.svc.m.HasRemember(cfg, request("REM", k.value))
		if !ok || psk != k.psk || hash == "" {
			c.Fatal("own", "the cookie of %q is read as %q %q %v", k.psk, psk, hash, ok)
		}
		k.hash = hash
		// remove it again
		jar, _ := cookiejar.New(nil)
		jar.SetCookies(u, cs)
		if judged == cfg.RememberExpire && len(jar.Cookies(u)) != 1 {
			c.Fatal("jar", "the client did not store %+v", ck)
		}
		rec = httptest.NewRecorder()
		k.svc.m.DestroyRemember(cfg, rec)
		jar.SetCookies(u, rec.Result().Cookies())
		if left := jar.Cookies(u); len(left) != 0 {
			c.Fatal("destroy", "after destroying the client still has %v", left)
		}
		c.Count("issued", 1)
		pool = append(pool, k)
		c.Note("issued by %q for %q salt %q: %s", k.svc.key, k.psk, k.salt, k.value)
		c.Sig("%s|%s|%s|%d", k.svc.key, k.psk, k.salt, cfg.RememberExpire)

		// the same cookie at another age, made by signing its parts again
		if c.Chance(60) {
			exp := time.Duration(judged) * time.Second
			ages := []time.Duration{0, exp - 20*time.Second, exp + 2*time.Second, exp * 2, exp / 2}
			if judged != cfg.RememberExpire {
				ages = []time.Duration{0, time.Hour, 30 * 365 * 24 * time.Hour, 365 * 24 * time.Hour, 24 * time.Hour}
			}
			o := *k
			o.age, o.innerAge = ages[c.IntN(5)], ages[c.IntN(5)]
			content, _, ok := sessions.DecodeSecureValue(k.value, k.svc.key)
			inner, ok2 := sessions.EncodeSecureValue(k.psk, k.svc.key+k.salt, time.Now().Add(-o.innerAge))
			old, set := url.QueryEscape(k.hash), url.QueryEscape(inner)
			if !strings.Contains(content, old) {
				old, set = k.hash, inner
			}
			if !ok || !ok2 || strings.Count(content, old) != 1 {
				continue // built in another way
			}
			o.hash = inner
			o.value, _ = sessions.EncodeSecureValue(strings.Replace(content, old, set, 1), k.svc.key, time.Now().Add(-o.age))
			pool = append(pool, &o)
			c.Count("aged", 1)
		}
	}
	expired := func(age time.Duration) bool { return age > time.Duration(judged)*time.Second }

	// what is recognised
	has := func(kind string, svc *service, value string, extra ...string) {
		psk, hash, ok := svc.m.HasRemember(cfg, request("REM", append(extra, value)...))
		c.Eval(1)
		var src *cookie
		for _, k := range pool {
			if k.svc.key == svc.key && k.value == value {
				src = k
			}
		}
		switch {
		case ok && src == nil:
			c.Fatal("forged-"+kind, "recognised %q as %q %q", value, psk, hash)
		case ok && expired(src.age):
			c.Fatal("expired", "recognised a cookie of age %v, lifetime %ds", src.age, cfg.RememberExpire)
		case ok && (psk != src.psk || hash != src.hash):
			c.Fatal("changed", "the cookie of %q %q is read as %q %q", src.psk, src.hash, psk, hash)
		case !ok && src != nil && !expired(src.age):
			c.Fatal("refused", "a valid cookie of %q was refused (%s)", src.psk, kind)
		case !ok && (psk != "" || hash != ""):
			c.Fatal("partial", "refused but returned %q %q", psk, hash)
		case ok:
			c.Count("recognised", 1)
		default:
			c.Count("has_refused", 1)
		}
	}
	valid := func(kind string, svc *service, psk, salt, hash string) {
		ok := svc.m.ValidRemember(cfg, psk, salt, hash)
		c.Eval(1)
		want := false
		for _, k := range pool {
			if k.svc.key == svc.key && k.psk == psk && k.salt == salt && k.hash == hash && !expired(k.innerAge) {
				want = true
			}
		}
		if ok != want {
			c.Fatal("valid-"+kind, "ValidRemember(%q, %q, %q) on %q is %v, want %v", psk, salt, hash, svc.key, ok, want)
		}
		if ok {
			c.Count("validated", 1)
		} else {
			c.Count("valid_refused", 1)
		}
	}
	for _, k := range pool {
		for _, s := range svcs {
			has("own", s, k.value)
			for _, o := range pool {
				valid("pair", s, o.psk, k.salt, k.hash)
				valid("pair", s, k.psk, o.salt, k.hash)
				valid("pair", s, k.psk, k.salt, o.hash)
			}
		}
		valid("empty", k.svc, "", k.salt, k.hash)
		valid("empty", k.svc, k.psk, "", k.hash)
		valid("empty", k.svc, k.psk, k.salt, "")
		valid("whole", k.svc, k.psk, k.salt, k.value)
		valid("altered", k.svc, k.psk, k.salt+"x", k.hash)
		// signed with the service's key alone
		plain, _ := sessions.EncodeSecureValue(k.psk, k.svc.key, time.Now())
		valid("saltless", k.svc, k.psk, "", plain)
		valid("saltless", k.svc, k.psk, k.salt, plain)
		valid("altered", k.svc, k.psk+"1", k.salt, k.hash)
		valid("altered", k.svc, strings.ToUpper(k.psk), k.salt, k.hash)
		valid("altered", k.svc, k.psk, k.salt, mutate(c, k.hash))
		// the last of equally named cookies counts
		has("last", k.svc, k.value, pool[0].value, "garbage")
		has("altered", k.svc, mutate(c, k.value))
		has("hash", k.svc, k.hash)
		// parts of different cookies, signed as somebody without key can
		o := pool[c.IntN(len(pool))]
		has("splice", k.svc, splice(k.value, o.value))
	}
	// other things this service signs
	svc := svcs[c.IntN(2)]
	r := httptest.NewRequest("GET", "/", nil)
	rec := httptest.NewRecorder()
	svc.m.WriteSessionCookie(cfg, r, rec, sessions.CreateSid(), time.Now())
	has("session", svc, rec.Result().Cookies()[0].Value)
	for _, content := range []string{"alice", "alice|", "|", "|x", "alice|%zz", "%zz|x", "a|b|c"} {
		v, _ := sessions.EncodeSecureValue(content, svc.key, time.Now())
		if !strings.Contains(content, "|") || strings.Contains(content, "%zz") {
			has("signed", svc, v)
		} else if psk, hash, ok := svc.m.HasRemember(cfg, request("REM", v)); ok && svc.m.ValidRemember(cfg, psk, salt(c), hash) {
			c.Fatal("signed", "%q was validated", content)
		}
	}
	for _, v := range []string{"", "garbage", base64.URLEncoding.EncodeToString([]byte("alice|x,1,2")), strings.Repeat("A", 5000)} {
		has("garbage", svc, v)
	}
	if _, _, ok := svc.m.HasRemember(cfg, request("OTHER", pool[0].value)); ok {
		c.Fatal("name", "recognised under another name")
	}
	if _, _, ok := svc.m.HasRemember(cfg, httptest.NewRequest("GET", "/", nil)); ok {
		c.Fatal("none", "recognised without cookie")
	}
	for _, p := range [][2]string{{"", "salt"}, {"user", ""}, {"", ""}} {
		rec := httptest.NewRecorder()
		if svc.m.WriteRemember(cfg, rec, p[0], p[1]) || len(rec.Result().Cookies()) > 0 {
			c.Fatal("write-empty", "issued for %q", p)
		}
	}
}

func mutate(c *h.C, v string) string {
	b := []byte(v)
	const ab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_="
	switch c.IntN(4) {
	case 0:
		return v[:len(v)-1-c.IntN(8)]
	case 1:
		return v + ab[c.IntN(65):][:1]
	}
	i := c.IntN(len(b))
	for {
		x := ab[c.IntN(65)]
		if x != b[i] {
			b[i] = x
			return string(b)
		}
	}
}

func splice(a, b string) string {
	x, _ := base64.URLEncoding.DecodeString(a)
	y, _ := base64.URLEncoding.DecodeString(b)
	p, q := strings.SplitN(string(x), ",", 3), strings.SplitN(string(y), ",", 3)
	if len(p) != 3 || len(q) != 3 {
		return "x"
	}
	i, j := strings.SplitN(p[0], "%7C", 2), strings.SplitN(q[0], "%7C", 2)
	if len(i) == 2 && len(j) == 2 {
		p[0] = i[0] + "%7C" + j[1]
	}
	return base64.URLEncoding.EncodeToString([]byte(strings.Join(p, ",")))
}

// lived: real time passes.
func lived(c *h.C) {
	svc := newService(c, "real time")
	cfg := &sessions.CookieConfig{CookieRememberName: "REM", RememberExpire: 1}
	rec := httptest.NewRecorder()
	start := time.Now()
	svc.m.WriteRemember(cfg, rec, "u", "s")
	issuedBy := time.Now()
	v := rec.Result().Cookies()[0].Value
	var hash string
	for {
		before := time.Now()
		_, hs, ok := svc.m.HasRemember(cfg, request("REM", v))
		after := time.Now()
		if hs != "" {
			hash = hs
		}
		vok := svc.m.ValidRemember(cfg, "u", "s", hash)
		if !ok && after.Sub(start) < time.Second {
			c.Fatal("early", "expired after %v", after.Sub(start))
		}
		if ok && before.Sub(issuedBy) > time.Second+10*time.Millisecond {
			c.Fatal("late", "recognised after %v", before.Sub(issuedBy))
		}
		if !ok && vok && before.Sub(issuedBy) > time.Second+10*time.Millisecond {
			c.Fatal("late", "validated after %v", before.Sub(issuedBy))
		}
		if !ok {
			break
		}
		c.Beat()
		time.Sleep(20 * time.Millisecond)
	}
	c.Count("lived", 1)
	c.Sig("lived %d", c.Index)
}

func main() {
	h.Main(h.Spec{
		ID:          "C33",
		Rule:        "two services with different keys issue one to five cookies for users and salts with separators, escapes and binary; every cookie on every service, every combination of user, salt and proof, re-signed ages around the lifetime of the outer and inner signature, altered, spliced, session and foreign signed values; results compared with the set of issued cookies. A cookie jar shows that destroying removes it; one cookie is watched until it expires. Distinct by key, user, salt and lifetime.",
		Assumptions: []string{"the keys of two services are not prefixes of each other"},
		Run: func(r *h.R) {
			r.Par("one", r.N(375, 15000), one)
			r.Loop("one", r.N(1500, 60000), one)
			r.Loop("lived", r.N(1, 10), lived)
		},
		Min:         map[string]int64{"issued": 3000, "recognised": 4000, "has_refused": 10000, "validated": 5000, "valid_refused": 20000, "lived": 1},
		MinDistinct: 1000,
	})
	_ = fmt.Sprint
}

package fake

import (
	"fmt"
	"time"

	"github.com/bradfitz/gomemcache/memcache"
	"github.com/globalsign/mgo"
	"github.com/mediocregopher/radix.v2/pool"
	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/sessions"
)

// Backend is one fake server with its real client.
type Backend struct {
	Kind string // memcached redis mongo
	mc   *Memcached
	rd   *Redis
	mg   *Mongo
	mcC  *memcache.Client
	rdC  *pool.Pool
	mgC  *mgo.Session
	n    int
	// DB is the database of mongo in use; Fresh changes it.
	DB string
}

// Kinds lists the backends.
var Kinds = []string{"memcached", "redis", "mongo"}

// NewBackend starts a server and its client.
func NewBackend(kind string) *Backend {
	b := &Backend{Kind: kind}
	var err error
	switch kind {
	case "memcached":
		b.mc = NewMemcached()
		b.mcC = memcache.New(b.mc.Addr())
		b.mcC.Timeout = 20 * time.Second
		b.mcC.MaxIdleConns = 64
	case "redis":
		b.rd = NewRedis()
		b.rdC, err = pool.New("tcp", b.rd.Addr(), 4)
	case "mongo":
		b.mg = NewMongo()
		b.mgC, err = mgo.DialWithTimeout("mongodb://"+b.mg.Addr()+"/?connect=direct", 20*time.Second)
	}
	if err != nil {
		panic(err)
	}
	b.Fresh()
	return b
}

// Fresh empties the backend and removes hooks.
func (b *Backend) Fresh() {
	b.SetHook(nil)
	b.SetDelay(nil)
	b.n++
	b.DB = fmt.Sprintf("db%d", b.n)
	switch b.Kind {
	case "memcached":
		b.mc.Reset()
	case "redis":
		b.rd.Reset()
	default:
		b.mg.mu.Lock()
		b.mg.colls = map[string]*mColl{}
		b.mg.mu.Unlock()
	}
}

func (b *Backend) server() *server {
	switch b.Kind {
	case "memcached":
		return &b.mc.server
	case "redis":
		return &b.rd.server
	}
	return &b.mg.server
}

func (b *Backend) SetHook(f func(Op) Fault) { b.server().SetHook(f) }
func (b *Backend) SetDelay(f func())        { b.server().SetDelay(f) }
func (b *Backend) Open() int                { return b.server().Open() }

// Others tells how often other databases of the server were emptied.
func (b *Backend) Others() int {
	if b.Kind == "redis" {
		return b.rd.Others()
	}
	return 0
}

func (b *Backend) Bad() []string         { return b.server().Bad() }
func (b *Backend) Ops() map[string]int64 { return b.server().Ops() }

// Advance lets time pass; sweep also runs mongo's TTL monitor.
func (b *Backend) Advance(d time.Duration, sweep bool) {
	switch b.Kind {
	case "memcached":
		b.mc.Advance(d)
	case "redis":
		b.rd.Advance(d)
	default:
		b.mg.Advance(d, sweep)
	}
}

// Connect runs f with a collection on its own copy of the mongo session.
func (b *Backend) Connect(coll string) func(func(*mgo.Collection) error) error {
	db := b.DB
	return func(f func(*mgo.Collection) error) error {
		s := b.mgC.Copy()
		defer s.Close()
		return f(s.DB(db).C(coll))
	}
}

// Docs counts the stored documents of a mongo collection.
func (b *Backend) Docs(coll string) int { return b.mg.Docs(b.DB + "." + coll) }

// MgoOpts are options of a mongo cache.
type MgoOpts struct {
	AutoExpire      bool
	Key, Value, Exp string
}

// Cache makes a provider of the real code; prefix is the collection of mongo.
func (b *Backend) Cache(prefix string, o MgoOpts) (caches.CacheProvider, error) {
	switch b.Kind {
	case "memcached":
		return caches.NewMcProvider(caches.McConfig{KeyPrefix: prefix, Client: b.mcC})
	case "redis":
		return caches.NewRedisProvider(caches.RedisConfig{KeyPrefix: prefix, Client: b.rdC})
	}
	return caches.NewMgoProvider(caches.MgoConfig{AutoExpire: o.AutoExpire, KeyField: o.Key, ValueField: o.Value, ExpiredAtField: o.Exp, Connect: b.Connect(prefix)})
}

// Sessions makes a session provider of the real code.
func (b *Backend) Sessions(cfg sessions.Config, prefix string, autoExpire bool) (sessions.SessionProvider, error) {
	switch b.Kind {
	case "memcached":
		return sessions.NewMcProvider(sessions.McConfig{Config: cfg, KeyPrefix: prefix, Client: b.mcC})
	case "redis":
		return sessions.NewRedisProvider(sessions.RedisConfig{Config: cfg, KeyPrefix: prefix, Client: b.rdC})
	}
	return sessions.NewMgoProvider(sessions.MgoConfig{Config: cfg, AutoExpire: autoExpire, Connect: b.Connect(prefix)})
}

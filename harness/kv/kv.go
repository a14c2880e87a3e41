// Package kv gives the cache providers over in-memory servers (see /verif/stubs).
package kv

import (
	"time"

	"github.com/bradfitz/gomemcache/memcache"
	"github.com/globalsign/mgo"
	"github.com/mediocregopher/radix.v2/pool"
	"github.com/mediocregopher/radix.v2/redis"

	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

const (
	Memcache = iota
	Redis
	Mgo
)

type Backend struct {
	Kind int
	caches.CacheProvider
	Mc     *memcache.Server
	Rd     *redis.Server
	Mg     *mgo.Server
	Prefix string
	Key    string // mgo's key field

	McClient *memcache.Client
	RdPool   *pool.Pool
	Connect  func(func(c *mgo.Collection) error) error

	Commands int
	FailAt   int // which command fails (1 for the next), 0 for none
	After    bool
	Failed   bool // a command has failed
	Strayed  bool // a command named a key outside the prefix
}

func (b *Backend) fail(op, key string) int {
	b.Commands++
	if b.FailAt > 0 {
		b.FailAt--
		if b.FailAt == 0 {
			b.Failed = true
			if b.After {
				return 2
			}
			return 1
		}
	}
	return 0
}

func (b *Backend) touched(op, key string) {
	switch op {
	case "flush_all", "FLUSHDB", "FLUSHALL", "PING":
		return
	}
	n := len(b.Prefix)
	if len(key) < n || key[:n] != b.Prefix {
		b.Strayed = true
	}
}

// New makes the provider of a kind over a new, empty server.
func New(kind int, prefix string) *Backend {
	b := &Backend{Kind: kind, Prefix: prefix}
	var err error
	switch kind {
	case Memcache:
		c := memcache.New("localhost:11211")
		b.Mc, b.McClient = c.Server, c
		b.Mc.Fail, b.Mc.Touched = b.fail, b.touched
		b.CacheProvider, err = caches.NewMcProvider(caches.McConfig{KeyPrefix: prefix, Client: c})
	case Redis:
		p, _ := pool.New("tcp", "localhost:6379", 10)
		b.Rd, b.RdPool = p.Server, p
		b.Rd.Fail, b.Rd.Touched = b.fail, b.touched
		b.CacheProvider, err = caches.NewRedisProvider(caches.RedisConfig{KeyPrefix: prefix, Client: p})
	case Mgo:
		b.Mg = &mgo.Server{}
		b.Key = "_id"
		if prefix == "key" { // the key in a field of its own
			b.Key = "key"
		}
		b.Mg.Fail = func(op string) int { return b.fail(op, "") }
		c := mgo.NewCollection(b.Mg)
		b.Connect = func(f func(c *mgo.Collection) error) error { return f(c) }
		b.CacheProvider, err = caches.NewMgoProvider(caches.MgoConfig{
			AutoExpire: false, KeyField: b.Key, ValueField: "value", ExpiredAtField: "expiredAt",
			Connect: b.Connect,
		})
		b.Prefix = ""
	}
	if err != nil {
		sym.Fail("provider")
	}
	b.Commands = 0
	return b
}

// Entry is a live entry as the server has it, under its key without the prefix.
type Entry struct {
	Key, Value string
	Never      bool
	Left       int64 // seconds
}

// Raw finds the entry with this complete key.
func (b *Backend) Raw(key string) (e Entry, ok bool) {
	switch b.Kind {
	case Memcache:
		if x := b.Mc.Find(key); x != nil {
			return Entry{x.Key, x.Value, !x.Expires, x.Deadline - b.Mc.Now()}, true
		}
	case Redis:
		if x := b.Rd.Find(key); x != nil {
			return Entry{x.Key, x.Value, !x.Expires, x.Deadline - b.Rd.Now()}, true
		}
	case Mgo:
		for _, d := range b.Mg.Docs {
			if k, _ := d[b.Key].(string); k != key {
				continue
			}
			at, _ := d["expiredAt"].(time.Time)
			now := time.Now()
			if !now.Before(at) {
				return
			}
			const ever = 24 * 365 * 25 * time.Hour
			left := at.Sub(now)
			s := int64(left / time.Second)
			if left%time.Second != 0 {
				s++
			}
			return Entry{key, utils.ToStr(d["value"]), left > ever, s}, true
		}
	}
	return
}

// Find finds the entry of a key of the provider's.
func (b *Backend) Find(key string) (Entry, bool) { return b.Raw(b.Prefix + key) }

// Put puts an entry under a complete key, to live for so many seconds.
func (b *Backend) Put(key, value string, left int64) {
	switch b.Kind {
	case Memcache:
		b.Mc.Entries = append(b.Mc.Entries, &memcache.Entry{Key: key, Value: value, Expires: true, Deadline: b.Mc.Now() + left})
	case Redis:
		b.Rd.Entries = append(b.Rd.Entries, &redis.Entry{Key: key, Value: value, Expires: true, Deadline: b.Rd.Now() + left})
	case Mgo:
		d := mgo.Doc{b.Key: key, "value": value, "expiredAt": time.Now().Add(time.Duration(left) * time.Second)}
		if b.Key != "_id" {
			d["_id"] = "oid-" + key
		}
		b.Mg.Docs = append(b.Mg.Docs, d)
	}
}

// Advance lets so many seconds go by on the server.
func (b *Backend) Advance(s int64) {
	switch b.Kind {
	case Memcache:
		for _, e := range b.Mc.Entries {
			e.Deadline -= s
		}
	case Redis:
		for _, e := range b.Rd.Entries {
			e.Deadline -= s
		}
	case Mgo:
		for _, d := range b.Mg.Docs {
			if at, ok := d["expiredAt"].(time.Time); ok {
				d["expiredAt"] = at.Add(-time.Duration(s) * time.Second)
			}
		}
	}
}

// Count is the number of entries the server holds, dead ones too.
func (b *Backend) Count() int {
	switch b.Kind {
	case Memcache:
		return len(b.Mc.Entries)
	case Redis:
		return len(b.Rd.Entries)
	}
	return len(b.Mg.Docs)
}

// Leaked reports a connection that was taken and not given back.
func (b *Backend) Leaked() bool { return b.Kind == Redis && b.Rd.Out != 0 }

// Settle waits, in a native run, until the clock is not about to reach the next second.
func Settle() {
	if !sym.Symbolic() {
		if ns := time.Now().Nanosecond(); ns > 800e6 {
			time.Sleep(time.Duration(1e9+1e6-ns) * time.Nanosecond)
		}
	}
}

// Package memcache stands in for github.com/bradfitz/gomemcache/memcache: the same API over an
// in-memory server that follows the memcached protocol's meaning, records every command and fails
// when told to.
package memcache

import (
	"errors"
	"strconv"
	"strings"
	"time"
)

var (
	ErrCacheMiss    = errors.New("memcache: cache miss")
	ErrCASConflict  = errors.New("memcache: compare-and-swap conflict")
	ErrNotStored    = errors.New("memcache: item not stored")
	ErrServerError  = errors.New("memcache: server error")
	ErrNoStats      = errors.New("memcache: no statistics available")
	ErrMalformedKey = errors.New("malformed: key is too long or contains invalid characters")
	ErrNoServers    = errors.New("memcache: no servers configured or available")
)

const (
	DefaultTimeout      = 100 * time.Millisecond
	DefaultMaxIdleConns = 2
)

type Item struct {
	Key        string
	Value      []byte
	Flags      uint32
	Expiration int32
	casid      uint64
}

// Entry is an item as the server keeps it.
type Entry struct {
	Key      string
	Value    string
	Flags    uint32
	Expires  bool
	Deadline int64 // seconds on the server's clock
	cas      uint64
}

// Server is the fake server.
type Server struct {
	Entries []*Entry
	Fail    func(op, key string) int // 0: go on, 1: fail before, 2: fail after
	Touched func(op, key string)     // told of every command
	cas     uint64
}

var ErrDown = errors.New("memcache: connection refused")

type Client struct {
	Timeout      time.Duration
	MaxIdleConns int
	Server       *Server
}

func New(server ...string) *Client { return &Client{Server: &Server{}} }

// Now is the server's clock.
func (s *Server) Now() int64 { return time.Now().Unix() }

const month = 60 * 60 * 24 * 30

// deadline reads an exptime as memcached does.
func (s *Server) deadline(exp int32) (bool, int64) {
	switch {
	case exp == 0:
		return false, 0
	case exp < 0:
		return true, s.Now()
	case exp <= month:
		return true, s.Now() + int64(exp)
	}
	return true, int64(exp)
}

// Find returns a live entry.
func (s *Server) Find(key string) *Entry {
	for _, e := range s.Entries {
		if e.Key == key {
			if e.Expires && e.Deadline <= s.Now() {
				return nil
			}
			return e
		}
	}
	return nil
}

func (s *Server) drop(key string) {
	for i, e := range s.Entries {
		if e.Key == key {
			s.Entries = append(append([]*Entry{}, s.Entries[:i]...), s.Entries[i+1:]...)
			return
		}
	}
}

func legalKey(key string) bool {
	if len(key) > 250 {
		return false
	}
	for i := 0; i < len(key); i++ {
		if key[i] <= ' ' || key[i] == 0x7f {
			return false
		}
	}
	return true
}

// do runs a command on the server.
func (c *Client) do(op, key string, f func(s *Server) error) error {
	if op != "flush_all" && !legalKey(key) {
		return ErrMalformedKey
	}
	s := c.Server
	if s == nil {
		return ErrNoServers
	}
	if s.Touched != nil {
		s.Touched(op, key)
	}
	fail := 0
	if s.Fail != nil {
		fail = s.Fail(op, key)
	}
	if fail == 1 {
		return ErrDown
	}
	err := f(s)
	if fail == 2 {
		return ErrDown
	}
	return err
}

func (c *Client) FlushAll() error {
	return c.do("flush_all", "", func(s *Server) error { s.Entries = nil; return nil })
}

func (c *Client) Get(key string) (item *Item, err error) {
	err = c.do("get", key, func(s *Server) error {
		e := s.Find(key)
		if e == nil {
			return ErrCacheMiss
		}
		item = &Item{Key: e.Key, Value: []byte(e.Value), Flags: e.Flags, casid: e.cas}
		return nil
	})
	if err != nil {
		item = nil
	}
	return
}

func (c *Client) GetMulti(keys []string) (map[string]*Item, error) {
	r := map[string]*Item{}
	for _, k := range keys {
		it, err := c.Get(k)
		if err == ErrCacheMiss {
			continue
		}
		if err != nil {
			return nil, err
		}
		r[k] = it
	}
	return r, nil
}

func (c *Client) Touch(key string, seconds int32) error {
	return c.do("touch", key, func(s *Server) error {
		e := s.Find(key)
		if e == nil {
			return ErrCacheMiss
		}
		e.Expires, e.Deadline = s.deadline(seconds)
		return nil
	})
}

func (s *Server) store(item *Item) {
	s.drop(item.Key)
	e := &Entry{Key: item.Key, Value: string(item.Value), Flags: item.Flags}
	e.Expires, e.Deadline = s.deadline(item.Expiration)
	s.cas++
	e.cas = s.cas
	s.Entries = append(s.Entries, e)
}

func (c *Client) Set(item *Item) error {
	return c.do("set", item.Key, func(s *Server) error { s.store(item); return nil })
}

func (c *Client) Add(item *Item) error {
	return c.do("add", item.Key, func(s *Server) error {
		if s.Find(item.Key) != nil {
			return ErrNotStored
		}
		s.store(item)
		return nil
	})
}

func (c *Client) Replace(item *Item) error {
	return c.do("replace", item.Key, func(s *Server) error {
		if s.Find(item.Key) == nil {
			return ErrNotStored
		}
		s.store(item)
		return nil
	})
}

func (c *Client) CompareAndSwap(item *Item) error {
	return c.do("cas", item.Key, func(s *Server) error {
		e := s.Find(item.Key)
		if e == nil {
			return ErrCacheMiss
		}
		if e.cas != item.casid {
			return ErrCASConflict
		}
		s.store(item)
		return nil
	})
}

func (c *Client) Delete(key string) error {
	return c.do("delete", key, func(s *Server) error {
		if s.Find(key) == nil {
			return ErrCacheMiss
		}
		s.drop(key)
		return nil
	})
}

func (c *Client) DeleteAll() error { return c.FlushAll() }

func (c *Client) Ping() error { return c.do("version", "k", func(s *Server) error { return nil }) }

func (c *Client) Increment(key string, delta uint64) (uint64, error) {
	return c.incrDecr("incr", key, func(v uint64) uint64 { return v + delta })
}

func (c *Client) Decrement(key string, delta uint64) (uint64, error) {
	return c.incrDecr("decr", key, func(v uint64) uint64 {
		if v < delta {
			return 0
		}
		return v - delta
	})
}

func (c *Client) incrDecr(op, key string, f func(uint64) uint64) (n uint64, err error) {
	err = c.do(op, key, func(s *Server) error {
		e := s.Find(key)
		if e == nil {
			return ErrCacheMiss
		}
		v, err := strconv.ParseUint(strings.TrimRight(e.Value, " "), 10, 64)
		if err != nil {
			return errors.New("memcache: client error: cannot increment or decrement non-numeric value")
		}
		n = f(v)
		text := strconv.FormatUint(n, 10)
		for len(text) < len(e.Value) { // memcached rewrites a shorter number in place, padding it
			text += " "
		}
		e.Value = text
		return nil
	})
	if err != nil {
		n = 0
	}
	return
}

package h

import (
	"reflect"
	"strconv"

	"github.com/wujiu2020/strip/sessions"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/kv"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:stubs gomemcache radix.v2 mgo
//sym:bounds sessions on all three backends and the dummy store, new, new with values, or stored before; every sequence of up to 4 (thorough 5) operations of set (any int or one-byte text), delete, clean, flush, destroy on two keys; any one backend command failing before or after it took effect; a session touched, stored or not, after any of the times next to its expiry, with a command failing; values that are lists, maps, bytes and nil, set again unchanged or changed in place, and one that cannot be stored; values of up to 16385 (thorough 65537) bytes and up to 129 (513) keys, of the sizes next to powers of two and round numbers
//sym:assume the backend follows its documented protocol and BSON gives back what was stored (in-memory models in /verif/stubs)

func provider(kind int) (*kv.Backend, sessions.SessionProvider) { return providerOf(kind, 3600) }

func providerOf(kind, expire int) (*kv.Backend, sessions.SessionProvider) {
	b := kv.New(kind, "p")
	c := sessions.Config{SecretKey: "secret", SessionExpire: expire}
	var p sessions.SessionProvider
	var err error
	switch kind {
	case kv.Memcache:
		p, err = sessions.NewMcProvider(sessions.McConfig{Config: c, KeyPrefix: "p", Client: b.McClient})
	case kv.Redis:
		p, err = sessions.NewRedisProvider(sessions.RedisConfig{Config: c, KeyPrefix: "p", Client: b.RdPool})
	case kv.Mgo:
		p, err = sessions.NewMgoProvider(sessions.MgoConfig{Config: c, Connect: b.Connect})
	}
	sym.Assert(err == nil, "provider")
	b.Commands = 0
	return b, p
}

// content is what a session should hold under its two keys.
type content [2]interface{}

var keys = [2]string{"a", "b"}

func holds(s sessions.SessionStore, c content, label string) {
	vs := s.Values()
	n := 0
	for i, k := range keys {
		sym.Assert(s.Has(k) == (c[i] != nil), label+"-has")
		v, in := vs[k]
		sym.Assert(in == (c[i] != nil), label+"-values-has")
		if c[i] == nil {
			sym.Assert(s.Get(k).Value() == nil, label+"-get-none")
			continue
		}
		n++
		sym.Assert(s.Get(k).Value() == c[i], label+"-get")
		sym.Assert(v == c[i], label+"-values")
	}
	sym.Assert(len(vs) == n, label+"-nothing-else")
	vs["a"], vs["x"] = "mine", 1 // what is given is a copy
	sym.Assert(!s.Has("x"), label+"-copy")
	if c[0] != nil {
		sym.Assert(s.Get("a").Value() == c[0], label+"-copy-value")
	}
}

func value(l string) interface{} {
	if sym.Choose(l+"-text", 2) == 1 {
		return sym.String(l+"-value", 1)
	}
	return int(sym.Int32(l + "-value"))
}

func stored(p sessions.SessionProvider, sid string, saved *content, label string) {
	s, err := p.Read(sid)
	if saved == nil {
		sym.Assert(err == sessions.ErrNotFoundSession && s == nil, label+"-not-stored")
		return
	}
	sym.Assert(err == nil, label+"-stored")
	sym.Assert(s.Sid() == sid, label+"-sid")
	holds(s, *saved, label)
}

func store(kind int) {
	b, p := provider(kind)
	var (
		cur   content
		saved *content // what the backend has
		dirty bool
		// the backend failed to save or delete: it has what it had, or what it was given
		unsure bool
		s      sessions.SessionStore
		err    error
	)
	switch sym.Choose("session", 3) {
	case 0:
		s, err = p.Create("sid")
	case 1:
		cur[0] = 1
		s, err = p.Create("sid", map[string]interface{}{"a": 1})
		dirty = true
	case 2: // from before
		cur[1] = "x"
		s, err = p.Create("sid")
		sym.Assert(err == nil, "created")
		s.Set("b", "x")
		sym.Assert(s.Flush() == nil, "flushed-before")
		c := cur
		saved = &c
		s, err = p.Read("sid")
	}
	sym.Assert(err == nil && s.Sid() == "sid", "opened")
	b.FailAt = sym.Choose("fails", 3)
	b.After = sym.Choose("after", 2) == 1
	n := sym.Bound(4, 5)
	for i := 0; i < n; i++ {
		l := string('0' + rune(i))
		switch sym.Choose("op", 6) {
		case 0: // nothing more
			i = n
		case 1:
			k := sym.Choose("key", 2)
			cur[k] = value(l)
			s.Set(keys[k], cur[k])
			dirty = true
		case 2:
			k := sym.Choose("key", 2)
			cur[k] = nil
			s.Delete(keys[k])
			dirty = true
		case 3:
			cur = content{}
			s.Clean()
			dirty = true
		case 4:
			failed := b.Failed
			was := b.Commands
			err := s.Flush()
			failed = b.Failed && !failed
			sym.Assert((err != nil) == failed, "flush-error")
			if !dirty {
				sym.Assert(b.Commands == was, "flush-nothing")
			} else if !failed {
				sym.Cover("flushed")
				c := cur
				saved, dirty, unsure = &c, false, false
			} else {
				sym.Cover("flush-failed")
				unsure = true // it may have been stored all the same
			}
		case 5:
			failed := b.Failed
			err := s.Destroy()
			failed = b.Failed && !failed
			if failed {
				sym.Assert(err != nil, "destroy-error")
			}
			saved = nil
			unsure = failed
			holds(s, content{}, "destroyed")
			s.Set("a", 1)
			sym.Assert(s.Flush() == nil, "flush-destroyed")
			b.FailAt = 0
			if !unsure {
				stored(p, "sid", saved, "destroyed-store")
			}
			return
		}
		holds(s, cur, "session")
	}
	b.FailAt = 0
	if !unsure {
		stored(p, "sid", saved, "store")
	}
	// nothing is lost in the end
	sym.Assert(s.Flush() == nil, "last-flush")
	if dirty {
		saved = &cur
	}
	stored(p, "sid", saved, "end")
}

func H_memcache() { store(kv.Memcache) }
func H_redis()    { store(kv.Redis) }
func H_mgo()      { store(kv.Mgo) }

// The store that keeps nothing.
func H_dummy() {
	var cur content
	var s sessions.SessionStore
	switch sym.Choose("session", 2) {
	case 0:
		s = sessions.NewDummySessionStore("sid", nil)
	case 1:
		cur[0] = 1
		s = sessions.NewDummySessionStore("sid", map[string]interface{}{"a": 1})
	}
	sym.Assert(s.Sid() == "sid", "sid")
	for i := 0; i < 4; i++ {
		switch sym.Choose("op", 5) {
		case 0:
			k := sym.Choose("key", 2)
			cur[k] = value(string('0' + rune(i)))
			s.Set(keys[k], cur[k])
		case 1:
			k := sym.Choose("key", 2)
			cur[k] = nil
			s.Delete(keys[k])
		case 2:
			cur = content{}
			s.Clean()
		case 3:
			sym.Assert(s.Flush() == nil && s.Touch() == nil, "flush")
		case 4:
			cur = content{}
			sym.Assert(s.Destroy() == nil, "destroy")
		}
		holds(s, cur, "session")
	}
}

// A session that is touched lives for the whole time again, with the content it was stored with.
//
//sym:covers renewed gone failed unstored
func H_touch() {
	expire := []int{1, 3, 3600, 86400 * 31}[sym.Choose("expire", 4)]
	b, p := providerOf(sym.Choose("kind", 3), expire)
	kv.Settle()
	other, err := p.Create("other", map[string]interface{}{"a": 9})
	sym.Assert(err == nil && other.Flush() == nil, "other")
	s, err := p.Create("sid", map[string]interface{}{"a": "x"})
	sym.Assert(err == nil, "created")
	stored := sym.Choose("stored", 2) == 1
	if stored {
		sym.Assert(s.Flush() == nil, "flushed")
		if sym.Choose("changed", 2) == 1 {
			s.Set("b", 1) // and not stored
		}
		if sym.Choose("again", 2) == 1 {
			s, err = p.Read("sid")
			sym.Assert(err == nil, "read")
		}
	}
	later := int64(sym.IntRange("later", 0, 3))
	if sym.Choose("much", 2) == 1 {
		later = int64(expire) - 1 + int64(sym.IntRange("over", 0, 1))
	}
	b.Advance(later)
	b.FailAt = sym.Choose("fails", 2)
	b.After = sym.Choose("after", 2) == 1
	live := stored && later < int64(expire)
	err = s.Touch()
	failed := b.Failed
	b.FailAt = 0
	e, in := b.Find("sid")
	sym.Assert(in == live, "touch-stores-nothing")
	switch {
	case failed:
		sym.Cover("failed")
		sym.Assert(err != nil, "touch-error")
	case live:
		sym.Cover("renewed")
		sym.Assert(err == nil, "touched")
		sym.Assert(!e.Never && e.Left == int64(expire), "whole-time-again")
	default:
		if stored {
			sym.Cover("gone")
		} else {
			sym.Cover("unstored")
		}
		sym.Assert(err != nil, "touched-nothing")
	}
	if live {
		n, err := p.Read("sid")
		sym.Assert(err == nil, "readable")
		holds(n, content{"x", nil}, "as-stored")
	}
	// another session is not renewed with it
	if e, in := b.Find("other"); in {
		sym.Assert(e.Left == int64(expire)-later, "other-untouched")
	} else {
		sym.Assert(later >= int64(expire), "other-untouched")
	}
}

// Large sessions: long texts and many keys.
//
//sym:covers long many
func H_large() {
	b, p := provider(sym.Choose("kind", 3))
	s, err := p.Create("sid")
	sym.Assert(err == nil, "created")
	want := map[string]interface{}{}
	set := func(k string, v interface{}) { want[k] = v; s.Set(k, v) }
	if sym.Choose("what", 2) == 0 {
		sym.Cover("long")
		set("k", hx.Long("value", sym.Bound(16385, 65537), "\x00\n\xff"))
	} else {
		sym.Cover("many")
		for i, n := 0, hx.Size("keys", 4, sym.Bound(129, 513)); i < n; i++ {
			set("k"+strconv.Itoa(i), i)
			if i%5 == 4 {
				delete(want, "k"+strconv.Itoa(i-2))
				s.Delete("k" + strconv.Itoa(i-2))
			}
		}
	}
	sym.Assert(s.Flush() == nil, "flush-error")
	r, err := p.Read("sid")
	sym.Assert(err == nil, "stored")
	for _, x := range []sessions.SessionStore{s, r} {
		vs := x.Values()
		sym.Assert(len(vs) == len(want), "nothing-else")
		for k, v := range want {
			sym.Assert(x.Has(k) && vs[k] == v && x.Get(k).Value() == v, "content")
		}
	}
	sym.Assert(!b.Leaked(), "connection-given-back")
}

// Values of other kinds, which do not compare with ==, and ones that change in place before they are set
// again: what was set last is stored, and a value that cannot be stored is an error of that flush alone.
//
//sym:covers again changed-in-place unstorable
func H_kinds() {
	b, p := provider(sym.Choose("kind", 3))
	s, err := p.Create("sid")
	sym.Assert(err == nil, "created")
	x := sym.String("text", 1)
	m := map[string]interface{}{"k": x}
	l := []interface{}{x, 1}
	values := []interface{}{m, l, []byte("b" + x), nil, x}
	v := values[sym.Choose("value", len(values))]
	s.Set("a", v)
	if sym.Choose("flushed", 2) == 1 {
		sym.Assert(s.Flush() == nil, "flush-error")
		if sym.Choose("read", 2) == 1 {
			s, err = p.Read("sid")
			sym.Assert(err == nil, "read")
		}
	}
	switch sym.Choose("then", 5) {
	case 0: // the same value again
		sym.Cover("again")
		s.Set("a", v)
	case 1:
		sym.Cover("changed-in-place")
		m["k"], l[1] = 2, "y"
		s.Set("a", v)
	case 2:
		v = values[sym.Choose("second", len(values))]
		s.Set("a", v)
	case 3:
		sym.Cover("unstorable")
		was := b.Commands
		s.Set("c", func() {})
		sym.Assert(s.Flush() != nil && b.Commands == was, "unstorable-error")
		sym.Assert(s.Flush() != nil, "unstorable-error-again")
		s.Delete("c")
	}
	sym.Assert(s.Has("a"), "has")
	sym.Assert(s.Flush() == nil, "flush-error")
	r, err := p.Read("sid")
	sym.Assert(err == nil, "stored")
	sym.Assert(r.Has("a") && len(r.Values()) == 1, "content")
	sym.Assert(reflect.DeepEqual(s.Get("a").Value(), v), "same")
	sym.Assert(reflect.DeepEqual(r.Get("a").Value(), v), "same-stored")
}

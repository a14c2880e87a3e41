package h

import (
	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/zz_verif/kv"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:stubs gomemcache radix.v2 mgo
//sym:nomerge
//sym:bounds every timeout of the int type, or none, for one set and one touch on all three backends; the entry is looked for any number of seconds (0 .. 2^31) later; entries that have expired (any number of seconds ago up to 1000) then touched, counted, deleted, read
//sym:assume the backend follows its documented protocol (in-memory models in /verif/stubs): memcached reads an expiry above 30 days as an absolute time in 32 bits, Redis refuses expiries that are not positive, MongoDB keeps what it is given; server and client clocks agree; it is before 2036

const minute = 60

// lifetime is what a timeout asks for: so many seconds, or for ever.
func lifetime(secs []int) (s int64, never bool) {
	if len(secs) == 0 || secs[0] == 0 {
		return minute, false
	}
	return int64(secs[0]), secs[0] < 0
}

func timeout(l string) []int {
	if sym.Choose(l+"-given", 2) == 0 {
		return nil
	}
	return []int{sym.Int(l)}
}

// holds checks that an entry lives exactly as long as asked, or as long as the backend can say.
func holds(b *kv.Backend, e kv.Entry, secs []int, label string) {
	s, never := lifetime(secs)
	if never {
		sym.Assert(e.Never, label+"-never")
		return
	}
	const far = 9 * 365 * 86400 // farther away than this the backend may not be able to say
	if s < far {
		sym.Assert(!e.Never && e.Left == s, label+"-exact")
	} else {
		sym.Assert(e.Never || e.Left <= s, label+"-not-longer")
		sym.Assert(e.Never || e.Left >= far, label+"-not-cut-short")
	}
}

func expiry(kind int) {
	kv.Settle()
	b := kv.New(kind, "p")
	secs := timeout("timeout")
	if b.Set("k", "v", secs...) != nil {
		sym.Fail("set-error")
	}
	e, ok := b.Find("k")
	sym.Assert(ok && e.Value == "v", "stored")
	holds(b, e, secs, "set")
	s, never := lifetime(secs)
	switch sym.Choose("then", 3) {
	case 0:
		sym.Cover("touched")
		gone := sym.Int64("gone")
		sym.Assume(sym.And(gone >= 0, gone < 1000))
		sym.Assume(sym.Or(never, gone < s))
		b.Advance(gone)
		again := timeout("again")
		sym.Assert(b.Touch("k", again...) == nil, "touch-error")
		e, ok = b.Find("k")
		sym.Assert(ok && e.Value == "v", "touched-stored")
		holds(b, e, again, "touch")
	case 1:
		sym.Cover("alive")
		gone := sym.Int64("gone")
		sym.Assume(sym.And(gone >= 0, gone < 9*365*86400))
		sym.Assume(sym.Or(never, gone < s))
		b.Advance(gone)
		v, err := b.Get("k")
		sym.Assert(err == nil && v == "v", "alive-get")
		has, err := b.Has("k")
		sym.Assert(err == nil && has, "alive-has")
	case 2:
		sym.Cover("expired")
		sym.Assume(!never)
		sym.Assume(s < 1<<31)
		late := int64(sym.IntRange("late", 0, 1000))
		b.Advance(s + late)
		dead(b)
	}
}

// dead checks that an entry that has expired is as good as gone.
func dead(b *kv.Backend) {
	switch sym.Choose("use", 6) {
	case 0:
		v, err := b.Get("k")
		sym.Assert(err == caches.ErrMissedKey && v == "", "expired-get")
	case 1:
		has, err := b.Has("k")
		sym.Assert(err == nil && !has, "expired-has")
	case 2:
		sym.Assert(b.Touch("k", 50) == caches.ErrMissedKey, "expired-touch")
	case 3:
		sym.Assert(b.Delete("k") == caches.ErrMissedKey, "expired-delete")
	case 4:
		err := b.Incr("k")
		sym.Assert(b.Kind == kv.Redis && err == nil || err == caches.ErrMissedKey, "expired-incr")
		return
	case 5:
		sym.Assert(b.Set("k", "w", 10) == nil, "expired-set")
		e, ok := b.Find("k")
		sym.Assert(ok && e.Value == "w" && e.Left == 10, "expired-set-again")
		return
	}
	_, ok := b.Find("k")
	sym.Assert(!ok, "expired-revived")
	has, err := b.Has("k")
	sym.Assert(err == nil && !has, "expired-back")
}

//sym:covers touched alive expired
func H_memcache() { expiry(kv.Memcache) }

//sym:covers touched alive expired
func H_redis() { expiry(kv.Redis) }

//sym:covers touched alive expired
func H_mgo() { expiry(kv.Mgo) }

// Counting neither restarts nor ends an entry's time.
func counted(kind int) {
	kv.Settle()
	b := kv.New(kind, "p")
	left := sym.IntRange("left", 1, 1<<27)
	gone := sym.IntRange("gone", 0, 1<<27)
	sym.Assert(b.Set("k", 5, left+gone) == nil, "set-error")
	b.Advance(int64(gone))
	if sym.Choose("up", 2) == 1 {
		sym.Assert(b.Incr("k", 2) == nil, "incr-error")
	} else {
		sym.Assert(b.Decr("k", 2) == nil, "decr-error")
	}
	e, ok := b.Find("k")
	sym.Assert(ok && e.Left == int64(left), "count-keeps-time")
}

func H_counted_memcache() { counted(kv.Memcache) }
func H_counted_redis()    { counted(kv.Redis) }
func H_counted_mgo()      { counted(kv.Mgo) }

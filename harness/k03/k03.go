package h

import (
	"math"
	"strconv"

	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/zz_verif/kv"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:stubs gomemcache radix.v2 mgo
//sym:bounds every int amount but the least (or none; in bulk those of up to 2 (thorough 4) digits and those within 10 of the ends; memcached: only the former); the second step one of 5 amounts; every previous value of up to 3 (thorough 4) digits (memcached: not negative) or near the ends of int64; one or two counting steps; the counter set as a number or as its text, absent, or not a number; a backend failure before or after the command
//sym:assume the backend follows its documented protocol (in-memory models in /verif/stubs): memcached counts unsigned, stops at zero and pads shorter numbers with spaces; Redis counts an absent key from zero; MongoDB and memcached miss it

// start puts a counter in place.
func start(b *kv.Backend) (n int64) {
	switch sym.Choose("size", 3) {
	case 0:
		n = int64(sym.IntRange("value", 0, sym.Bound(999, 9999)))
	case 1:
		n = math.MaxInt64 - int64(sym.IntRange("value", 0, 9))
	case 2:
		if b.Kind == kv.Memcache {
			sym.Stop()
		}
		n = -int64(sym.IntRange("value", 0, 999))
	}
	if b.Kind != kv.Mgo && sym.Choose("as-text", 2) == 1 {
		sym.Assert(b.Set("k", strconv.FormatInt(n, 10), 100) == nil, "set-error")
	} else {
		sym.Assert(b.Set("k", n, 100) == nil, "set-error")
	}
	return
}

// step counts once; by is the signed amount that was asked for.
func step(b *kv.Backend, size int) (by int64, given int, err error) {
	var p []int
	given = 1
	if sym.Choose("amount-given", 2) == 1 {
		if size == 0 {
			given = []int{-7, 12, math.MaxInt64 - 3, math.MinInt64 + 5}[sym.Choose("amount", 4)]
			if b.Kind == kv.Memcache && (given > 100 || given < -100) {
				sym.Stop()
			}
		} else {
			given = sym.Int("amount")
		}
		sym.Assume(given > math.MinInt64)
		if b.Kind == kv.Memcache { // keep the decimal texts short
			sym.Assume(size == 0 || sym.And(given > -size, given < size))
		} else {
			sym.Assume(size == 0 || sym.Or(sym.And(given > -size, given < size), sym.Or(given > math.MaxInt64-10, given < math.MinInt64+11)))
		}
		p = []int{given}
	}
	by = int64(given)
	if sym.Choose("down", 2) == 1 {
		by = -by
		err = b.Decr("k", p...)
	} else {
		err = b.Incr("k", p...)
	}
	return
}

func count(kind int) {
	b := kv.New(kind, "p")
	n := start(b)
	for i, steps := 0, 1+sym.Choose("steps", 2); i < steps; i++ {
		most := 0
		if i == 0 {
			most = sym.Bound(100, 10000)
		}
		by, _, err := step(b, most)
		over := by > 0 && n > math.MaxInt64-by || by < 0 && n < math.MinInt64-by
		if over {
			sym.Cover("overflow")
			sym.Assert(kind == kv.Memcache || err != nil, "overflow-reported")
			if kind == kv.Memcache {
				return
			}
		} else {
			sym.Cover("counted")
			sym.Assert(err == nil, "count-error")
			n += by
			if kind == kv.Memcache && n < 0 {
				n = 0
			}
		}
		v, err := b.Get("k")
		sym.Assert(err == nil, "get-error")
		got, err := v.Int64()
		sym.Assert(err == nil, "number")
		sym.Assert(got == n, "value")
	}
	sym.Assert(!b.Leaked(), "connection-leaked")
}

//sym:covers counted overflow
func H_memcache() { count(kv.Memcache) }

//sym:covers counted overflow
func H_redis() { count(kv.Redis) }

//sym:covers counted overflow
func H_mgo() { count(kv.Mgo) }

// A counter that is not there.
func absent(kind int) {
	b := kv.New(kind, "p")
	by, _, err := step(b, 1000)
	v, gerr := b.Get("k")
	if kind != kv.Redis {
		sym.Assert(err == caches.ErrMissedKey, "absent-miss")
		sym.Assert(gerr == caches.ErrMissedKey, "absent-not-created")
		return
	}
	sym.Assert(err == nil && gerr == nil, "absent-created")
	got, nerr := v.Int64()
	sym.Assert(nerr == nil && got == by, "absent-value")
}

func H_absent_memcache() { absent(kv.Memcache) }
func H_absent_redis()    { absent(kv.Redis) }
func H_absent_mgo()      { absent(kv.Mgo) }

// A value that is no number, or a backend that fails: an error, and nothing changes or everything did.
func trouble(kind int) {
	b := kv.New(kind, "p")
	if sym.Choose("text", 2) == 1 {
		sym.Cover("text")
		s := sym.StringOf("text", 1+sym.Choose("len", 2), "ax-")
		sym.Assert(b.Set("k", s, 100) == nil, "set-error")
		_, _, err := step(b, 1000)
		sym.Assert(err != nil && err != caches.ErrMissedKey, "not-a-number")
		v, _ := b.Get("k")
		sym.Assert(string(v) == s, "text-kept")
		return
	}
	sym.Cover("failure")
	sym.Assert(b.Set("k", 7, 100) == nil, "set-error")
	b.FailAt, b.After = 1+sym.Choose("command", 2), sym.Choose("after", 2) == 1
	by, given, err := step(b, 1000)
	sym.Assume(sym.And(given < 1000, given > -1000))
	b.FailAt = 0
	if !b.Failed {
		return
	}
	sym.Assert(err != nil && err != caches.ErrMissedKey, "failure-reported")
	sym.Assert(!b.Leaked(), "connection-leaked")
	v, err := b.Get("k")
	got, nerr := v.Int64()
	want := 7 + by
	if kind == kv.Memcache && want < 0 {
		want = 0
	}
	sym.Assert(err == nil && nerr == nil && (got == 7 || got == want), "failure-keeps-or-counts")
}

//sym:covers text failure
func H_trouble_memcache() { trouble(kv.Memcache) }

//sym:covers text failure
func H_trouble_redis() { trouble(kv.Redis) }

//sym:covers text failure
func H_trouble_mgo() { trouble(kv.Mgo) }

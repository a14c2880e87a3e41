package h

import (
	"io/ioutil"
	"log"
	"strconv"
	"time"

	"github.com/globalsign/mgo"

	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/sessions"
	"github.com/wujiu2020/strip/zz_verif/clock"
	"github.com/wujiu2020/strip/zz_verif/kv"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:stubs gomemcache radix.v2 mgo
//sym:native sessions/*.go clock
//sym:native caches/*.go clock
//sym:bounds collection on MongoDB with up to 3 (thorough 4) entries of any lifetime up to 2^31 seconds, the default one or none, any time later, with one failing command, on collections that expire by themselves or not, and of sessions and caches alike; on the other backends, with one entry; intervals of any Duration or none, over 3 rounds, and 5 intervals with up to 3 (6) rounds, each with a backend that fails or not, and a live and an expired session
//sym:assume the backend follows its documented protocol (in-memory models in /verif/stubs); time.AfterFunc calls its function once, at its time

// a collection of MongoDB with the clock of the harness
func collection(auto bool) (*mgo.Server, *int, caches.CacheProvider, sessions.SessionProvider) {
	fail := new(int)
	s := &mgo.Server{}
	s.Fail = func(string) int { f := *fail; *fail = 0; return f }
	c := mgo.NewCollection(s)
	connect := func(f func(c *mgo.Collection) error) error { return f(c) }
	cache, err := caches.NewMgoProvider(caches.MgoConfig{
		AutoExpire: auto, KeyField: "_id", ValueField: "value", ExpiredAtField: "expiredAt", Connect: connect,
	})
	sym.Assert(err == nil, "cache")
	sess, err := sessions.NewMgoProvider(sessions.MgoConfig{
		Config:     sessions.Config{SecretKey: "secret", SessionExpire: 100},
		AutoExpire: auto, Connect: connect,
	})
	sym.Assert(err == nil, "sessions")
	return s, fail, cache, sess
}

func has(s *mgo.Server, key string) bool {
	for _, d := range s.Docs {
		if d["_id"] == key {
			return true
		}
	}
	return false
}

// H_collect: what has expired is removed, and nothing else.
//
//sym:covers dead alive failed auto
func H_collect() {
	clock.Set(clock.Start)
	auto := sym.Choose("auto", 2) == 1
	s, fail, cache, _ := collection(auto)
	n := sym.Choose("entries", sym.Bound(4, 5))
	left := make([]int64, n)
	never := make([]bool, n)
	for i := range left {
		key := "k" + strconv.Itoa(i)
		switch sym.Choose("timeout", 3) {
		case 0:
			left[i] = 60
			sym.Assert(cache.Set(key, "v") == nil, "set")
		case 1:
			never[i] = true
			sym.Assert(cache.Set(key, "v", -1) == nil, "set")
		case 2:
			t := sym.IntRange("secs", 1, 1<<31-1)
			left[i] = int64(t)
			sym.Assert(cache.Set(key, "v", t) == nil, "set")
		}
	}
	gone := sym.IntRange("gone", 0, 1<<31-1)
	for _, ever := range never {
		sym.Assume(sym.Or(!ever, gone < 9*365*86400)) // or for a long time
	}
	clock.Set(clock.Start.Add(time.Duration(gone) * time.Second))
	*fail = sym.Choose("fail", 3)
	failed := *fail
	err := cache.GC()
	if auto {
		sym.Cover("auto")
		// the server does it, if it was told to
		told := false
		for _, i := range s.Indexes {
			told = told || len(i.Key) == 1 && i.Key[0] == "expiredAt" && i.ExpireAfter > 0 && i.ExpireAfter <= time.Hour
		}
		sym.Assert(told, "expires-by-itself")
	} else {
		sym.Assert(err != nil == (failed != 0), "error")
	}
	for i := range left {
		dead := sym.And(!never[i], left[i] <= int64(gone))
		in := has(s, "k"+strconv.Itoa(i))
		sym.Assert(sym.Or(dead, in), "alive-kept")
		if in {
			sym.Cover("alive")
		}
		if failed != 1 && !auto {
			sym.Assert(sym.Implies(dead, !in), "dead-removed")
			if !in {
				sym.Cover("dead")
			}
		} else if failed == 1 {
			sym.Cover("failed")
			sym.Assert(in, "failed-keeps")
		}
	}
}

// H_others: backends that expire by themselves keep what they have.
func H_others() {
	b := kv.New(sym.Choose("kind", 2), "p")
	sym.Assert(b.Set("k", "v", sym.IntRange("secs", 1, 1<<31-1)) == nil, "set")
	n := b.Commands
	sym.Assert(b.GC() == nil, "collect")
	sym.Assert(b.Commands == n, "no-commands")
	v, err := b.Get("k")
	sym.Assert(err == nil && v == "v", "kept")
}

// H_rounds: collection goes on at the interval asked for.
//
//sym:covers failed
func H_rounds() {
	clock.Set(clock.Start)
	log.SetOutput(ioutil.Discard) // what the failures are logged to
	log.SetFlags(0)
	s, fail, _, p := collection(false)
	m := sessions.NewSessionManager(p)
	round := 0
	var dead, live string
	prepare := func() {
		round++
		dead, live = "dead"+strconv.Itoa(round), "live"+strconv.Itoa(round)
		now := clock.Now()
		s.Docs = append(s.Docs, mgo.Doc{"_id": dead, "value": "v", "expiredAt": now.Add(-time.Second)},
			mgo.Doc{"_id": live, "value": "v", "expiredAt": now.Add(time.Second)})
		*fail = sym.Choose("fail", 2)
	}
	want := []time.Duration{time.Minute, time.Minute + 1, 90 * time.Second, time.Hour, 50*time.Hour - 1}[sym.Choose("interval", 5)]
	prepare()
	bad := *fail != 0
	m.GC(want)
	for i := sym.Choose("rounds", sym.Bound(4, 7)); ; i-- {
		sym.Assert(*fail == 0, "collected")
		sym.Assert(has(s, live), "live-kept")
		if bad {
			sym.Cover("failed")
		}
		sym.Assert(has(s, dead) == bad, "dead-removed")
		w := clock.Waiting()
		sym.Assert(len(w) == 1, "goes-on-once")
		sym.Assert(w[0].D == want, "interval")
		if i == 0 {
			break
		}
		clock.Set(w[0].At())
		prepare()
		bad = *fail != 0
		w[0].Ring()
	}
}

// H_interval: the interval is the one asked for, or an hour.
//
//sym:covers asked hourly
func H_interval() {
	clock.Set(clock.Start)
	_, _, _, p := collection(false)
	m := sessions.NewSessionManager(p)
	var given []time.Duration
	want := time.Hour
	if sym.Choose("given", 2) == 1 {
		d := time.Duration(sym.Int64("interval"))
		given = append(given, d)
		if d >= time.Minute {
			sym.Cover("asked")
			want = d
		} else {
			sym.Cover("hourly")
		}
	}
	m.GC(given...)
	for i := 0; i < 3; i++ {
		w := clock.Waiting()
		sym.Assert(len(w) == 1, "goes-on-once")
		sym.Assert(w[0].D == want, "interval")
		w[0].Ring()
	}
}

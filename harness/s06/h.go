package h

import (
	"net/http"
	"net/http/httptest"
	"time"

	"github.com/wujiu2020/strip/sessions"
	"github.com/wujiu2020/strip/zz_verif/kv"
	_ "github.com/wujiu2020/strip/zz_verif/mac"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:stubs gomemcache radix.v2 mgo
//sym:bounds all three backends; every history of 2 (Redis and MongoDB: 1, thorough 2; without faults: 2, thorough 3) of start, regenerate (with or without initial values), destroy, each with the browser's cookie, none, a forged one, an expired one, that of a session that is gone, that of another user, or on the same request again; sessions stored or not; any one backend command failing before or after it took effect
//sym:assume the backend follows its documented protocol and BSON gives back what was stored (in-memory models in /verif/stubs); HMAC is unforgeable, base64 encodes one-to-one (ideal models); random texts do not repeat

const (
	secret = "secret"
	life   = 3600
)

var cookies = &sessions.CookieConfig{CookieName: "S", CookieRememberName: "R", CookieDomain: "site", CookieExpire: life, RememberExpire: life}

func provider(kind int) (*kv.Backend, sessions.SessionProvider) {
	b := kv.New(kind, "p")
	c := sessions.Config{SecretKey: secret, SessionExpire: life}
	var p sessions.SessionProvider
	var err error
	switch kind {
	case kv.Memcache:
		p, err = sessions.NewMcProvider(sessions.McConfig{Config: c, KeyPrefix: "p", Client: b.McClient})
	case kv.Redis:
		p, err = sessions.NewRedisProvider(sessions.RedisConfig{Config: c, KeyPrefix: "p", Client: b.RdPool})
	case kv.Mgo:
		p, err = sessions.NewMgoProvider(sessions.MgoConfig{Config: c, Connect: b.Connect})
	}
	sym.Assert(err == nil, "provider")
	b.Commands = 0
	return b, p
}

// given is the cookie of a name that the response sets, the last one.
func given(w http.ResponseWriter, name string) (g *http.Cookie) {
	for _, c := range (&http.Response{Header: w.Header()}).Cookies() {
		if c.Name == name {
			g = c
		}
	}
	return
}

func sends(value string) *http.Request {
	r := &http.Request{Header: http.Header{}}
	if value != "" {
		r.AddCookie(&http.Cookie{Name: "R", Value: "x"})
		r.AddCookie(&http.Cookie{Name: "S", Value: value})
	}
	return r
}

func encode(sid, key string, ago time.Duration) string {
	v, ok := sessions.EncodeSecureValue(sid, key, time.Now().Add(-ago))
	sym.Assert(ok, "encode")
	return v
}

// world is what should be so: which sessions are stored, with what under "k".
type world struct {
	b      *kv.Backend
	p      sessions.SessionProvider
	m      *sessions.SessionManager
	sids   []string // every id there has been
	data   map[string]interface{}
	unsure map[string]bool // a failing command may have changed it
}

func (x *world) known(sid string) bool {
	for _, s := range x.sids {
		if s == sid {
			return true
		}
	}
	return false
}

func (x *world) fresh(sid string) {
	sym.Assert(len(sid) == sessions.SESSION_ID_LENGTH, "id-length")
	sym.Assert(!x.known(sid), "id-new")
	x.sids = append(x.sids, sid)
}

func empty(s sessions.SessionStore) bool { return len(s.Values()) == 0 }

// cookieFor checks that the response gives the browser a cookie for the session, and returns its value.
func (x *world) cookieFor(w http.ResponseWriter, sid string, at time.Time, label string) string {
	c := given(w, "S")
	if c == nil {
		sym.Fail(label + "-cookie")
		return ""
	}
	sym.Assert(c.Path == "/" && c.Domain == "site" && c.HttpOnly && c.MaxAge == life, label+"-cookie-kept")
	got, created, ok := x.m.ReadSidFromRequest(sends(c.Value), "S")
	sym.Assert(ok && got == sid, label+"-cookie-opens")
	sym.Assert(created.Equal(at), label+"-cookie-time")
	return c.Value
}

// stores checks the backend, of every session there has been.
func (x *world) stores(label string) {
	x.b.FailAt = 0
	for _, sid := range x.sids {
		if x.unsure[sid] {
			continue
		}
		s, err := x.p.Read(sid)
		want, in := x.data[sid]
		if !in {
			sym.Assert(err == sessions.ErrNotFoundSession && s == nil, label+"-gone")
			continue
		}
		sym.Assert(err == nil, label+"-there")
		sym.Assert(s.Sid() == sid && s.Get("k").Value() == want && len(s.Values()) == 1, label+"-content")
	}
}

func history(kind, steps int, faults bool) {
	b, p := provider(kind)
	x := &world{b: b, p: p, m: sessions.NewSessionManager(p), data: map[string]interface{}{}, unsure: map[string]bool{}}
	put := func(sid string, v interface{}) {
		s, err := p.Create(sid)
		sym.Assert(err == nil, "create")
		s.Set("k", v)
		sym.Assert(s.Flush() == nil, "flush")
		x.data[sid] = v
	}
	const other, mine, gone, old = "OTHER", "MINE", "GONE", "OLD"
	x.sids = []string{other, mine, gone, old}
	put(other, int(sym.Int32("other")))
	put(old, "old")
	if sym.Choose("stored", 2) == 1 {
		put(mine, int(sym.Int32("mine")))
	}
	jar := encode(mine, secret, time.Minute)
	if faults {
		b.FailAt = sym.Choose("fails", 6)
		if b.FailAt > 0 {
			b.After = sym.Choose("after", 2) == 1
		}
	}
	var r *http.Request
	sid, valid := "", false // what the request's cookie says
	n := steps
	for i := 0; i < n; i++ {
		kinds := 7
		if i == 0 {
			kinds = 6
		}
		at := time.Now()
		switch sym.Choose("cookie", kinds) {
		case 0:
			r = sends(jar)
			if s, _, ok := x.m.ReadSidFromRequest(r, "S"); ok {
				sid, valid = s, true
			} else {
				sid, valid = "", false
			}
		case 1:
			r, sid, valid = sends(""), "", false
		case 2:
			r, sid, valid = sends(encode(other, "guess", 0)), "", false
		case 3:
			r, sid, valid = sends(encode(old, secret, (life+1)*time.Second)), "", false
		case 4:
			r, sid, valid = sends(encode(gone, secret, time.Minute)), gone, true
		case 5:
			r, sid, valid = sends(encode(other, secret, time.Minute)), other, true
		case 6: // the same request once more
		}
		if valid {
			_, at, _ = x.m.ReadSidFromRequest(r, "S")
		}
		failed := b.Failed
		w := httptest.NewRecorder()
		_, in := x.data[sid]
		switch sym.Choose("op", 3) {
		case 0:
			s, created, err := x.m.Start(cookies, w, r)
			failed = b.Failed && !failed
			sym.Assert((err == nil) == (s != nil), "start-session-or-error")
			if err != nil {
				sym.Assert(failed, "start-error")
				sym.Cover("start-failed")
				break
			}
			if !valid {
				sym.Cover("start-new")
				x.fresh(s.Sid())
				sym.Assert(empty(s), "start-new-empty")
				jar = x.cookieFor(w, s.Sid(), created, "start")
				sid, valid = s.Sid(), true
			} else {
				sym.Cover("start-known")
				sym.Assert(s.Sid() == sid, "start-same")
				sym.Assert(created.Equal(at), "start-time")
				sym.Assert(given(w, "S") == nil, "start-no-cookie")
				if in && !failed && !x.unsure[sid] {
					sym.Assert(s.Get("k").Value() == x.data[sid] && len(s.Values()) == 1, "start-content")
				} else if !x.unsure[sid] {
					sym.Assert(empty(s), "start-empty")
				}
			}
			switch sym.Choose("use", 2) {
			case 1: // the handler stores something
				v := int(sym.Int32("used"))
				before := b.Failed
				s.Set("k", v)
				if s.Flush() == nil {
					x.data[sid], x.unsure[sid] = v, false
				} else {
					sym.Assert(b.Failed && !before, "use-error")
					x.unsure[sid] = true
				}
			}
		case 1:
			var s sessions.SessionStore
			var created time.Time
			var err error
			params := sym.Choose("params", 3)
			switch params {
			case 0:
				s, created, err = x.m.Regenerate(cookies, w, r)
			case 1:
				s, created, err = x.m.Regenerate(cookies, w, r, nil)
			case 2:
				s, created, err = x.m.Regenerate(cookies, w, r, map[string]interface{}{"k": "new"})
			}
			failed = b.Failed && !failed
			sym.Assert((err == nil) == (s != nil), "regenerate-session-or-error")
			if err != nil {
				sym.Assert(failed, "regenerate-error")
				sym.Cover("regenerate-failed")
				if valid {
					x.unsure[sid] = true
				}
				break
			}
			sym.Cover("regenerated")
			x.fresh(s.Sid())
			jar = x.cookieFor(w, s.Sid(), created, "regenerate")
			if !x.unsure[sid] {
				switch {
				case valid && in && !failed:
					sym.Cover("regenerated-stored")
					sym.Assert(s.Get("k").Value() == x.data[sid] && len(s.Values()) == 1, "regenerate-content")
					x.data[s.Sid()] = x.data[sid]
				case valid && failed:
				case params == 2:
					sym.Assert(s.Get("k").Value() == "new" && len(s.Values()) == 1, "regenerate-params")
				default:
					sym.Assert(empty(s), "regenerate-empty")
				}
			} else {
				x.unsure[s.Sid()] = true
			}
			if valid && err == nil { // the old id opens nothing any more
				delete(x.data, sid)
				x.unsure[sid] = false
			}
			sid, valid = s.Sid(), true
		case 2:
			err := x.m.Destroy(cookies, w, r)
			failed = b.Failed && !failed
			if err != nil {
				sym.Assert(failed, "destroy-error")
			}
			c := given(w, "S")
			if !valid {
				sym.Cover("destroy-nothing")
				break
			}
			sym.Cover("destroyed")
			if err == nil {
				sym.Assert(c != nil && c.Path == "/" && c.Domain == "site" && c.MaxAge < 0, "destroy-cookie")
				jar = ""
			}
			delete(x.data, sid)
			x.unsure[sid] = failed
		}
	}
	x.stores("end")
}

func H_memcache() { history(kv.Memcache, 2, true) }
func H_redis()    { history(kv.Redis, sym.Bound(1, 2), true) }
func H_mgo()      { history(kv.Mgo, sym.Bound(1, 2), true) }

// Longer, while nothing fails.
func H_long() { history(kv.Memcache, sym.Bound(2, 3), false) }

package h

import (
	"net/http"
	"net/http/httptest"
	"time"

	"github.com/wujiu2020/strip/sessions"
	"github.com/wujiu2020/strip/zz_verif/clock"
	_ "github.com/wujiu2020/strip/zz_verif/mac"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:stubs gomemcache radix.v2 mgo
//sym:nomerge
//sym:native sessions/*.go clock
//sym:bounds every creation time and every current time of 2001..2261 to the nanosecond, every lifetime of 0 seconds up to the longest an int can say; session and remember cookies, written by the code and read back from the browser's header
//sym:assume HMAC is a function of key and message, base64 encodes one-to-one (ideal models of both); the clock is the harness's

type provider struct {
	sessions.SessionProvider
	config sessions.Config
}

func (p *provider) Config() *sessions.Config { c := p.config; return &c }

func moment(l string) (sec, nsec int64, t time.Time) {
	sec, nsec = sym.Int64(l), int64(sym.Uint32(l+"-nsec")>>2)
	sym.Assume(sec >= 1000000000)
	sym.Assume(sec <= 9200000000)
	sym.Assume(nsec <= 999999999)
	return sec, nsec, time.Unix(sec, nsec)
}

// ages draws a moment of creation, now, and a lifetime, and says whether it is over by now.
type ages struct {
	created, now time.Time
	life         int
	over         bool
}

func draw() (a ages) {
	cs, cn, created := moment("created")
	ns, nn, now := moment("now")
	a = ages{created: created, now: now, life: sym.Int("lifetime")}
	sym.Assume(a.life >= 0)
	if a.life >= 1<<40 { // longer than all the time there is
		sym.Cover("very-long")
		return
	}
	end := cs + int64(a.life)
	a.over = sym.Or(end < ns, sym.And(end == ns, cn < nn))
	return
}

var cookies = sessions.CookieConfig{CookieName: "S", CookieRememberName: "R", CookieExpire: 3600, RememberExpire: 3600}

// browser sends back the cookies it was given.
func browser(w *httptest.ResponseRecorder) *http.Request {
	r := &http.Request{Header: http.Header{}}
	for _, c := range (&http.Response{Header: w.Header()}).Cookies() {
		r.AddCookie(c)
	}
	return r
}

func manager(life int) *sessions.SessionManager {
	return sessions.NewSessionManager(&provider{config: sessions.Config{SecretKey: "secret", SessionExpire: life}})
}

func H_session() {
	a := draw()
	m := manager(a.life)
	clock.Set(a.created)
	w := httptest.NewRecorder()
	m.WriteSessionCookie(&cookies, &http.Request{Header: http.Header{}}, w, "SID", a.created)
	clock.Set(a.now)
	sid, created, ok := m.ReadSidFromRequest(browser(w), "S")
	sym.Assert(ok == !a.over, "age")
	if ok {
		sym.Cover("accepted")
		sym.Assert(sid == "SID" && created.Equal(a.created), "same")
	} else {
		sym.Cover("rejected")
		sym.Assert(sid == "" && created.IsZero(), "nothing")
	}
}

func H_remember() {
	a := draw()
	m := manager(60)
	c := cookies
	c.RememberExpire = a.life
	clock.Set(a.created)
	w := httptest.NewRecorder()
	sym.Assert(m.WriteRemember(&cookies, w, "user", "salt"), "written")
	r := browser(w)
	_, hash, ok := m.HasRemember(&cookies, r) // while it is fresh
	sym.Assert(ok, "fresh")
	clock.Set(a.now)
	psk, _, ok := m.HasRemember(&c, r)
	sym.Assert(ok == !a.over, "has-age")
	if ok {
		sym.Cover("accepted")
		sym.Assert(psk == "user", "has-same")
	} else {
		sym.Cover("rejected")
		sym.Assert(psk == "", "has-nothing")
	}
	sym.Assert(m.ValidRemember(&c, "user", "salt", hash) == !a.over, "valid-age")
}

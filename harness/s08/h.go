package h

import (
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip/sessions"
	"github.com/wujiu2020/strip/zz_verif/kv"
	_ "github.com/wujiu2020/strip/zz_verif/mac"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:stubs gomemcache radix.v2 mgo
//sym:bounds histories of 3 (thorough 4) requests of a browser that keeps its cookies by name, domain and path: start, regenerate, destroy, remember, forget, look; two pairs of cookie names, 3 domains, secure or not, 4 lives of each cookie from -1 to 2^31-1; other cookies of the browser and of the response around them, some with names that differ in a letter's case or begin the same; sessions in the memcached model; single operations with any life of -3..1200 (thorough 99999), any cookie name of 2 (3) characters of 22, secure or not
//sym:assume HMAC is unforgeable, base64 encodes one-to-one (ideal models); random texts do not repeat; names of cookies and domains are ones that HTTP allows

func age(label string) int {
	return []int{-1, 0, 3600, 1<<31 - 1}[sym.Choose(label, 4)]
}

// jar is what the browser keeps.
type jar map[string]string

func key(c *http.Cookie) string { return c.Name + " " + c.Domain + " " + c.Path }

func (j jar) request() *http.Request {
	r := &http.Request{Header: http.Header{}}
	r.AddCookie(&http.Cookie{Name: "other", Value: "o"})
	for k, x := range j {
		r.AddCookie(&http.Cookie{Name: k[:strings.Index(k, " ")], Value: x})
	}
	return r
}

// What the browser is told to keep, for how long and for whom is what is configured.
//
//sym:covers session-cookie until-closed lasting removed remembered forgotten
func H_cookies() {
	b := kv.New(kv.Memcache, "p")
	p, err := sessions.NewMcProvider(sessions.McConfig{Config: sessions.Config{SecretKey: "secret", SessionExpire: 3600}, KeyPrefix: "p", Client: b.McClient})
	sym.Assert(err == nil, "provider")
	m := sessions.NewSessionManager(p)
	letter := []string{"", "Z"}[sym.Choose("name", 2)]
	kind := sym.Choose("kind", 4)
	domain := []string{"", "site.com", ".site.com", ""}[kind]
	c := &sessions.CookieConfig{CookieName: "s" + letter, CookieRememberName: "r" + letter, CookieSecure: kind%2 == 1, CookieDomain: domain}
	first := sym.Choose("first", 6)
	c.CookieExpire, c.RememberExpire = 60, 60
	if sym.Choose("which-life", 2) == 0 {
		c.CookieExpire = age("life")
	} else {
		c.RememberExpire = age("remember-life")
		sym.Assume(c.RememberExpire > 0)
	}
	j := jar{}
	sid := "" // of the session the browser has
	user := ""
	for i, n := 0, sym.Bound(3, 4); i < n; i++ {
		op := first
		if i > 0 {
			op = sym.Choose("op", 6)
		}
		r, w := j.request(), httptest.NewRecorder()
		before := len(r.Cookies())
		w.Header().Add("Set-Cookie", "other=1")
		http.SetCookie(w, &http.Cookie{Name: strings.ToUpper(c.CookieName) + "x", Value: "1"})
		set, life, name, dom := false, 0, c.CookieName, domain
		switch op {
		case 0:
			s, at, err := m.Start(c, w, r)
			sym.Assert(err == nil, "start")
			if sid == "" {
				sid, set, life = s.Sid(), true, c.CookieExpire
				sym.Assert(s.Flush() == nil, "flush")
			}
			sym.Assert(s.Sid() == sid, "own-session")
			got, made, ok := m.ReadSidFromRequest(r, c.CookieName)
			sym.Assert(ok && got == sid && made.Equal(at), "request-has-it")
		case 1:
			s, at, err := m.Regenerate(c, w, r)
			sym.Assert(err == nil && s.Sid() != sid, "regenerate")
			sym.Assert(s.Flush() == nil, "flush")
			sid, set, life = s.Sid(), true, c.CookieExpire
			got, made, ok := m.ReadSidFromRequest(r, c.CookieName)
			sym.Assert(ok && got == sid && made.Equal(at), "request-has-it")
		case 2:
			sym.Assert(m.Destroy(c, w, r) == nil, "destroy")
			if sid != "" {
				sym.Cover("removed")
				set, life, sid = true, -1, ""
			}
		case 3:
			user = "u" + strconv.Itoa(i)
			sym.Assert(m.WriteRemember(c, w, user, "salt"), "remember")
			set, life, name, dom = true, c.RememberExpire, c.CookieRememberName, ""
			sym.Cover("remembered")
		case 4:
			m.DestroyRemember(c, w)
			set, life, name, dom, user = true, -1, c.CookieRememberName, "", ""
			sym.Cover("forgotten")
		case 5: // nothing but a look
			got, _, ok := m.ReadSidFromRequest(r, c.CookieName)
			sym.Assert(ok == (sid != "") && got == sid, "own-session")
			psk, hash, ok := m.HasRemember(c, r)
			sym.Assert(ok == (user != "") && psk == user, "own-user")
			sym.Assert(!ok || m.ValidRemember(c, user, "salt", hash), "own-user-valid")
		}
		cs := (&http.Response{Header: w.Header()}).Cookies()
		want := 2
		if set {
			want = 3
		}
		sym.Assert(len(cs) == want && cs[0].Name == "other" && cs[1].Value == "1", "no-other-cookies")
		sent := len(r.Cookies())
		sym.Assert(sent == before || set && op < 2 && sent == before+1, "cookies-of-the-request-kept")
		if !set {
			continue
		}
		k := cs[2]
		sym.Assert(k.Name == name, "name")
		sym.Assert(k.Path == "/", "path")
		sym.Assert(k.Domain == strings.TrimPrefix(dom, "."), "domain")
		sym.Assert(k.HttpOnly, "http-only")
		sym.Assert(k.Secure == c.CookieSecure, "secure")
		switch {
		case op == 2 || op == 4:
			sym.Assert(k.MaxAge < 0, "removed-at-once")
			delete(j, key(k))
		case life > 0:
			sym.Cover("lasting")
			sym.Assert(k.MaxAge == life, "lives-as-long-as-configured")
			j[key(k)] = k.Value
		default:
			sym.Cover("until-closed")
			sym.Assert(k.MaxAge == 0 && k.Expires.IsZero(), "until-the-browser-is-closed")
			j[key(k)] = k.Value
		}
		sym.Cover("session-cookie")
		n := 0
		if sid != "" {
			n++
		}
		if user != "" {
			n++
		}
		sym.Assert(len(j) == n, "browser-keeps-exactly-the-current-ones")
	}
}

// Any life, any name, secure or not.
//
//sym:covers lasting until-closed
func H_lives() {
	b := kv.New(kv.Memcache, "p")
	p, err := sessions.NewMcProvider(sessions.McConfig{Config: sessions.Config{SecretKey: "secret", SessionExpire: 3600}, KeyPrefix: "p", Client: b.McClient})
	sym.Assert(err == nil, "provider")
	m := sessions.NewSessionManager(p)
	life := sym.IntRange("life", -3, sym.Bound(1200, 99999))
	secure := sym.Bool("secure")
	name := sym.StringOf("name", sym.Bound(2, 3), "abzAZ019!#$%&'*+-.^_`|~")
	c := &sessions.CookieConfig{CookieName: "s", CookieRememberName: "r", CookieSecure: secure, CookieExpire: 7, RememberExpire: 7}
	r, w := &http.Request{Header: http.Header{}}, httptest.NewRecorder()
	switch sym.Choose("op", 3) {
	case 0:
		c.CookieExpire, c.CookieName = life, name
		_, _, err := m.Start(c, w, r)
		sym.Assert(err == nil, "start")
	case 1:
		c.CookieExpire, c.CookieName = life, name
		_, _, err := m.Regenerate(c, w, r)
		sym.Assert(err == nil, "regenerate")
	case 2:
		c.RememberExpire, c.CookieRememberName = life, name
		sym.Assume(life > 0)
		sym.Assert(m.WriteRemember(c, w, "u", "salt"), "remember")
	}
	cs := (&http.Response{Header: w.Header()}).Cookies()
	sym.Assert(len(cs) == 1, "one-cookie")
	k := cs[0]
	sym.Assert(k.Name == name && k.Path == "/" && k.Domain == "" && k.HttpOnly, "as-configured")
	sym.Assert(k.Secure == secure, "secure")
	if life > 0 {
		sym.Cover("lasting")
		sym.Assert(k.MaxAge == life, "lives-as-long-as-configured")
	} else {
		sym.Cover("until-closed")
		sym.Assert(k.MaxAge == 0 && k.Expires.IsZero(), "until-the-browser-is-closed")
	}
}

package h

import (
	"encoding/base64"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/wujiu2020/strip/sessions"
	"github.com/wujiu2020/strip/zz_verif/clock"
	"github.com/wujiu2020/strip/zz_verif/hx"
	_ "github.com/wujiu2020/strip/zz_verif/mac"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:stubs gomemcache radix.v2 mgo
//sym:native sessions/*.go clock
//sym:bounds every user of 1..2 (thorough 3) bytes with every per-user secret of 1..2 bytes, checked against any other user and secret of as many; session cookies of any id of up to 2 characters presented as remember cookies and the other way round; a remember cookie of which the signed text before the signature is replaced by any text of up to 4 (thorough 5) characters, one byte is changed, or which is cut, within its first 40 and last 100 bytes; users of up to 1025 (thorough 4097) bytes and secrets of up to 257 (1025), with one byte changed or the end cut off
//sym:assume HMAC is unforgeable (ideal model: tags agree exactly if key and message do; tags of what was not signed cannot be guessed), base64 encodes one-to-one (ideal model); secrets do not end in NUL bytes (HMAC pads keys with them); the clock is the harness's

type provider struct{ sessions.SessionProvider }

func (p *provider) Config() *sessions.Config {
	return &sessions.Config{SecretKey: "secret", SessionExpire: 3600}
}

var (
	cookies = &sessions.CookieConfig{CookieName: "S", CookieRememberName: "R", CookieExpire: 3600, RememberExpire: 3600}
	m       *sessions.SessionManager
)

// given is the value of a cookie the response sets.
func given(w *httptest.ResponseRecorder, name string) string {
	v := ""
	for _, c := range (&http.Response{Header: w.Header()}).Cookies() {
		if c.Name == name {
			v = c.Value
		}
	}
	return v
}

func sends(name, value string) *http.Request {
	r := &http.Request{Header: http.Header{}}
	r.AddCookie(&http.Cookie{Name: name, Value: value})
	return r
}

func text(l string, n int) string {
	s := sym.String(l, n)
	sym.Assume(s[n-1] != 0)
	return s
}

func issue(user, salt string) string {
	clock.Set(clock.Start)
	m = sessions.NewSessionManager(&provider{})
	w := httptest.NewRecorder()
	sym.Assert(m.WriteRemember(cookies, w, user, salt), "written")
	v := given(w, "R")
	sym.Assert(v != "", "cookie")
	return v
}

func nothing(r *http.Request, label string) {
	psk, hash, ok := m.HasRemember(cookies, r)
	sym.Assert(!ok, label)
	sym.Assert(psk == "" && hash == "", label+"-nothing")
}

// The cookie of a user verifies for that user and secret, and for no other.
func H_own() {
	user := sym.String("user", 1+sym.Choose("user-length", sym.Bound(2, 3)))
	salt := text("salt", 1+sym.Choose("salt-length", 2))
	psk, hash, ok := m0(user, salt)
	sym.Assert(ok, "own-has")
	sym.Assert(psk == user, "own-user")
	switch sym.Choose("check", 3) {
	case 0:
		sym.Assert(m.ValidRemember(cookies, user, salt, hash), "own-valid")
		sym.Assert(!m.ValidRemember(cookies, user, "", hash), "no-secret")
		sym.Assert(!m.ValidRemember(cookies, "", salt, hash), "no-user")
		sym.Assert(!m.ValidRemember(cookies, user, salt, ""), "no-hash")
	case 1:
		other := sym.String("other", 1+sym.Choose("other-length", 2))
		sym.Assert(m.ValidRemember(cookies, other, salt, hash) == (other == user), "only-its-user")
	case 2:
		other := text("other", 1+sym.Choose("other-length", 2))
		sym.Assert(m.ValidRemember(cookies, user, other, hash) == (other == salt), "only-its-secret")
	}
}

func m0(user, salt string) (string, string, bool) {
	return m1(issue(user, salt))
}

func m1(cookie string) (string, string, bool) {
	return m.HasRemember(cookies, sends("R", cookie))
}

// Another user's hash under one's own name, and the hash as a cookie of its own.
func H_spliced() {
	a, b := sym.String("a", 1), sym.String("b", 1)
	sa, sb := text("salt-a", 1), text("salt-b", 1)
	sym.Assume(a != b)
	_, ha, ok := m0(a, sa)
	sym.Assert(ok, "a-has")
	_, hb, ok := m0(b, sb)
	sym.Assert(ok, "b-has")
	sym.Assert(!m.ValidRemember(cookies, b, sb, ha), "other-hash")
	sym.Assert(!m.ValidRemember(cookies, a, sa, hb), "hash-other")
	sym.Assert(!m.ValidRemember(cookies, b, sa, ha), "other-user")
	if sym.Choose("as-cookie", 2) == 1 {
		nothing(sends("R", ha), "hash-as-cookie")
		_, _, ok = m.ReadSidFromRequest(sends("S", ha), "S")
		sym.Assert(!ok, "hash-as-session")
	}
}

// A session cookie is no remember cookie.
func H_session() {
	issue("user", "salt")
	n := 1 + sym.Choose("length", 2)
	sid := sym.StringOf("sid", n, "A0Z9")
	w := httptest.NewRecorder()
	m.WriteSessionCookie(cookies, &http.Request{Header: http.Header{}}, w, sid, clock.Start)
	v := given(w, "S")
	got, _, ok := m.ReadSidFromRequest(sends("S", v), "S")
	sym.Assert(ok && got == sid, "session-own")
	nothing(sends("R", v), "session-as-remember")
	sym.Assert(!m.ValidRemember(cookies, sid, "salt", v), "session-as-hash")
}

// A remember cookie is no session cookie.
func H_asSession() {
	user := sym.String("user", 1+sym.Choose("user-length", 2))
	v := issue(user, "salt")
	sid, _, ok := m.ReadSidFromRequest(sends("S", v), "S")
	sym.Assert(!ok && sid == "", "remember-as-session")
}

// place is one of the first 40 places of the n, or of the last 100 (the encodings' lengths differ in a native run).
func place(n int) int {
	at := sym.Choose("at", 140)
	if at < 40 {
		return at
	}
	return n - 1 - (at - 40)
}

// Nothing an attacker makes of a remember cookie is taken for another user.
func H_altered() {
	user := sym.StringOf("user", 1, "a|%")
	v := issue(user, "salt")
	b, err := base64.URLEncoding.DecodeString(v)
	sym.Assert(err == nil, "base64")
	s := string(b)
	switch sym.Choose("how", 4) {
	case 0: // anything before the signature
		n := sym.Choose("forged-length", sym.Bound(4, 5))
		s = sym.StringOf("forged", n, "ab|,1%7C") + s[strings.LastIndex(s, ","):]
	case 1: // anything before the time
		n := sym.Choose("forged-length", sym.Bound(4, 5))
		s = sym.StringOf("forged", n, "ab|,1%7C") + s[strings.Index(s, ","):]
	case 2: // one byte
		at := place(len(s))
		// another byte than the one that is there, which is not the same in every run
		flip := sym.Byte("flip")
		sym.Assume(flip != 0)
		s = s[:at] + string([]byte{s[at] ^ flip}) + s[at+1:]
	case 3: // cut
		s = s[:place(len(s))]
	}
	psk, hash, ok := m1(base64.URLEncoding.EncodeToString([]byte(s)))
	if !ok {
		sym.Cover("rejected")
		sym.Assert(psk == "" && hash == "", "rejected-nothing")
		return
	}
	sym.Cover("accepted")
	sym.Assert(psk == user, "altered-user")
	sym.Assert(!m.ValidRemember(cookies, "b", "salt", hash), "altered-other")
}

// No cookie, or one of another name.
func H_none() {
	v := issue("user", "salt")
	nothing(&http.Request{Header: http.Header{}}, "no-cookie")
	nothing(sends("X", v), "other-name")
	nothing(sends("R", ""), "empty")
	w := httptest.NewRecorder()
	m.DestroyRemember(cookies, w)
	cs := (&http.Response{Header: w.Header()}).Cookies()
	sym.Assert(len(cs) == 1 && cs[0].Name == "R" && cs[0].Path == "/" && cs[0].MaxAge < 0, "destroyed")
	w = httptest.NewRecorder()
	sym.Assert(m.WriteRemember(cookies, w, "user", "salt"), "again")
	cs = (&http.Response{Header: w.Header()}).Cookies()
	sym.Assert(len(cs) == 1 && cs[0].Path == "/" && cs[0].HttpOnly && cs[0].MaxAge == 3600, "cookie-kept")
	w = httptest.NewRecorder()
	user, salt := sym.StringOf("user", sym.Choose("user-length", 2), "u"), sym.StringOf("salt", sym.Choose("salt-length", 2), "s")
	ok := m.WriteRemember(cookies, w, user, salt)
	sym.Assert(ok == (user != "" && salt != ""), "refused")
	sym.Assert((given(w, "R") != "") == ok, "refused-cookie")
}

// Long users and secrets: their cookies verify, and those of a user or a secret that starts or ends the same do not.
func H_large() {
	user, salt := "us|er", "sa|lt"
	if sym.Choose("what", 2) == 0 {
		user = hx.Long("user", sym.Bound(1025, 4097), "|,%+=\xff")
	} else {
		salt = hx.Long("salt", sym.Bound(257, 1025), "|\xff")
	}
	psk, hash, ok := m0(user, salt)
	sym.Assert(ok && psk == user, "own-has")
	sym.Assert(m.ValidRemember(cookies, user, salt, hash), "own-valid")
	for _, i := range []int{0, len(user) / 2, len(user) - 1} {
		sym.Assert(!m.ValidRemember(cookies, user[:i]+"#"+user[i+1:], salt, hash), "only-its-user")
		sym.Assert(!m.ValidRemember(cookies, user[:i], salt, hash), "only-its-user")
	}
	for _, i := range []int{0, len(salt) / 2, len(salt) - 1} {
		sym.Assert(!m.ValidRemember(cookies, user, salt[:i]+"#"+salt[i+1:], hash), "only-its-secret")
		sym.Assert(!m.ValidRemember(cookies, user, salt[:i], hash), "only-its-secret")
	}
}

package h

import (
	"errors"
	"io"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds handlers (functions, and controller actions for some) with every one of 30 result signatures, with and without a trailing int status (any of 100..999), bodies of up to 3 arbitrary bytes, readers that deliver in pieces or fail, with and without a response written by the handler or an earlier filter, with the response writer failing; bodies of up to 65537 bytes of the sizes next to powers of two and round numbers
//sym:assume returned statuses are 100..999

type rd struct {
	data   string
	closed int
	fail   bool
}

func (r *rd) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		if r.fail {
			return 0, errors.New("read")
		}
		return 0, io.EOF
	}
	p[0] = r.data[0]
	r.data = r.data[1:]
	return 1, nil
}

type rdc struct{ rd }

func (r *rdc) Close() error { r.closed++; return nil }

type act struct{ body string }

func (a *act) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	rw.Write([]byte("act:" + a.body))
}

type actVal struct{ body string }

func (a actVal) Write(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {
	rw.Write([]byte("actval:" + a.body))
}

type hnd struct{ body string }

func (a hnd) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	rw.Write([]byte("handler:" + req.Method + a.body))
}

type named string
type code int

//sym:covers status nostatus already
func H_results() {
	s := sym.String("body", sym.Choose("len", 4))
	c := sym.IntRange("code", 100, 999)
	r := &rd{data: s}
	rc := &rdc{rd{data: s}}
	fails := sym.Choose("readfails", 2) == 1
	r.fail, rc.fail = fails, fails
	pre := sym.Choose("written", 3) // 0 no, 1 status by the handler, 2 body by the handler
	var w http.ResponseWriter
	before := func() {
		switch pre {
		case 1:
			w.WriteHeader(202)
		case 2:
			w.Write([]byte("own"))
		}
	}
	var h interface{}
	body, status, closes := "", 0, 0
	withStatus := func() { status = c }
	switch k := sym.Choose("signature", 32); k {
	case 0:
		h = func() { before() }
	case 1:
		h = func() int { before(); return c }
		withStatus()
	case 2:
		h = func() string { before(); return s }
		body = s
	case 3:
		h = func() (string, int) { before(); return s, c }
		body = s
		withStatus()
	case 4:
		h = func() []byte { before(); return []byte(s) }
		body = s
	case 5:
		h = func() ([]byte, int) { before(); return nil, c }
		withStatus()
	case 6:
		h = func() io.Reader { before(); return r }
		body = s
	case 7:
		h = func() (io.Reader, int) { before(); return rc, c }
		body, closes = s, 1
		withStatus()
	case 8:
		h = func() io.ReadCloser { before(); return rc }
		body, closes = s, 1
	case 9:
		h = func() *rdc { before(); return rc }
		body, closes = s, 1
	case 10:
		h = func() strip.ActionResult { before(); return &act{s} }
		body = "act:" + s
	case 11:
		h = func() (actVal, int) { before(); return actVal{s}, c }
		body = "actval:" + s
		withStatus()
	case 12:
		h = func() http.Handler { before(); return hnd{s} }
		body = "handler:GET" + s
	case 13:
		h = func() (hnd, int) { before(); return hnd{s}, c }
		body = "handler:GET" + s
		withStatus()
	case 14:
		h = func() (interface{}, int) { before(); return s, c }
		body = s
		withStatus()
	case 15:
		h = func() interface{} { before(); return []byte(s) }
		body = s
	case 16:
		h = func() interface{} { before(); return nil }
	case 17:
		h = func() error { before(); return errors.New(s) }
	case 18:
		h = func() (error, int) { before(); return nil, c }
		withStatus()
	case 19:
		h = func() *act { before(); return nil }
	case 20:
		h = func() int64 { before(); return 7 }
	case 21:
		h = func() (bool, int) { before(); return true, c }
		withStatus()
	case 22:
		h = func() struct{ A string } { before(); return struct{ A string }{s} }
	case 23:
		h = func() (float64, int) { before(); return 1.5, c }
		withStatus()
	case 24:
		h = func() map[string]string { before(); return map[string]string{s: s} }
	case 25:
		h = func() [2]byte { before(); return [2]byte{1, 2} }
	case 26:
		h = func() (string, []byte, int) { before(); return "no", []byte(s), c }
		body = s
		withStatus()
	case 27:
		h = func() (int, string) { before(); return c, s }
		body = s
	case 28:
		h = func() (int, int) { before(); return 5, c }
		withStatus()
	case 29:
		h = func() (uint, code) { before(); return 5, code(c) }
		withStatus()
	case 30:
		h = func() (chan int, func()) { before(); return nil, nil }
	case 31:
		h = func() http.HandlerFunc {
			before()
			return func(rw http.ResponseWriter, _ *http.Request) { rw.WriteHeader(c); rw.Write([]byte(s)) }
		}
		body = s
		withStatus()
	}
	app, _ := hx.App()
	app.Filter(strip.GenericOutFilter())
	app.Filter(func(x http.ResponseWriter) { w = x })
	app.Routers(strip.Get(h))
	rec := hx.NewRec()
	escaped := sym.Panics(func() { app.ServeHTTP(rec, hx.Request("GET", "/")) })
	sym.Assert(!escaped, "filter-panics")
	sym.Observe("code", rec.Code())
	sym.Observe("body", rec.Body)
	sym.Assert(len(rec.Codes) == 1, "one-response")
	switch pre {
	case 1:
		sym.Cover("already")
		sym.Assert(rec.Codes[0] == 202 && len(rec.Body) == 0, "response-overridden")
		return
	case 2:
		sym.Assert(rec.Codes[0] == 200 && string(rec.Body) == "own", "response-overridden")
		return
	}
	if status == 0 {
		sym.Cover("nostatus")
		status = 200
	} else {
		sym.Cover("status")
	}
	sym.Assert(rec.Codes[0] == status, "status")
	sym.Assert(string(rec.Body) == body, "body")
	sym.Assert(rc.closed == closes, "reader-closed")
}

type ctl struct{}

func (ctl) Get(a string) (string, int) { return "got " + a, 201 }
func (ctl) Post() []byte               { return []byte("post") }
func (ctl) Put() *act                  { return &act{"x"} }

// Controller actions, not-found handlers and a missing filter.
func H_controller() {
	app, _ := hx.App()
	with := sym.Choose("filter", 2) == 1
	if with {
		app.Filter(strip.GenericOutFilter())
	}
	app.Routers(strip.Router("/:a", strip.Get(ctl{}), strip.Post(ctl{}), strip.Put(&ctl{})))
	a := sym.StringOf("a", 2, hx.SegChars)
	m := []string{"GET", "POST", "PUT", "DELETE"}[sym.Choose("method", 4)]
	rec := hx.Serve(app, m, "/"+a)
	want, code := map[string]string{"GET": "got " + a, "POST": "post", "PUT": "act:x", "DELETE": "404 Not Found"}[m], 200
	if m == "GET" {
		code = 201
	}
	if !with && m != "DELETE" {
		want, code = "", 200
	}
	if m == "DELETE" {
		code = 404
	}
	sym.Assert(rec.Code() == code, "status")
	sym.Assert(string(rec.Body) == want, "body")
}

// A connection that breaks while a reader is copied: the reader is closed all the same.
func H_broken() {
	s := sym.String("body", 3)
	rc := &rdc{rd{data: s}}
	app, _ := hx.App()
	app.Filter(strip.GenericOutFilter())
	app.Routers(strip.Get(func() (io.ReadCloser, int) { return rc, 200 }))
	rec := hx.NewRec()
	rec.FailAfter = sym.Choose("after", 3)
	app.ServeHTTP(rec, hx.Request("GET", "/"))
	sym.Assert(rc.closed == 1, "reader-closed")
	sym.Assert(string(rec.Body) == s[:rec.FailAfter], "body")
}

type large struct {
	*strings.Reader
	closed int
}

func (l *large) Close() error { l.closed++; return nil }

// Large results.
//
//sym:covers text bytes reader closer
func H_large() {
	s := hx.Long("body", sym.Bound(65537, 65537), "\x00<\xff")
	app, _ := hx.App()
	app.Filter(strip.GenericOutFilter())
	rc := &large{Reader: strings.NewReader(s)}
	var h interface{}
	closes := 0
	switch sym.Choose("kind", 4) {
	case 0:
		sym.Cover("text")
		h = func() string { return s }
	case 1:
		sym.Cover("bytes")
		h = func() ([]byte, int) { return []byte(s), 200 }
	case 2:
		sym.Cover("reader")
		h = func() io.Reader { return strings.NewReader(s) }
	case 3:
		sym.Cover("closer")
		h = func() io.ReadCloser { return rc }
		closes = 1
	}
	app.Routers(strip.Get(h))
	rec := hx.NewRec()
	app.ServeHTTP(rec, hx.Request("GET", "/"))
	sym.Assert(rec.Code() == 200 && string(rec.Body) == s, "body")
	sym.Assert(rc.closed == closes, "closed-once")
}

package h

import (
	"errors"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds panics of 10 kinds of value (texts of 3 arbitrary bytes) raised in 8 places (later filter before and after Next, router filter, handler, not-found handler, provider function, controller method, before-hook), with the response untouched, a status set (any of 200..999), a body written or flushed before, in the three run modes and any other mode text of 3 bytes; panic texts of up to 4097 (thorough 65537) bytes, below 0 or 65 (257) filters
//sym:assume the panic value is not nil

type bad struct{}

func (bad) Error() string { panic("inside Error") }

type user struct{ name string }

func (u *user) String() string { return u.name }

type dep struct{}

type ctl struct{ f func() }

func (c ctl) Get() { c.f() }

type plainWriter struct{ http.ResponseWriter }

//sym:covers dev prod started fresh
func H_recovery() {
	secret := sym.StringOf("secret", 3, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789<>&%")
	var val interface{}
	marked := true // the text of the value shows in its printed form
	switch sym.Choose("value", 10) {
	case 0:
		val = "v:" + secret
	case 1:
		val = errors.New("v:" + secret)
	case 2:
		val = &user{"v:" + secret}
	case 3:
		val = user{"v:" + secret}
	case 4:
		val, marked = 42, false
	case 5:
		val, marked = bad{}, false
	case 6:
		val, marked = (*user)(nil), false
	case 7:
		val = []string{"v:" + secret}
	case 8:
		val, marked = http.ErrAbortHandler, false
	case 9:
		var m map[string]int
		val, marked = nil, false
		_ = m
	}
	raise := func() {
		if val == nil {
			var m map[string]int
			m["x"] = 1 // a run-time panic
		}
		panic(val)
	}
	started := sym.Choose("started", 4)
	code := 0
	touch := func(w http.ResponseWriter) {
		switch started {
		case 1:
			code = sym.IntRange("code", 200, 999)
			w.WriteHeader(code)
		case 2:
			code = 200
			w.Write([]byte("part"))
		case 3:
			code = 200
			w.(http.Flusher).Flush()
		}
	}
	app, log := hx.App()
	mode := ""
	switch sym.Choose("mode", 4) {
	case 0:
		mode = string(strip.ModeDev)
	case 1:
		mode = string(strip.ModeTest)
	case 2:
		mode = string(strip.ModeProd)
	case 3:
		mode = sym.ASCII("mode", 3)
	}
	app.Config.RunMode = strip.Mode(mode)
	app.Filter(strip.RecoveryFilter())
	wrap := sym.Choose("wrap", 3)
	// a router filter that puts its own writer in place
	var own []interface{}
	if wrap == 1 {
		own = append(own, func(ctx strip.Context, w http.ResponseWriter) {
			ctx.ProvideAs(&plainWriter{w}, (*http.ResponseWriter)(nil))
		})
		if started == 3 {
			sym.Stop()
		}
	}
	if wrap == 2 {
		// a logger that cannot be resolved
		app.Filter(func(ctx strip.Context) {
			ctx.ProvideAs(func(d *dep) strip.Logger { return nil }, (*strip.Logger)(nil))
		})
	}
	path := "/"
	handler := func(w http.ResponseWriter) { touch(w); raise() }
	switch sym.Choose("where", 8) {
	case 0:
		app.Filter(handler)
	case 1:
		app.Filter(func(ctx strip.Context, w http.ResponseWriter) { ctx.Next(); touch(w); raise() })
		app.Routers(strip.Filter(own...), strip.Get(func() {}))
	case 2:
		app.Routers(strip.Filter(append(own, handler)...), strip.Get(func() {}))
	case 3:
		app.Routers(strip.Filter(own...), strip.Get(handler))
	case 4:
		app.NotFound(handler)
	case 5:
		app.Filter(func(ctx strip.Context, w http.ResponseWriter) {
			ctx.Provide(func() *user { touch(w); raise(); return nil })
		})
		app.Routers(strip.Filter(own...), strip.Get(func(*user) {}))
	case 6:
		if started != 0 {
			sym.Stop()
		}
		app.Routers(strip.Get(ctl{raise}))
	case 7:
		if started != 0 || wrap == 1 {
			sym.Stop()
		}
		app.Routers(strip.Get(func(w http.ResponseWriter) {
			w.(strip.ResponseWriter).Before(func(strip.ResponseWriter) { raise() })
			w.Write([]byte("body"))
		}))
	}
	rec := hx.NewRec()
	escaped := sym.Panics(func() { app.ServeHTTP(rec, hx.Request("GET", path)) })
	sym.Assert(!escaped, "panic-escapes")
	sym.Assert(len(rec.Codes) == 1, "one-response")
	if started == 0 {
		sym.Cover("fresh")
		code = 500
	} else {
		sym.Cover("started")
	}
	sym.Assert(rec.Codes[0] == code, "status")
	body := string(rec.Body)
	if mode != "dev" {
		sym.Cover("prod")
		part := ""
		if started == 2 {
			part = "part"
		}
		sym.Assert(body == part, "body-outside-dev-mode")
	} else {
		sym.Cover("dev")
		if marked && started == 0 {
			sym.Assert(strings.Contains(body, "v:"+secret), "value-shown-in-dev-mode")
		}
	}
	if wrap != 2 {
		sym.Assert(len(log.Lines) == 1, "logged-once")
		if marked {
			n := 0
			for _, l := range log.Lines {
				if strings.Contains(l, "PANIC") {
					n++
				}
			}
			sym.Assert(n == 1, "panic-logged")
		}
	}
}

// Long panic values, and panics under many filters.
func H_large() {
	secret := hx.Long("secret", sym.Bound(4097, 65537), "<&%xyz")
	dev := sym.Choose("mode", 2) == 0
	var val interface{} = secret
	if sym.Choose("error", 2) == 1 {
		val = errors.New(secret)
	}
	app, log := hx.App()
	app.Config.RunMode = strip.ModeProd
	if dev {
		app.Config.RunMode = strip.ModeDev
	}
	app.Filter(strip.RecoveryFilter())
	for i := sym.Choose("filters", 2) * sym.Bound(65, 257); i > 0; i-- {
		app.Filter(func(ctx strip.Context) { ctx.Next() })
	}
	app.Routers(strip.Get(func() { panic(val) }))
	rec := hx.NewRec()
	escaped := sym.Panics(func() { app.ServeHTTP(rec, hx.Request("GET", "/")) })
	sym.Assert(!escaped, "panic-escapes")
	sym.Assert(len(rec.Codes) == 1 && rec.Codes[0] == 500, "status")
	if dev {
		sym.Assert(strings.Contains(string(rec.Body), secret), "value-shown-in-dev-mode")
	} else {
		sym.Assert(len(rec.Body) == 0, "body-outside-dev-mode")
	}
	sym.Assert(len(log.Lines) == 1 && strings.Contains(log.Lines[0], secret), "panic-logged")
}

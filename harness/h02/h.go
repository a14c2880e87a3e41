package h

import (
	"context"
	"io/ioutil"
	"net/http"
	"os"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	"github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/helpers"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
	"github.com/wujiu2020/strip/zz_verif/symfs"
)

//sym:bounds up to 3 (thorough 4) options, each a log setting, a hook that adds a filter (which passes, calls Next, answers or panics) or something else; run modes dev, test, prod and another; one request, to a route or to none, whose handler returns or writes any status of 200..999 and a text of arbitrary bytes, or panics, after it logged a text with a line break; contexts of up to 3 (4) layers, each a logger, a value of another type, one under another name, or a deadline
//sym:assume what goes to the standard error output arrives there

// the records, without the date and the time in front
func records(text string) (out []string) {
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "["); i >= 0 {
			l = l[i:]
		}
		out = append(out, l)
	}
	return out
}

func count(text, part string) int { return strings.Count(text, part) }

//sym:covers logged panicked answered bad default given
func H_setup() {
	mode := []string{"dev", "test", "prod", "stage"}[sym.Choose("mode", 4)]
	setup(mode, sym.Bound(3, 4), 2)
}

func H_answers() { setup("prod", sym.Bound(2, 3), 5) }

func H_dev() { setup("dev", 0, 5) }

func setup(mode string, max, outcomes int) {
	app, own := hx.App()
	app.Config.RunMode = strip.Mode(mode)

	file, err := os.OpenFile(symfs.Dir()+"/err", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	sym.Assert(err == nil, "open")
	was := os.Stderr
	os.Stderr = file
	defer func() { os.Stderr = was; file.Close() }()

	var steps, want []string
	step := func(s string) { steps = append(steps, s) }
	var hooks []string // the hooks that were called
	var opts []interface{}
	var kinds []int
	prefix, bad := "", false
	n := sym.Choose("options", max+1)
	for i := 0; i < n; i++ {
		name := strconv.Itoa(i)
		kind := sym.Choose("option", 6)
		switch kind {
		case 0:
			prefix = "<" + name + ">"
			p := prefix
			opts = append(opts, reqlogger.LoggerOption{
				PrefixFilter: func(strip.Context, http.ResponseWriter, *http.Request, string) string { return p },
			})
		case 1, 2, 3, 4:
			kinds = append(kinds, kind)
			k := kind
			opts = append(opts, helpers.HookFunc(func(sp *strip.Strip, flag helpers.HookFlag) {
				sym.Assert(sp == app && flag == helpers.HookFlagBeforeAll, "hook-arguments")
				hooks = append(hooks, name)
				sp.Filter(func(ctx strip.Context, rw http.ResponseWriter) {
					step("in" + name)
					switch k {
					case 2:
						ctx.Next()
						step("out" + name)
					case 3:
						rw.WriteHeader(http.StatusTeapot)
						rw.Write([]byte("tea"))
					case 4:
						panic("filter " + name)
					}
				})
			}))
		case 5:
			bad = true
			switch sym.Choose("other", 3) {
			case 0:
				opts = append(opts, "hook")
			case 1:
				opts = append(opts, nil)
			case 2:
				opts = append(opts, &reqlogger.LoggerOption{})
			}
		}
	}
	panicked := sym.Panics(func() { helpers.LoadClassicFilters(app, opts...) })
	sym.Assert(panicked == bad, "other-options-are-refused")
	if bad {
		sym.Cover("bad")
		return
	}
	sym.Assert(len(hooks) == len(kinds), "hooks-called-once")
	for i := 1; i < len(hooks); i++ {
		sym.Assert(hooks[i-1] < hooks[i], "hooks-in-order")
	}

	outcome := sym.Choose("outcome", outcomes)
	status := 404
	if outcome == 0 || outcome == 2 {
		status = sym.IntRange("status", 200, 999)
	}
	body := "b" + sym.String("body", 2)
	say := func(log strip.Logger) {
		step("handler")
		log.Infof("one\ntwo")
	}
	path := "/x"
	switch outcome {
	case 0:
		app.Routers(strip.Router("/x", strip.Get(func(log strip.Logger) (string, int) { say(log); return body, status })))
	case 1:
		app.Routers(strip.Router("/x", strip.Get(func(log strip.Logger) { say(log); panic("handler") })))
	case 2:
		app.Routers(strip.Router("/x", strip.Get(func(log strip.Logger, rw http.ResponseWriter) string {
			say(log)
			rw.WriteHeader(status)
			rw.Write([]byte(body))
			return "no more"
		})))
	case 3:
		app.NotFound(func(log strip.Logger, rw http.ResponseWriter) { say(log); rw.WriteHeader(404) })
		path = "/y"
	case 4:
		app.Routers(strip.Router("/x", strip.Get(func(log strip.Logger) {
			say(log)
			panic(&params.Params{})
		})))
	}

	rec := hx.NewRec()
	escaped := sym.Panics(func() { app.ServeHTTP(rec, hx.Request("GET", path)) })
	sym.Assert(!escaped, "panic-escapes")
	data, err := ioutil.ReadFile(symfs.Dir() + "/err")
	sym.Assert(err == nil, "read")
	text := string(data)

	// what goes through the filters of the hooks, outermost first
	code, content, logged, thrown := 0, "", true, false
	var after []string
	names := hooks
	for i, k := range kinds {
		want = append(want, "in"+names[i])
		if k == 2 {
			after = append([]string{"out" + names[i]}, after...)
		}
		if k == 3 {
			code, content, logged = http.StatusTeapot, "tea", false
			break
		}
		if k == 4 {
			code, logged, thrown, after = 500, false, true, nil
			break
		}
	}
	if logged {
		want = append(want, "handler")
		switch outcome {
		case 0:
			code, content = status, body
		case 1, 4:
			code, thrown, after = 500, true, nil
		case 2:
			code, content = status, body
		case 3:
			code = 404
		}
	}
	want = append(want, after...)
	sym.Assert(strings.Join(steps, ",") == strings.Join(want, ","), "order")
	sym.Assert(len(rec.Codes) == 1 && rec.Codes[0] == code, "status")
	if thrown {
		sym.Cover("panicked")
		if mode != "dev" {
			sym.Assert(len(rec.Body) == 0, "panic-body")
		}
	} else {
		sym.Cover("answered")
		sym.Assert(string(rec.Body) == content, "body")
	}

	// the log of the requests is on the standard error output
	panics := 0
	for _, l := range own.Lines {
		panics += count(l, "PANIC")
	}
	sym.Assert(panics+count(text, "PANIC") >= 1 == thrown, "panic-logged")
	begin, end := count(text, "[REQ_BEG] GET h"+path), count(text, "[REQ_END]")
	if !logged {
		sym.Assert(begin == 0 && end == 0, "answered-before-the-log")
		return
	}
	sym.Cover("logged")
	sym.Assert(begin == 1, "begin-record")
	if thrown {
		sym.Assert(end <= 1, "end-record-of-a-panic")
	} else {
		sym.Assert(end == 1 && count(text, "[REQ_END] "+strconv.Itoa(code)+" ") == 1, "end-record")
		sym.Assert(len(rec.Sent["X-Reqid"]) == 1, "request-id")
		id := rec.Sent["X-Reqid"][0]
		sym.Assert(count(text, "["+id+"]") == 3, "records-have-the-id")
	}
	if prefix != "" {
		// the last setting is the one
		sym.Cover("given")
		sym.Assert(count(text, "]"+prefix+" ") >= 2, "setting")
		sym.Assert(count(text, ">") == count(text, prefix), "other-settings")
	} else {
		sym.Cover("default")
		sym.Assert(count(text, "h.go:") >= 1, "line-info")
		sym.Assert(count(text, "\x1b[") > 0 == (mode == "dev"), "colors-in-development-only")
		if mode == "prod" && !thrown {
			sym.Assert(count(text, "\n") == 3, "a-line-each-in-production")
		}
	}
	if mode == "prod" && prefix == "" {
		sym.Assert(count(text, " one\\ntwo\n") == 1, "own-record")
	} else {
		sym.Assert(count(text, " one\ntwo\n") == 1, "own-record")
	}
}

// H_providers: the handlers find the parameters of the request.
func H_providers() {
	app, _ := hx.App()
	helpers.LoadClassicFilters(app, reqlogger.LoggerOption{})
	helpers.LoadClassicProviders(app)
	val := sym.StringOf("value", 2, "abcXYZ019-_")
	got, calls := "", 0
	app.Routers(strip.Router("/x", strip.Get(func(p *params.Params) { calls++; got = p.Get("a") })))
	req := hx.Request("GET", "/x")
	req.URL.RawQuery = "a=" + val
	app.ServeHTTP(hx.NewRec(), req)
	sym.Assert(calls == 1 && got == val, "parameters")
}

type quiet struct{ n int }

func (q *quiet) Print(v ...interface{}) { q.n++ }

type other interface{ Info(v ...interface{}) }

// H_logger: the nearest logger of a context, or the global one.
func H_logger() {
	ctx := context.Background()
	var want strip.Logger = helpers.X
	var ctxs []context.Context
	var wants []strip.Logger
	ctxs, wants = append(ctxs, ctx), append(wants, want)
	n := sym.Choose("layers", sym.Bound(4, 5))
	for i := 0; i < n; i++ {
		from := len(ctxs) - 1
		if i > 0 && sym.Bool("from-first") {
			from = 0
		}
		ctx, want = ctxs[from], wants[from]
		var l strip.Logger = strip.NewLogger(&quiet{})
		switch sym.Choose("layer", 6) {
		case 0:
			ctx, want = helpers.WithLogger(ctx, l), l
			sym.Cover("logger")
		case 1:
			var o other = l
			ctx = utils.CtxWithValue(ctx, &o)
		case 2:
			ctx = utils.CtxWithValue(ctx, &l, "other")
		case 3:
			c, cancel := context.WithCancel(ctx)
			defer cancel()
			ctx = c
		case 4:
			var r strip.ReqLogger = strip.NewReqLogger(&quiet{}, "id")
			ctx = utils.CtxWithValue(ctx, &r)
		case 5:
			var r strip.ReqLogger = strip.NewReqLogger(&quiet{}, "id")
			ctx, want = helpers.WithLogger(ctx, r), r
		}
		ctxs, wants = append(ctxs, ctx), append(wants, want)
	}
	for i := range ctxs {
		sym.Assert(helpers.GetLogger(ctxs[i]) == wants[i], "nearest-logger")
	}
}

// H_global: the global logger as the one of the application.
func H_global() {
	app, own := hx.App()
	mode := []string{"dev", "test", "prod", "stage"}[sym.Choose("mode", 4)]
	app.Config.RunMode = strip.Mode(mode)
	helpers.UseGlobalLogger(app)
	sym.Assert(app.Logger() == strip.Logger(helpers.X), "logger-of-the-application")
	var got strip.Logger
	var gotReq strip.ReqLogger
	app.Routers(strip.Router("/x", strip.Get(func(l strip.Logger, r strip.ReqLogger) { got, gotReq = l, r })))
	hx.Serve(app, "GET", "/x")
	sym.Assert(got == strip.Logger(helpers.X), "logger-of-the-handlers")
	sym.Assert(gotReq != nil && gotReq == strip.ReqLogger(helpers.X.(strip.ReqLogger)), "request-logger-of-the-handlers")
	sym.Assert(len(own.Lines) == 0, "no-records-elsewhere")
}

package h

import (
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/gzip"
	"github.com/wujiu2020/strip/params"
	"github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/utils/apires"
	"github.com/wujiu2020/strip/zz_verif/gz"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:race
//sym:stress 30
//sym:bounds an application with recovery, request log, action output, parameters, filters of routers, providers of the application (values, functions) and of requests, function and struct handlers, API errors shared by requests, in development and production mode; 17 kinds of request (static, parameter, verb and wildcard routes, routes with the same prefix, HEAD, All and Any, filters that stop, panics, injected values, form and query parameters, none found), each with an arbitrary byte of a list in it; every two of them at the same time, in production mode, with every schedule of up to 1 (thorough 2) preemptions at synchronisation, with every data race of them reported; every sequence of 2 (3) of them; with gzip, in development mode, every two of 4 kinds
//sym:assume handlers and providers of the application share nothing but what the framework gives them

type lines struct {
	mu  sync.Mutex
	all []string
}

func (l *lines) Print(v ...interface{}) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.all = append(l.all, fmt.Sprint(v...))
}

// of gives the records of the request with the id.
func (l *lines) of(id string) string {
	out := ""
	for _, s := range l.all {
		if !strings.Contains(s, id) {
			continue
		}
		if strings.Contains(s, "PANIC") {
			s = s[:strings.Index(s, "\n")] // without the stack
		}
		if strings.Contains(s, "[REQ_END]") {
			s = s[:strings.LastIndex(s, " ")] // without the time it took
		}
		out += strings.Replace(s, id, "<id>", -1) + "\n"
	}
	return out
}

// what the application provides
type appValue struct{ n int }
type whoami struct{ name string }     // made for each request from it
type counter struct{ who *whoami }    // made from whoami
type stamp struct{ text string }      // put in by a filter
type iface interface{ Text() string } // provided by a filter under an interface

func (s *stamp) Text() string { return s.text }

type ctl struct {
	Req  *http.Request       `inject`
	Rw   http.ResponseWriter `inject`
	Who  *whoami             `inject`
	Val  *appValue           `inject:"v"`
	Info *strip.RouteInfo    `inject`
	Log  strip.Logger        `inject`
	seen int
}

func (c *ctl) Get(id string, n int) {
	c.seen++
	fmt.Fprintf(c.Rw, "get %s %d %s %d %v %s %d", id, n, c.Who.name, c.Val.n, c.Info.Values, c.Info.Path, c.seen)
	c.Log.Info("in get", id)
}

func (c *ctl) Post(id string) (interface{}, int) {
	c.seen++
	return "post " + id + c.Who.name, 201 + c.seen
}

func (c *ctl) Any(id string) string { return c.Req.Method + " " + id }

func newApp(out *lines, mode string, zip bool) *strip.Strip {
	// errors every request gets, or ones made from them
	notHere := apires.NewResError(404, 7, "not here")
	bare := apires.NewResError(410, 0, "")
	app := strip.New()
	app.SetLogger(strip.NewLogger(out))
	app.Config.RunMode = strip.Mode(mode)
	app.Provide(func(req *http.Request) *whoami { return &whoami{req.Header.Get("X-Who")} })
	app.Provide(func(w *whoami) *counter { return &counter{w} })
	app.ProvideAs(&appValue{5}, (*appValue)(nil), "v")
	app.Provide(params.ParamsParser())
	app.Filter(
		strip.RecoveryFilter(),
		reqlogger.ReqLoggerFilter(out),
	)
	if zip {
		app.Filter(gzip.All())
	}
	app.Filter(strip.GenericOutFilter())
	app.Filter(func(ctx strip.Context, req *http.Request) {
		s := &stamp{"s" + req.Header.Get("X-Who")}
		ctx.Provide(s)
		ctx.ProvideAs(s, (*iface)(nil))
		ctx.ReplaceContext(utils.CtxWithValue(ctx.GetContext(), &s))
	})
	guard := func(rw http.ResponseWriter, req *http.Request) {
		if req.Header.Get("X-Who") == "0" {
			rw.WriteHeader(401)
		}
	}
	tail := func(rw http.ResponseWriter) { rw.Header().Add("X-Tail", "t") }
	app.NotFound(func(rw http.ResponseWriter, w *whoami) { rw.WriteHeader(404); io.WriteString(rw, "none for "+w.name) })
	app.Routers(
		strip.Get(func() string { return "root" }),
		strip.Router("/u", strip.Filter(guard),
			strip.Router(":id", strip.Get(&ctl{}), strip.Post((*ctl)(nil)), strip.Any(&ctl{})),
			strip.Router(":id/:n", strip.Get(&ctl{}), strip.Filter(tail)),
			strip.Router(":id:close", strip.Exempt(guard), strip.Get(func(i *strip.RouteInfo) string { return "close " + i.Get("id") })),
			strip.Router("me", strip.All(func(c *counter) string { return "me " + c.who.name })),
		),
		strip.Router("/w/*:rest", strip.Get(func(i *strip.RouteInfo) string { return "rest " + i.Get("rest") })),
		strip.Router("/boom", strip.Get(func(w *whoami) { panic("boom " + w.name) })),
		strip.Router("/err", strip.Get(func(p *params.Params) interface{} {
			var n int
			p.Bind(&n, "n")
			if n == 1 {
				return bare.WithData(n, "m"+p.Get("n"))
			}
			return bare.WithMsg("m" + p.Get("n"))
		})),
		strip.Router("/same", strip.Get(func() interface{} { return notHere }),
			strip.Post(func() interface{} { return bare })),
		strip.Router("/form", strip.Post(func(p *params.Params) string { return p.Form.Get("a") + p.Query.Get("a") + fmt.Sprint(p.Values["a"]) })),
		strip.Router("/inj", strip.Get(func(s *stamp, i iface, ctx strip.Context, l strip.Logger) string {
			var t *stamp
			utils.CtxFindValue(ctx, &t)
			l.Warn("inj", s.text)
			return s.text + i.Text() + t.text
		})),
	)
	return app
}

const kinds = 17

func request(kind int, who, id string) *http.Request {
	method, path, query, body := "GET", "/", "", ""
	switch kind {
	case 0:
		path = "/u/" + who
	case 1:
		path = "/err"
		query = "n=" + who
	case 2:
		path = "/boom"
	case 3:
		method, path, query, body = "POST", "/form", "a=q"+who, "a=f"+who
	case 4:
		path = "/inj"
	case 5:
		path = "/u/" + who + "/" + who + "2"
	case 6:
		path = "/w/a/" + who
	case 7:
		path = "/none/" + who
	case 8:
		path = "/u/me"
	case 9:
		path = "/u/" + who + ":close"
	case 10:
		method, path = "POST", "/u/"+who
	case 11:
		method, path = "PUT", "/u/"+who
	case 12:
		method, path = "head", "/u/"+who
	case 13:
		path = "/same"
	case 15:
		method, path = "POST", "/same"
	case 14:
		method, path = "DELETE", "/w/"+who
	}
	req := hx.Request(method, path)
	req.URL.RawQuery = query
	req.Header.Set("X-Who", who)
	req.Header.Set("X-Reqid", id)
	req.Header.Set("Accept-Encoding", "gzip")
	req.RemoteAddr = "10.0.0." + who + ":1"
	if body != "" {
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		req.Body = io.NopCloser(strings.NewReader(body))
	}
	return req
}

type result struct {
	code   int
	body   string
	header string
	log    string
}

func (r *result) take(rec *hx.Rec, out *lines, id string) {
	r.code = rec.Code()
	r.body = string(rec.Body)
	if rec.Sent.Get("Content-Encoding") == "gzip" {
		data, whole := gz.Decode(rec.Body)
		sym.Assert(whole, "not-a-whole-stream")
		r.body = "gz:" + string(data)
	}
	if strings.Contains(r.body, "<html") { // the page of a panic shows the stack
		r.body = r.body[:strings.Index(r.body, "<html")] + "html"
	}
	h := url.Values{}
	for k, v := range rec.Sent {
		if k != "X-Response-Time" {
			h[k] = v
		}
	}
	r.header = strings.Replace(h.Encode(), id, "<id>", -1)
	r.log = out.of(id)
}

// alone is what the request gets from an application of its own.
func alone(mode string, zip bool, kind int, who string) (r result) {
	out := &lines{}
	rec := hx.NewRec()
	newApp(out, mode, zip).ServeHTTP(rec, request(kind, who, "ididididid-x"))
	r.take(rec, out, "ididididid-x")
	return
}

func same(got, want result, what string) {
	sym.Assert(got.code == want.code, "another-status-"+what)
	sym.Assert(got.body == want.body, "another-body-"+what)
	sym.Assert(got.header == want.header, "another-header-"+what)
	sym.Assert(got.log == want.log, "other-records-"+what)
}

var ids = []string{"ididididid-0", "ididididid-1", "ididididid-2", "ididididid-3"}

func mode(label string) string { return []string{"prod", "dev"}[sym.Choose(label, 2)] }

// Two requests at the same time.
//
//sym:covers both
//sym:preempt 1 2
func H_atonce() { together(kinds, false) }

//sym:covers both
//sym:preempt 1 2
func H_gzip() { together(4, true) }

func together(n int, zip bool) {
	m := "prod"
	if zip {
		m = "dev"
	}
	var kind [2]int
	var who [2]string
	var want [2]result
	for i := range kind {
		kind[i] = sym.Choose("kind", n)
		who[i] = sym.StringOf("who", 1, "01aA")
		want[i] = alone(m, zip, kind[i], who[i])
	}
	sym.Assume(kind[0] <= kind[1])
	out := &lines{}
	app := newApp(out, m, zip)
	sym.Race()
	var wg sync.WaitGroup
	recs := []*hx.Rec{hx.NewRec(), hx.NewRec()}
	for i := range kind {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			app.ServeHTTP(recs[i], request(kind[i], who[i], ids[i]))
		}(i)
	}
	wg.Wait()
	for i := range kind {
		var got result
		got.take(recs[i], out, ids[i])
		same(got, want[i], "at-once")
	}
	sym.Cover("both")
}

// One after another.
//
//sym:covers all
func H_after() {
	m := mode("mode")
	zip := sym.Choose("gzip", 2) == 1
	out := &lines{}
	app := newApp(out, m, zip)
	for i := 0; i < sym.Bound(2, 3); i++ {
		kind := sym.Choose("kind", kinds)
		who := sym.StringOf("who", 1, "01aA")
		rec := hx.NewRec()
		app.ServeHTTP(rec, request(kind, who, ids[i]))
		var got result
		got.take(rec, out, ids[i])
		same(got, alone(m, zip, kind, who), "after")
	}
	sym.Cover("all")
}

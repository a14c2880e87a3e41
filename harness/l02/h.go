package h

import (
	"fmt"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zz_verif/clock"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:native request-logger/*.go clock
//sym:bounds incoming ids of 0, 9, 10, 11, 32 and 33 arbitrary letters and digits; methods of a list; every sequence of up to 2 (thorough 3) of: a status, a write of 0, 1 or 1500 bytes, a flush, a change of the id in the response header, a record of the handler; answered by a handler, a filter after or before the router, or nobody; with and without filters for the id, the prefix and the records; flat or not; client addresses of 4 octets of one arbitrary digit and IPv6 ones, with and without a port, in three headers; up to 3 (4) ids at arbitrary times between 1970 and 2160, and 2 made at the same time by two goroutines
//sym:assume the handling of the request returns (a panic that passes the filter leaves no end record); base64 is executed as it is

type lines struct{ all []string }

func (l *lines) Print(v ...interface{}) { l.all = append(l.all, fmt.Sprint(v...)) }

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_="

func app(out strip.LogPrinter, opts ...reqlogger.LoggerOption) *strip.Strip {
	app, _ := hx.App()
	app.Config.RunMode = strip.Mode("prod")
	app.Filter(reqlogger.ReqLoggerFilter(out, opts...))
	return app
}

func H_request() {
	out := &lines{}
	var opt reqlogger.LoggerOption
	filters := sym.Choose("filters", 4)
	id2, prefix := "", ""
	switch filters {
	case 1:
		opt.ReqidFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, id string) string {
			id2 = "f-" + id
			return id2
		}
		opt.PrefixFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, content string) string {
			prefix = "<p>"
			return prefix
		}
		opt.FlatLine = true
	case 2:
		opt.ReqBegFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, content string) string { return "" }
		opt.ReqEndFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, content string) string {
			return content + " more"
		}
	case 3:
		opt.ReqBegFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, content string) string {
			return content + " more"
		}
		opt.ReqEndFilter = func(ctx strip.Context, rw http.ResponseWriter, req *http.Request, content string) string { return "" }
	}
	a := app(out, opt)

	method := []string{"GET", "POST", "HEAD", "PATCH"}[sym.Choose("method", 4)]
	incoming := sym.StringOf("id", []int{0, 9, 10, 11, 32, 33}[sym.Choose("id-size", 6)], letters)

	rec := hx.NewRec()
	status, size := 0, 0
	sent := false
	var seen []string // the ids the handler has seen
	var own []string  // what the handler logged
	handler := func(rw http.ResponseWriter, req *http.Request, log strip.ReqLogger, plain strip.Logger, ctx strip.Context) {
		seen = append(seen, log.ReqId(), plain.(strip.ReqLogger).ReqId(), req.Header.Get("X-Reqid"))
		var found strip.Logger
		sym.Assert(utils.CtxFindValue(req.Context(), &found) == nil, "logger-in-request")
		seen = append(seen, found.(strip.ReqLogger).ReqId())
		sym.Assert(utils.CtxFindValue(ctx.GetContext(), &found) == nil, "logger-in-context")
		seen = append(seen, found.(strip.ReqLogger).ReqId())
		n := sym.Choose("ops", sym.Bound(3, 4))
		for i := 0; i < n; i++ {
			switch sym.Choose("op", 5) {
			case 0:
				s := []int{200, 404, 503}[sym.Choose("status", 3)]
				rw.WriteHeader(s)
				if !sent {
					status = s
				}
			case 1:
				m := []int{0, 1, 1500}[sym.Choose("size", 3)]
				rw.Write(make([]byte, m))
				sent = true
				size += m
			case 2:
				rw.(http.Flusher).Flush()
				sent = true
			case 3:
				rw.Header().Set("X-Reqid", "other")
			case 4:
				text := "own" + strconv.Itoa(i)
				log.Infof("%s", text)
				own = append(own, text)
			}
		}
	}
	where := sym.Choose("where", 4)
	path := "/x"
	switch where {
	case 0:
		a.Routers(strip.Router("/x", strip.Any(handler)))
	case 1:
		a.Filter(handler)
		a.NotFound(func() {})
	case 2:
		a.Routers(strip.Router("/x", strip.Filter(handler), strip.Any(func() {})))
	case 3:
		a.NotFound(handler)
	}
	req := hx.Request(method, path)
	req.URL.RawQuery = "q=1"
	if incoming != "" {
		req.Header.Set("X-Reqid", incoming)
	}
	a.ServeHTTP(rec, req)

	sym.Assert(len(seen) == 5, "handled-once")
	id := seen[0]
	for _, s := range seen {
		sym.Assert(s == id, "same-id")
	}
	if filters == 1 {
		sym.Assert(id == id2, "filtered-id")
		id2 = strings.TrimPrefix(id2, "f-")
	} else {
		id2 = id
	}
	if len(incoming) >= 10 && len(incoming) <= 32 {
		sym.Cover("incoming")
		sym.Assert(id2 == incoming, "incoming-id")
	} else {
		sym.Cover("fresh")
		sym.Assert(id2 != incoming && len(id2) >= 10 && len(id2) <= 32, "fresh-id")
		_, at := reqlogger.DecodeReqId(id2)
		sym.Assert(at >= clock.Start.UnixNano(), "id-time")
	}
	head := rec.Sent
	sym.Assert(head != nil, "answered")
	sym.Assert(len(head["X-Reqid"]) == 1 && head["X-Reqid"][0] == id, "response-id")
	times := head.Get("X-Response-Time")
	sym.Assert(strings.HasSuffix(times, "ms"), "response-time")

	// the records: the start, what the handler logged, the end
	if status == 0 {
		status = 200
	}
	start := "[INFO][" + id + "]" + prefix
	tail := "\n"
	if opt.FlatLine {
		tail = ""
	}
	k := 0
	next := func() string {
		if k == len(out.all) {
			sym.Fail("missing-record")
		}
		k++
		return out.all[k-1]
	}
	if filters != 2 {
		want := start + " [REQ_BEG] " + method + " h/x?q=1 1.2.3.4"
		if filters == 3 {
			want += " more"
		}
		sym.Assert(next() == want+tail, "start-record")
	}
	for _, text := range own {
		sym.Cover("own")
		sym.Assert(next() == start+" "+text, "own-record")
	}
	if filters != 3 {
		want := start + " [REQ_END] " + strconv.Itoa(status) + " " + thousandths(size) + "k "
		got := next()
		sym.Assert(strings.HasPrefix(got, want), "end-record")
		rest := got[len(want):]
		if filters == 2 {
			tail = " more" + tail
		}
		sym.Assert(strings.HasSuffix(rest, "ms"+tail), "end-time")
	}
	sym.Assert(k == len(out.all), "no-more-records")
}

// thousandths is a number of bytes in kilobytes.
func thousandths(size int) string {
	n := (size*1000 + 512) / 1024
	s := strconv.Itoa(n % 1000)
	return strconv.Itoa(n/1000) + "." + "000"[len(s):] + s
}

// H_address: the client is the one the first proxy saw, without a port.
func H_address() {
	out := &lines{}
	a := app(out)
	a.NotFound(func() {})
	addr := func(label string) (ip, with string) {
		d := func(i string) string { return sym.StringOf(label+i, 1, "0123456789") }
		switch sym.Choose(label, 6) {
		case 0:
			ip = d("a") + "." + d("b") + "." + d("c") + "." + d("d")
			return ip, ip
		case 1:
			ip = d("a") + "." + d("b") + "." + d("c") + "." + d("d")
			return ip, ip + ":" + d("p") + d("q")
		case 2:
			ip = "2001:db8::" + sym.StringOf(label+"x", 1, "0123456789abcdef")
			return ip, ip
		case 3:
			ip = "2001:db8::" + sym.StringOf(label+"x", 1, "0123456789abcdef")
			return ip, "[" + ip + "]"
		case 4:
			ip = "2001:db8::" + sym.StringOf(label+"x", 1, "0123456789abcdef")
			return ip, "[" + ip + "]:" + d("p")
		}
		return "::1", "[::1]:80"
	}
	req := hx.Request("GET", "/")
	want, text := addr("remote")
	req.RemoteAddr = text
	n := sym.Choose("forwarded", 3)
	if n > 0 {
		want, text = addr("forwarded-for")
		if sym.Choose("blanks", 2) == 1 {
			text = "  " + text + " "
		}
		if n > 1 {
			text += ", 9.9.9.9, 8.8.8.8"
		}
		req.Header.Set("X-Forwarded-For", text)
	}
	if sym.Choose("real", 2) == 1 {
		want = sym.StringOf("real-ip", 2, "0123456789abcdef")
		req.Header.Set("X-Real-Ip", " "+want+" ")
		sym.Cover("real")
	}
	a.ServeHTTP(hx.NewRec(), req)
	sym.Assert(strings.HasSuffix(out.all[0], " "+want+"\n"), "address")
}

func moment(label string) time.Time {
	return time.Unix(int64(sym.IntRange(label+"-s", 0, 6000000000)), int64(sym.Uint32(label+"-ns")>>2))
}

// H_unique: no two ids are the same, however the clock moves.
func H_unique() {
	n := sym.Bound(3, 4)
	ids := []string{reqlogger.NewReqId()}
	for i := 1; i < n; i++ {
		clock.Set(moment(strconv.Itoa(i)))
		ids = append(ids, reqlogger.NewReqId())
		for j := 0; j < i; j++ {
			sym.Assert(ids[i] != ids[j], "unique")
		}
	}
}

// H_still: the same when the clock stands still.
func H_still() {
	ids := []string{reqlogger.NewReqId()}
	clock.Set(moment("t"))
	var out lines
	a := app(&out)
	a.NotFound(func(log strip.ReqLogger) { ids = append(ids, log.ReqId()) })
	for i := 1; i < sym.Bound(3, 4); i++ {
		if sym.Choose("request", 2) == 1 {
			hx.Serve(a, "GET", "/")
		} else {
			ids = append(ids, reqlogger.NewReqId())
		}
		for j := 0; j < i; j++ {
			sym.Assert(ids[i] != ids[j], "unique")
		}
	}
}

//sym:preempt 2 3
func H_parallel() {
	done := make(chan string, 2)
	for i := 0; i < 2; i++ {
		go func() { done <- reqlogger.NewReqId() }()
	}
	a, b := <-done, <-done
	sym.Assert(a != b, "unique")
}

package h

import (
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds up to 4 (thorough 5) filters and handlers in a row, split in any way between application filters, router filters and the handler (or the not-found handlers), each with one of 10 behaviours: nothing, status, body, Next, Next then status, panic, Next recovering, Next then panic, Next twice, result of an injected type; rows of up to 129 (thorough 513) filters that each call Next, one of them ending the chain or none
//sym:assume no filter calls Next after it has written the response itself

const (
	plain = iota
	status
	body
	next
	nextStatus
	panics
	recovers
	nextPanic
	nextTwice
	result
	behaviours
)

var trace []string

func say(s string) { trace = append(trace, s) }

type res struct{ n int }

func makeFilter(name string, b int, code int) interface{} {
	f := func(ctx strip.Context, rw http.ResponseWriter) {
		say(name + "+")
		switch b {
		case status:
			rw.WriteHeader(code)
		case body:
			rw.Write([]byte(name))
		case next:
			ctx.Next()
		case nextStatus:
			ctx.Next()
			rw.WriteHeader(code)
		case panics:
			panic(name)
		case recovers:
			func() {
				defer func() {
					if recover() != nil {
						say(name + "!")
					}
				}()
				ctx.Next()
			}()
		case nextPanic:
			ctx.Next()
			panic(name)
		case nextTwice:
			ctx.Next()
			ctx.Next()
		}
		say(name + "-")
	}
	if b == result {
		return func(ctx strip.Context, rw http.ResponseWriter) *res {
			f(ctx, rw)
			return &res{1}
		}
	}
	return f
}

// model is the documented behaviour of a row of handlers.
type model struct {
	bs      []int
	pos     int
	written bool
	out     []string
	code    int
}

func (m *model) run(codes []int) (pan bool) {
	for m.pos < len(m.bs) {
		i := m.pos
		m.pos++
		if m.exec(i, codes) {
			return true
		}
		if m.written {
			m.pos = len(m.bs)
			return false
		}
	}
	return false
}

func (m *model) exec(i int, codes []int) bool {
	name := string(rune('a' + i))
	m.out = append(m.out, name+"+")
	set := func(c int) {
		m.code = c
		m.written = true
	}
	switch m.bs[i] {
	case status:
		set(codes[i])
	case body:
		if m.code == 0 {
			m.code = 200
		}
		m.written = true
	case next, nextTwice:
		if m.run(codes) {
			return true
		}
	case nextStatus:
		if m.run(codes) {
			return true
		}
		set(codes[i])
	case panics:
		return true
	case recovers:
		if m.run(codes) {
			m.out = append(m.out, name+"!")
			m.pos = len(m.bs)
		}
	case nextPanic:
		m.run(codes)
		return true
	}
	m.out = append(m.out, name+"-")
	return false
}

//sym:covers panicked written clean
func H_chain() {
	trace = nil
	n := 1 + sym.Choose("n", sym.Bound(4, 5))
	var bs []int
	var codes []int
	var hs []interface{}
	for i := 0; i < n; i++ {
		b := sym.Choose("b"+string(rune('0'+i)), behaviours)
		code := sym.IntRange("code"+string(rune('0'+i)), 200, 599)
		bs = append(bs, b)
		codes = append(codes, code)
		hs = append(hs, makeFilter(string(rune('a'+i)), b, code))
	}
	app, _ := hx.App()
	nApp := sym.Choose("app", n)
	app.Filter(hs[:nApp]...)
	rest := hs[nApp:]
	path := "/r"
	switch sym.Choose("where", 2) {
	case 0:
		last := len(rest) - 1
		app.Routers(strip.Router("/r", strip.Filter(rest[:last]...), strip.Get(rest[last])))
	case 1:
		app.NotFound(rest...)
		path = "/none"
	}
	m := &model{bs: bs}
	wantPanic := m.run(codes)
	var rec *hx.Rec
	gotPanic := sym.Panics(func() { rec = hx.Serve(app, "GET", path) })
	sym.Observe("trace", strings.Join(trace, " "))
	sym.Assert(gotPanic == wantPanic, "panic-escapes-unless-recovered")
	sym.Assert(strings.Join(trace, " ") == strings.Join(m.out, " "), "order-of-execution")
	if wantPanic {
		sym.Cover("panicked")
		return
	}
	if m.written {
		sym.Cover("written")
	} else {
		sym.Cover("clean")
	}
	// a status set after the body was sent is too late
	want := m.code
	if want == 0 {
		want = 200
	}
	for i, b := range bs {
		if b == body && strings.Contains(strings.Join(m.out, " "), string(rune('a'+i))+"+") {
			return
		}
	}
	sym.Assert(rec.Code() == want, "status")
}

// A long row of filters: each runs once and in order, and the row ends where one ends it.
//
//sym:covers whole ended nested
func H_row() {
	n := hx.Size("filters", 4, sym.Bound(129, 513))
	end := n // the filter that answers
	switch sym.Choose("end", 4) {
	case 1:
		end = 0
	case 2:
		end = n / 2
	case 3:
		end = n - 1
	}
	calls := sym.Choose("next", 2) == 1 // each one calls Next itself
	var in, out []int
	app, _ := hx.App()
	split := []int{0, n / 2, n}[sym.Choose("split", 3)]
	var of []interface{}
	for i := 0; i < n; i++ {
		i := i
		of = append(of, func(ctx strip.Context, rw http.ResponseWriter) {
			in = append(in, i)
			if i == end {
				rw.WriteHeader(202)
			} else if calls {
				ctx.Next()
			}
			out = append(out, i)
		})
	}
	handled := 0
	app.Filter(of[:split]...)
	app.Routers(strip.Filter(of[split:]...), strip.Router("/x", strip.Get(func() { handled++; in = append(in, n) })))
	rec := hx.Serve(app, "GET", "/x")
	if end < n {
		sym.Cover("ended")
		sym.Assert(handled == 0 && rec.Code() == 202, "ended-by-the-answer")
	} else {
		sym.Cover("whole")
		sym.Assert(handled == 1 && rec.Code() == 200, "handler-once")
	}
	last := end
	sym.Assert(len(in) == last+1, "each-filter-once")
	for i, x := range in {
		sym.Assert(x == i, "in-order")
	}
	if end < n {
		last++
	}
	sym.Assert(len(out) == last, "each-filter-returns")
	for i, x := range out {
		if calls {
			sym.Cover("nested")
			x = last - 1 - x
		}
		sym.Assert(x == i, "returns-in-order")
	}
}

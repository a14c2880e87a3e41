package h

import (
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds 2 (thorough 3) routes of 1..2 segments over {static a, :p, :q, :p:v, :q:v, *:p, *:q} with wildcards at any position, registered flat, nested, or in one call; router paths of up to 4 (5) arbitrary bytes; 30 kinds of filters, controllers and actions
//sym:assume parameter names are not empty and wildcards carry no verb

var segs = []hx.Seg{
	{Kind: hx.Static, Text: "a"}, {Kind: hx.Param, Text: "p"}, {Kind: hx.Param, Text: "q"}, {Kind: hx.Verb, Text: "p", Verb: ":v"},
	{Kind: hx.Verb, Text: "q", Verb: ":v"}, {Kind: hx.Wild, Text: "p"}, {Kind: hx.Wild, Text: "q"},
}

func isParam(k int) bool { return k == hx.Param || k == hx.Verb }

func conflict(p, q hx.Pattern) bool {
	for i := 0; i < len(p) && i < len(q); i++ {
		if p[i].Text != q[i].Text && (isParam(p[i].Kind) && isParam(q[i].Kind) || p[i].Kind == hx.Wild && q[i].Kind == hx.Wild) {
			return true
		}
		if p[i].String() != q[i].String() {
			return false
		}
	}
	return false
}

//sym:covers conflict wild ok
func H_conflicts() {
	var ps []hx.Pattern
	bad := false
	for i := 0; i < sym.Bound(2, 3); i++ {
		var p hx.Pattern
		d := string(rune('0' + i))
		for j, n := 0, 1+sym.Choose("len"+d, 2); j < n; j++ {
			p = append(p, segs[sym.Choose("seg"+d, len(segs))])
		}
		for _, q := range ps {
			if conflict(p, q) {
				sym.Cover("conflict")
				bad = true
			}
		}
		if len(p) == 2 && p[0].Kind == hx.Wild {
			sym.Cover("wild")
			bad = true
		}
		ps = append(ps, p)
	}
	app, _ := hx.App()
	hit := -1
	var hs []strip.Handler
	for i, p := range ps {
		i := i
		h := strip.Get(func() { hit = i })
		if len(p) > 1 && sym.Choose("nested", 2) == 1 {
			hs = append(hs, strip.Router(p[:1].String(), strip.Router(p[1:].String(), h)))
		} else {
			hs = append(hs, strip.Router(p.String(), h))
		}
	}
	once := sym.Choose("calls", 2) == 0
	panicked := sym.Panics(func() {
		if once {
			app.Routers(hs...)
			return
		}
		for _, h := range hs {
			app.Routers(h)
		}
	})
	sym.Observe("panicked", panicked)
	sym.Assert(panicked == bad, "panics-exactly-on-conflicts")
	if bad {
		return
	}
	sym.Cover("ok")
	for i, p := range ps {
		req := ""
		for _, s := range p {
			switch s.Kind {
			case hx.Static:
				req += "/" + s.Text
			case hx.Param:
				req += "/z"
			case hx.Verb:
				req += "/z:v"
			case hx.Wild:
				req += "/y/y/y"
			}
		}
		hit = -1
		hx.Serve(app, "GET", req)
		want := i
		for j, q := range ps {
			if _, ok := q.Match(strings.Split(req[1:], "/")); ok && (q.Better(ps[want]) || q.String() == ps[want].String() && j > want) {
				want = j
			}
		}
		sym.Assert(hit == want, "route-not-reachable")
	}
}

// Any text as the path of a router: it panics when it is empty and is reachable otherwise.
//
//sym:covers empty ok
func H_paths() {
	s := sym.String("path", sym.Choose("len", sym.Bound(4, 5)))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != ':')
	}
	nested := sym.Choose("nested", 2) == 1
	app, _ := hx.App()
	hit := 0
	panicked := sym.Panics(func() {
		r := strip.Router(s, strip.Get(func() { hit++ }))
		if nested {
			r = strip.Router("/n", r)
		}
		app.Routers(r)
	})
	clean := cleanPath(s)
	sym.Observe("panicked", panicked)
	sym.Assert(panicked == (clean == ""), "empty-path-panics")
	if panicked {
		sym.Cover("empty")
		return
	}
	sym.Cover("ok")
	req := "/" + clean
	if nested {
		req = "/n/" + clean
	}
	hx.Serve(app, "GET", req)
	if strings.TrimSpace(req) == req {
		sym.Assert(hit == 1, "route-not-reachable")
	}
}

// cleanPath is an independent path.Clean without the leading slash.
func cleanPath(s string) string {
	var out []string
	for _, e := range strings.Split(strings.TrimSpace(s), "/") {
		switch e {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, e)
		}
	}
	return strings.Join(out, "/")
}

type C struct{}

func (C) Get()   {}
func (C) Other() {}

type P struct{}

func (*P) Post() {}
func (*P) All()  {}
func (*P) Any()  {}

type prov func() inject.Provider

// Filters, controllers and actions of every kind.
func H_kinds() {
	app, _ := hx.App()
	f := func() {}
	cases := []struct {
		h   func() strip.Handler
		bad bool
	}{
		{func() strip.Handler { return strip.Get(C{}) }, false},
		{func() strip.Handler { return strip.Get(&C{}) }, false},
		{func() strip.Handler { return strip.Get((*C)(nil)) }, false},
		{func() strip.Handler { return strip.Post(C{}) }, true},
		{func() strip.Handler { return strip.Get(C{}).Action("Other") }, false},
		{func() strip.Handler { return strip.Post(C{}).Action("Other") }, false},
		{func() strip.Handler { return strip.Get(C{}).Action("Missing") }, true},
		{func() strip.Handler { return strip.Get(C{}).Action("") }, true},
		{func() strip.Handler { return strip.Get(f).Action("Get") }, true},
		{func() strip.Handler { return strip.Get(f) }, false},
		{func() strip.Handler { return strip.Get(nil) }, true},
		{func() strip.Handler { return strip.Get(3) }, true},
		{func() strip.Handler { return strip.Get("x") }, true},
		{func() strip.Handler { return strip.Get([]int{}) }, true},
		{func() strip.Handler { return strip.Get(&f) }, true},
		{func() strip.Handler { return strip.All(&f) }, true},
		{func() strip.Handler { return strip.All(C{}) }, false},
		{func() strip.Handler { return strip.All(C{}).Action("All") }, true},
		{func() strip.Handler { return strip.Any(C{}) }, true},
		{func() strip.Handler { return strip.Any(&P{}) }, false},
		{func() strip.Handler { return strip.Post(&P{}) }, false},
		{func() strip.Handler { return strip.Put(P{}) }, true},
		{func() strip.Handler { return strip.Filter(f, func(http.ResponseWriter) int { return 1 }) }, false},
		{func() strip.Handler { return strip.Filter(inject.Provide{inject.Dep{}, f}) }, false},
		{func() strip.Handler { return strip.Filter(strip.FilterFunc(func() inject.Provider { return f })) }, false},
		{func() strip.Handler { return strip.Filter(C{}) }, true},
		{func() strip.Handler { return strip.Filter(nil) }, true},
		{func() strip.Handler { return strip.Filter("x") }, true},
		{func() strip.Handler { return strip.Filter(f, 3) }, true},
		{func() strip.Handler { return strip.Exempt(3) }, true},
		{func() strip.Handler { return strip.Exempt(f) }, false},
		{func() strip.Handler { return strip.Filter() }, false},
	}
	k := sym.Choose("kind", len(cases))
	nested := sym.Choose("nested", 2) == 1
	panicked := sym.Panics(func() {
		h := cases[k].h()
		if nested {
			h = strip.Router("/x", h)
		}
		app.Routers(h)
	})
	sym.Assert(panicked == cases[k].bad, "panics-exactly-on-unusable-values")
}

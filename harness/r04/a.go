package h

import (
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds a tree of routers (top level, /a, /a/n, sibling /b, a second registration of /a) with three filters and the app filters; at each of 4 places any of 7 filter lists and 4 exemption lists (quick: at most 2 places non-empty, thorough: all), in either order of arguments; method handlers built step by step with Filter and Exempt in any sequence of up to 3 (4) calls, sharing prefixes; filters of a route replaced before and after others are added; lists of up to 33 (thorough 65) filters, of the sizes next to powers of two and round numbers, with 6 forms of exemption, on one level or two
//sym:assume filters are functions; identity of filters that are inject.Provide slices is not specified

var trace []string

func mk(name string) func() { return func() { trace = append(trace, name) } }

var pool = map[byte]func(){'A': mk("A"), 'B': mk("B"), 'C': mk("C"), 'D': mk("D"), 'E': mk("E"), 'F': mk("F")}

func fs(names string) (out []interface{}) {
	for i := 0; i < len(names); i++ {
		out = append(out, pool[names[i]])
	}
	return
}

type cfg struct{ add, ex string }

var adds = []string{"", "A", "B", "AB", "BA", "AA", "CB"}
var exs = []string{"", "A", "B", "BC"}

// apply is the documented effect of one level on the filters coming from above.
func (c cfg) apply(in string) string {
	for i := 0; i < len(c.add); i++ {
		if strings.IndexByte(in, c.add[i]) < 0 {
			in += string(c.add[i])
		}
	}
	out := ""
	for i := 0; i < len(in); i++ {
		if strings.IndexByte(c.ex, in[i]) < 0 {
			out += string(in[i])
		}
	}
	return out
}

func (c cfg) handlers(flip bool, rest ...strip.Handler) []strip.Handler {
	var hs []strip.Handler
	if c.add != "" {
		hs = append(hs, strip.Filter(fs(c.add)...))
	}
	if c.ex != "" {
		hs = append(hs, strip.Exempt(fs(c.ex)...))
	}
	if flip {
		return append(append([]strip.Handler{}, rest...), hs...)
	}
	return append(hs, rest...)
}

func draw(label string) cfg {
	return cfg{adds[sym.Choose(label+".add", len(adds))], exs[sym.Choose(label+".ex", len(exs))]}
}

func expect(app *strip.Strip, method, path, want string) {
	trace = nil
	hx.Serve(app, method, path)
	got := strings.Join(trace, "")
	sym.Observe(method+path, got)
	sym.Assert(got == want, "filters-of"+path)
}

//sym:covers deep
func H_tree() {
	var c [4]cfg // top level, /a, GET of /a, /a/n
	used := 0
	for i := range c {
		if used >= sym.Bound(2, 3) {
			break
		}
		if c[i] = draw("c" + string(rune('0'+i))); c[i] != (cfg{}) {
			used++
		}
	}
	app, _ := hx.App()
	appf := ""
	if sym.Choose("app", 2) == 1 {
		appf = "AC"
		app.Filter(fs("A")...)
		app.Filter(fs("CA")...)
	}
	flip := sym.Choose("flip", 2) == 1
	get := strip.Get(mk("1"))
	if c[2].add != "" {
		get = get.Filter(fs(c[2].add)...)
	}
	if c[2].ex != "" {
		get = get.Exempt(fs(c[2].ex)...)
	}
	app.Routers(c[0].handlers(flip,
		strip.Get(mk("0")),
		strip.Router("/a", c[1].handlers(flip, get, strip.Post(mk("2")), strip.All(mk("4")), strip.Any(mk("5")),
			strip.Router("/n", c[3].handlers(flip, strip.Get(mk("3")), strip.Any(mk("6")))...),
			strip.Router("/m", strip.All(mk("8")).Filter(fs("C")...)))...),
		strip.Router("/b", strip.Get(mk("7")).Filter(fs("C")...)),
	)...)
	// a later registration below the same path
	app.Routers(strip.Router("/a", strip.Put(mk("9"))))

	top := c[0].apply("")
	expect(app, "GET", "/", appf+top+"0")
	a := c[1].apply(top)
	expect(app, "GET", "/a", appf+c[2].apply(a)+"1")
	expect(app, "POST", "/a", appf+a+"2")
	expect(app, "PATCH", "/a", appf+a+"4")
	expect(app, "PUT", "/a", appf+"9")
	n := c[3].apply(a)
	expect(app, "GET", "/a/n", appf+n+"3")
	expect(app, "PUT", "/a/n", appf+n+"6")
	expect(app, "PUT", "/a/m", appf+cfg{"C", ""}.apply(a)+"8")
	expect(app, "GET", "/b", appf+cfg{"C", ""}.apply(top)+"7")
	if used > 1 {
		sym.Cover("deep")
	}
}

// Handlers derived from one another by Filter and Exempt keep their own filters.
func H_derived() {
	type der struct {
		h       strip.MethodHandler
		add, ex string
	}
	all := []der{{h: strip.Get(mk("0"))}}
	for i, n := 0, sym.Bound(3, 4); i < n; i++ {
		from := all[sym.Choose("from", len(all))]
		k := sym.Choose("op", 5)
		name := string("ABCAB"[k])
		d := der{nil, from.add, from.ex}
		if k < 3 {
			d.h = from.h.Filter(fs(name)...)
			d.add += name
		} else {
			d.h = from.h.Exempt(fs(name)...)
			d.ex += name
		}
		all = append(all, d)
	}
	app, _ := hx.App()
	hs := []strip.Handler{strip.Filter(fs("A")...)}
	for i, d := range all {
		hs = append(hs, strip.Router("/"+string(rune('a'+i)), d.h))
	}
	app.Routers(hs...)
	for i, d := range all {
		expect(app, "GET", "/"+string(rune('a'+i)), cfg{d.add, d.ex}.apply("A")+"0")
	}
}

// One router value used under two parents takes nothing from one to the other.
func H_shared() {
	c := [3]cfg{draw("p"), draw("q"), draw("s")}
	app, _ := hx.App()
	sub := strip.Router("/x", c[2].handlers(false, strip.Get(mk("0")))...)
	app.Routers(strip.Router("/p", c[0].handlers(false, sub)...), strip.Router("/q", c[1].handlers(true, sub)...), sub)
	expect(app, "GET", "/p/x", c[2].apply(c[0].apply(""))+"0")
	expect(app, "GET", "/q/x", c[2].apply(c[1].apply(""))+"0")
	expect(app, "GET", "/x", c[2].apply("")+"0")
}

// An app whose filters are replaced runs those of the other, and the two have nothing in common afterwards.
//
//sym:covers replaced
func H_replaced() {
	apps := [2]*strip.Strip{}
	have := [2]string{}
	add := func(i int, names string) {
		apps[i].Filter(fs(names)...)
		have[i] = cfg{names, ""}.apply(have[i])
	}
	for i := range apps {
		apps[i], _ = hx.App()
		apps[i].Routers(strip.Router("/x", strip.Get(mk("0"))))
		for j, n := 0, sym.Choose("filters", 5); j < n; j++ {
			add(i, string("ABCD"[j]))
		}
	}
	strip.ReplaceFilters(apps[0], apps[1])
	have[0] = have[1]
	for i, n := 0, sym.Choose("more", sym.Bound(4, 5)); i < n; i++ {
		add(sym.Choose("app", 2), string("CDEF"[sym.Choose("filter", 4)]))
	}
	for i := range apps {
		expect(apps[i], "GET", "/x", have[i]+"0")
	}
	sym.Cover("replaced")
}

// Long lists of filters and exemptions, on one level or over two.
//
//sym:covers exempted all
func H_many() {
	trace = nil
	n := hx.Size("filters", 2, sym.Bound(33, 65))
	var fl []interface{}
	for i := 0; i < n; i++ {
		fl = append(fl, mk(strconv.Itoa(i)+" "))
	}
	how := sym.Choose("exempted", 6)
	var ex []interface{}
	want := ""
	for i := 0; i < n; i++ {
		switch {
		case how == 1 && i%2 == 1, how == 2 && i == n-1, how == 3, how == 4 && i > 0, how == 5 && i < n-1:
			ex = append(ex, fl[i])
		default:
			want += strconv.Itoa(i) + " "
		}
	}
	if len(ex) > 0 {
		sym.Cover("exempted")
	} else {
		sym.Cover("all")
	}
	app, _ := hx.App()
	get := strip.Get(mk("h"))
	above, here := fl[:n/2], fl[n/2:]
	if sym.Choose("levels", 2) == 0 {
		above, here = nil, fl
	}
	if sym.Choose("repeated", 2) == 1 {
		here = append(append([]interface{}{}, fl...), here...)
		above = append(append([]interface{}{}, above...), above...)
	}
	var in strip.Handler
	switch sym.Choose("where", 3) {
	case 0:
		in = strip.Router("/x", strip.Filter(here...), strip.Exempt(ex...), get)
	case 1:
		in = strip.Router("/x", strip.Filter(here...), get.Exempt(ex...))
	case 2:
		in = strip.Router("/x", get.Filter(here...).Exempt(ex...))
	}
	app.Routers(strip.Router("/a", strip.Filter(above...), in))
	expect(app, "GET", "/a/x", want+"h")
}

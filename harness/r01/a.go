package h

import (
	"path"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds 2 routes of 1..2 segments (thorough: 3 routes of 1..2 segments, or 2 of 1..3) over {static a, static b, :p, :p:v, *:w}, registered flat or nested; request paths of 1..2 (thorough 3) segments of 1 or 3 bytes each, any byte except / and .; a separate harness takes every path of up to 3 (thorough 5) arbitrary bytes over a fixed set of six routes; routes and paths of up to 64 (thorough 129) segments, segments of up to 4097 bytes, up to 129 (257) routes side by side, of the sizes next to powers of two and round numbers
//sym:assume equal patterns are not registered twice; two verbs at one position do not end in one another

func segment(label string) string {
	n := 1
	if sym.Choose(label+".long", 2) == 1 {
		n = 3
	}
	return sym.StringOf(label, n, hx.SegChars)
}

func drawRoutes(n, max int) []hx.Pattern {
	ps := make([]hx.Pattern, n)
	for i := range ps {
		ps[i] = hx.DrawPattern("r"+string(rune('0'+i)), max)
		for j := 0; j < i; j++ {
			if ps[i].String() == ps[j].String() {
				sym.Stop()
			}
		}
	}
	return ps
}

func register(app *strip.Strip, p hx.Pattern, nested bool, h func()) {
	if nested && len(p) > 1 {
		app.Routers(strip.Router(p[:1].String(), strip.Router(p[1:].String(), strip.Get(h))))
		return
	}
	app.Routers(strip.Router(p.String(), strip.Get(h)))
}

func check(ps []hx.Pattern, nested bool, reqPath string) {
	app, _ := hx.App()
	hit, misses := -1, 0
	for i, p := range ps {
		i := i
		register(app, p, nested, func() {
			if hit != -1 {
				hit = -2
				return
			}
			hit = i
		})
	}
	app.NotFound(func() { misses++ })
	hx.Serve(app, "GET", reqPath)

	clean := path.Clean("/" + strings.TrimSpace(reqPath))
	want, _ := hx.Best(ps, strings.Split(clean[1:], "/"))
	if clean == "/" {
		want = -1
	}
	sym.Observe("hit", hit)
	if want < 0 {
		sym.Cover("none")
		sym.Assert(misses == 1, "not-found-handler-must-run-once")
		sym.Assert(hit == -1, "no-route-matches-but-one-ran")
		return
	}
	sym.Cover("some")
	sym.Assert(misses == 0, "route-matches-but-not-found")
	sym.Assert(hit == want, "wrong-route")
}

//sym:covers none some
func H_match() {
	nested := sym.Choose("nested", 2) == 1
	n, max, segs := 2, 2, 2
	if sym.Thorough() {
		if sym.Choose("shape", 2) == 0 {
			n = 3
		} else {
			max, segs = 3, 3
		}
	}
	ps := drawRoutes(n, max)
	k := 1 + sym.Choose("segs", segs)
	req := ""
	for i := 0; i < k; i++ {
		req += "/" + segment("s"+string(rune('0'+i)))
	}
	check(ps, nested, req)
}

func seg(kind int, text string) hx.Seg {
	if kind == hx.Verb {
		return hx.Seg{Kind: kind, Text: text, Verb: ":v"}
	}
	return hx.Seg{Kind: kind, Text: text}
}

// Every path of arbitrary bytes over a fixed table with a root route.
//
//sym:covers root none some
func H_clean() {
	app, _ := hx.App()
	ps := []hx.Pattern{
		{},
		{seg(hx.Static, "a")},
		{seg(hx.Static, "a"), seg(hx.Static, "b")},
		{seg(hx.Static, "a"), seg(hx.Wild, "w")},
		{seg(hx.Param, "p"), seg(hx.Static, "c")},
		{seg(hx.Verb, "p")},
	}
	hit, misses := -1, 0
	for i, p := range ps {
		i := i
		h := func() {
			if hit != -1 {
				hit = -2
				return
			}
			hit = i
		}
		if len(p) == 0 {
			app.Routers(strip.Get(h))
		} else {
			app.Routers(strip.Router(p.String(), strip.Get(h)))
		}
	}
	app.NotFound(func() { misses++ })
	n := sym.Choose("n", sym.Bound(4, 6))
	req := sym.String("path", n)
	if sym.Choose("slash", 2) == 1 {
		req = "/" + req
	}
	hx.Serve(app, "GET", req)

	clean := path.Clean("/" + strings.TrimSpace(req))
	var segs []string
	if clean != "/" {
		segs = strings.Split(clean[1:], "/")
	}
	want, _ := hx.Best(ps, segs)
	if want < 0 {
		sym.Cover("none")
		sym.Assert(misses == 1, "not-found-handler-must-run-once")
		sym.Assert(hit == -1, "no-route-matches-but-one-ran")
		return
	}
	if want == 0 {
		sym.Cover("root")
	} else {
		sym.Cover("some")
	}
	sym.Assert(misses == 0, "route-matches-but-not-found")
	sym.Assert(hit == want, "wrong-route")
}

// Two verbs and a plain parameter at one position, in every order of registration.
//
//sym:covers verb param
func H_verbs() {
	v := func(s string) hx.Seg { return hx.Seg{Kind: hx.Verb, Text: "p", Verb: s} }
	all := []hx.Pattern{{v(":v")}, {v(":u")}, {seg(hx.Param, "p")}, {v(":v"), seg(hx.Static, "x")}, {seg(hx.Param, "p"), seg(hx.Static, "x")}}
	var ps []hx.Pattern
	for len(all) > 0 {
		k := sym.Choose("next", len(all))
		ps = append(ps, all[k])
		all = append(append([]hx.Pattern{}, all[:k]...), all[k+1:]...)
	}
	req := "/" + sym.StringOf("s", 3, hx.SegChars)
	if sym.Choose("more", 2) == 1 {
		req += "/" + sym.StringOf("t", 1, hx.SegChars)
	}
	if strings.HasSuffix(req, ":v") {
		sym.Cover("verb")
	} else {
		sym.Cover("param")
	}
	check(ps, false, req)
}

// The text of the static segments is symbolic too: routes and path may agree in any way.
//
//sym:covers none some
func H_texts() {
	draw := func(label string, max int) hx.Pattern {
		n := 1 + sym.Choose(label+".len", max)
		var p hx.Pattern
		for i := 0; i < n; i++ {
			d := string(rune('0' + i))
			kinds := 2
			if i == n-1 {
				kinds = 3
			}
			switch sym.Choose(label+".seg"+d, kinds) {
			case 0:
				p = append(p, seg(hx.Static, sym.StringOf(label+".text"+d, 1, "!$%&+-0123456789=@ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~")))
			case 1:
				p = append(p, seg(hx.Param, "p"))
			case 2:
				p = append(p, seg(hx.Wild, "p"))
			}
		}
		return p
	}
	var ps []hx.Pattern
	for i := 0; i < sym.Bound(2, 3); i++ {
		p := draw("r"+string(rune('0'+i)), 2)
		for _, q := range ps {
			sym.Assume(p.String() != q.String())
		}
		ps = append(ps, p)
	}
	req := ""
	for i, k := 0, 1+sym.Choose("segs", 2); i < k; i++ {
		req += "/" + sym.StringOf("s"+string(rune('0'+i)), 1, hx.SegChars)
	}
	check(ps, sym.Choose("nested", 2) == 1, req)
}

// Long paths, long segments and many routes side by side.
//
//sym:covers deep long many
func H_large() {
	app, _ := hx.App()
	hit := []string{}
	mark := func(s string) func() { return func() { hit = append(hit, s) } }
	app.NotFound(mark("none"))
	var paths, wants []string
	add := func(p, want string) { paths, wants = append(paths, p), append(wants, want) }
	nested := sym.Choose("nested", 2) == 1
	switch sym.Choose("what", 3) {
	case 0: // a deep tree of static and parameter segments
		sym.Cover("deep")
		n := hx.Size("depth", 4, sym.Bound(65, 129))
		full, asked := "", ""
		var r strip.Handler
		for i := n - 1; i >= 0; i-- {
			s, a := "s"+strconv.Itoa(i), "s"+strconv.Itoa(i)
			if i%3 == 1 {
				s, a = ":p"+strconv.Itoa(i), "v"+strconv.Itoa(i)
			}
			full, asked = "/"+s+full, "/"+a+asked
			if i == n-1 {
				r = strip.Router("/"+s, strip.Get(mark("last")))
			} else {
				r = strip.Router("/"+s, r)
			}
		}
		if nested {
			app.Routers(r)
		} else {
			app.Routers(strip.Router(full, strip.Get(mark("last"))))
		}
		add(asked, "last")
		add(asked+"/", "last")
		add(asked+"/x", "none")
		add(asked[:strings.LastIndex(asked, "/")], "none")
		add("/x"+asked, "none")
	case 1: // long segments
		sym.Cover("long")
		s := hx.Long("segment", 4097, "xY0-_:*")
		app.Routers(strip.Router("/p/:id", strip.Get(mark("param"))), strip.Router("/w/*:rest", strip.Get(mark("rest"))))
		add("/p/"+s, "param")
		add("/p/"+s+"/x", "none")
		add("/w/"+s+"/"+s, "rest")
		add("/"+s, "none")
		if s[0] != ':' && s[0] != '*' && !strings.Contains(s, ":") && !strings.Contains(s, "*") {
			app.Routers(strip.Router("/l/"+s, strip.Get(mark("long"))))
			add("/l/"+s, "long")
			add("/l/"+s+"x", "none")
			add("/l/"+s[:len(s)-1], "none")
		}
	case 2: // many routes
		sym.Cover("many")
		n := hx.Size("routes", 4, sym.Bound(129, 257))
		k := sym.Choose("kind", 3)
		var rs []strip.Handler
		for i := 0; i < n; i++ {
			d := strconv.Itoa(i)
			rs = append(rs, strip.Router([]string{"/r" + d, "/r" + d + "/:id", "/:id:v" + d + "/x"}[k], strip.Get(mark(d))))
		}
		if nested {
			app.Routers(strip.Router("/top", rs...))
		} else {
			app.Routers(rs...)
		}
		pre := map[bool]string{true: "/top"}[nested]
		for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
			d := strconv.Itoa(i)
			add(pre+[]string{"/r" + d, "/r" + d + "/7", "/7:v" + d + "/x"}[k], d)
		}
		add(pre+[]string{"/r", "/r" + strconv.Itoa(n) + "/7", "/7:v" + strconv.Itoa(n) + "/x"}[k], "none")
	}
	for i, p := range paths {
		hit = hit[:0]
		hx.Serve(app, "GET", p)
		sym.Assert(len(hit) == 1 && hit[0] == wants[i], "wrong-route")
	}
}

package h

import (
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds one route with any sequence of up to 2 (thorough 3) registrations out of 13 kinds (functions and controllers, Get/Post/Head/All/Any, with and without a named action), in one Router call or one call each; request methods: any ASCII text of 1..4 (thorough 5) bytes, and the standard methods in any case; any two of the nine registration functions named after a method, with a request of any of the nine methods and one letter in lower case; two of the nine registration functions with nothing else, All or Any with a function, or All with a controller that has all nine methods, for each of the nine methods and an unknown one
//sym:assume several handlers registered for one and the same method: the last one counts

var ran []string

func hit(s string) { ran = append(ran, s) }

// Plain has methods for some request methods only.
type Plain struct{}

func (Plain) Get()  { hit("Plain.Get") }
func (Plain) Post() { hit("Plain.Post") }
func (Plain) GetR() { hit("Plain.GetR") }
func (Plain) HeAD() { hit("Plain.HeAD") }

// Full has the fallbacks as well.
type Full struct{}

func (*Full) Put()   { hit("Full.Put") }
func (*Full) Putv()  { hit("Full.Putv") }
func (*Full) All()   { hit("Full.All") }
func (*Full) Any()   { hit("Full.Any") }
func (*Full) Named() { hit("Full.Named") }

var methodsOf = map[string][]string{
	"Plain": {"Get", "Post", "GetR", "HeAD"},
	"Full":  {"Put", "Putv", "All", "Any", "Named"},
}

func has(ctl, name string) bool {
	for _, n := range methodsOf[ctl] {
		if n == name {
			return true
		}
	}
	return false
}

type reg struct {
	h    strip.Handler
	kind string // GET, POST, HEAD, *, **
	fn   string // what runs: a function name, or
	ctl  string // a controller
	act  string // its action
}

func draw(i int) reg {
	d := string(rune('0' + i))
	f := func() { hit("fn" + d) }
	switch sym.Choose("reg"+d, 13) {
	case 0:
		return reg{strip.Get(f), "GET", "fn" + d, "", ""}
	case 1:
		return reg{strip.Post(f), "POST", "fn" + d, "", ""}
	case 2:
		return reg{strip.Head(f), "HEAD", "fn" + d, "", ""}
	case 3:
		return reg{strip.All(f), "*", "fn" + d, "", ""}
	case 4:
		return reg{strip.Any(f), "**", "fn" + d, "", ""}
	case 5:
		return reg{strip.Get(Plain{}), "GET", "", "Plain", "Get"}
	case 6:
		return reg{strip.All(Plain{}), "*", "", "Plain", ""}
	case 7:
		return reg{strip.All(&Full{}), "*", "", "Full", "All"}
	case 8:
		return reg{strip.All(new(Full)).Action("Named"), "*", "", "Full", "Named"}
	case 9:
		return reg{strip.Any(&Full{}), "**", "", "Full", "Any"}
	case 10:
		return reg{strip.Any(Plain{}).Action("Post"), "**", "", "Plain", "Post"}
	case 11:
		return reg{strip.Get(&Full{}).Action("Named"), "GET", "", "Full", "Named"}
	}
	return reg{strip.Patch(f), "PATCH", "fn" + d, "", ""}
}

func pick(regs []reg, kind string) *reg {
	for i := len(regs) - 1; i >= 0; i-- {
		if regs[i].kind == kind {
			return &regs[i]
		}
	}
	return nil
}

func lower(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 32
	}
	return b
}

func (r reg) run() string {
	if r.fn != "" {
		return r.fn
	}
	return r.ctl + "." + r.act
}

// oracle is the documented dispatch.
func oracle(regs []reg, method string) string {
	upper := strings.ToUpper(method)
	if r := pick(regs, upper); r != nil && upper != "*" && upper != "**" {
		return r.run()
	}
	if upper == "HEAD" {
		if r := pick(regs, "GET"); r != nil {
			return r.run()
		}
	}
	if r := pick(regs, "*"); r != nil {
		if r.fn != "" {
			return r.fn
		}
		own := []byte(upper)
		for i := range own {
			if i > 0 {
				own[i] = lower(own[i])
			}
		}
		if has(r.ctl, string(own)) {
			return r.ctl + "." + string(own)
		}
		if r.act != "" {
			return r.run()
		}
	}
	if r := pick(regs, "**"); r != nil {
		return r.run()
	}
	return "404"
}

func dispatch(method string) {
	ran = nil
	app, _ := hx.App()
	n := sym.Choose("regs", sym.Bound(2, 3)+1)
	var regs []reg
	var hs []strip.Handler
	for i := 0; i < n; i++ {
		r := draw(i)
		regs = append(regs, r)
		hs = append(hs, r.h)
	}
	if n > 1 && sym.Choose("calls", 2) == 1 {
		for _, h := range hs {
			app.Routers(strip.Router("/a", h))
		}
	} else {
		app.Routers(strip.Router("/a", hs...))
	}
	app.NotFound(func() { hit("404") })
	want := oracle(regs, method)
	if n == 0 {
		want = "404"
	}
	hx.Serve(app, method, "/a")
	sym.Observe("ran", ran)
	if want == "404" {
		sym.Cover("notfound")
	} else {
		sym.Cover("handler")
	}
	sym.Assert(len(ran) == 1, "exactly-one-handler")
	sym.Assert(ran[0] == want, "wrong-handler")
}

// Any text as the method.
//
//sym:covers notfound handler
func H_anymethod() {
	dispatch(sym.ASCII("method", 1+sym.Choose("n", sym.Bound(4, 5))))
}

// The standard methods, each letter in either case.
//
//sym:covers notfound handler
func H_standard() {
	ms := []string{"GET", "POST", "PUT", "HEAD", "DELETE", "PATCH", "ALL", "ANY", "NAMED", "PUTV"}
	m := []byte(ms[sym.Choose("std", len(ms))])
	for i := range m {
		if sym.Bool("lower") {
			m[i] += 32
		}
	}
	dispatch(string(m))
}

// A method with a character that is not ASCII reaches nothing that is named by ASCII letters.
//
//sym:covers notfound
func H_unicode() {
	m := []string{"GET", "LINK", "PUTS", "LIST"}[sym.Choose("std", 4)]
	at := sym.Choose("at", len(m))
	odd := "\u212a"
	switch sym.Choose("odd", 3) {
	case 1:
		odd = "\u0130"
	case 2:
		odd = string([]byte{byte(sym.IntRange("byte", 0x80, 0xff))})
		if sym.Choose("two", 2) == 1 {
			odd = string([]byte{byte(sym.IntRange("lead", 0xc2, 0xdf)), byte(sym.IntRange("byte", 0x80, 0xbf))})
		}
	}
	m = m[:at] + odd + m[at+1:]
	up := strings.ToUpper(m)
	for i := 0; i < len(up); i++ {
		if up[i] >= 0x80 {
			ran = nil
			app, _ := hx.App()
			app.Routers(strip.Router("/a", strip.Get(func() { hit("get") }), strip.All(Verbs{})))
			app.NotFound(func() { hit("404") })
			hx.Serve(app, m, "/a")
			sym.Cover("notfound")
			sym.Assert(len(ran) == 1 && ran[0] == "404", "not-its-own-letters")
			return
		}
	}
}

// Verbs has controller methods named after every standard method.
type Verbs struct{}

func (Verbs) Get()  { hit("get") }
func (Verbs) Link() { hit("link") }
func (Verbs) Puts() { hit("puts") }
func (Verbs) List() { hit("list") }

// Each registration function counts for the request method of its own name.
//
//sym:covers own get-for-head rest notfound
func H_each() {
	ran = nil
	app, _ := hx.App()
	names := []string{"GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT"}
	make := []func(strip.Handler) strip.MethodHandler{strip.Get, strip.Post, strip.Put, strip.Head, strip.Delete,
		strip.Options, strip.Patch, strip.Trace, strip.Connect}
	first, second := sym.Choose("first", 9), sym.Choose("second", 9)
	if first == second {
		sym.Stop()
	}
	hs := []strip.Handler{make[first](func() { hit(names[first]) }), make[second](func() { hit(names[second]) })}
	rest := sym.Choose("rest", 4)
	switch rest {
	case 1:
		hs = append(hs, strip.All(func() { hit("all") }))
	case 2:
		hs = append(hs, strip.Any(func() { hit("any") }))
	case 3:
		hs = append(hs, strip.All(Each{}))
	}
	app.Routers(strip.Router("/a", hs...))
	app.NotFound(func() { hit("404") })
	own := append(names, "PURGE")[sym.Choose("method", 10)]
	m := []byte(own)
	if at := sym.Choose("lower", len(m)+1); at < len(m) {
		m[at] += 32
	}
	want := "404"
	if own == names[first] || own == names[second] {
		want = own
		sym.Cover("own")
	} else if own == "HEAD" && (first == 0 || second == 0) {
		want = "GET"
		sym.Cover("get-for-head")
	} else if rest == 1 || rest == 2 {
		sym.Cover("rest")
		want = []string{"", "all", "any"}[rest]
	} else if rest == 3 && own != "PURGE" {
		sym.Cover("rest")
		want = "each-" + own
	} else {
		sym.Cover("notfound")
	}
	hx.Serve(app, string(m), "/a")
	sym.Observe("ran", ran)
	sym.Assert(len(ran) == 1 && ran[0] == want, "registration-of-this-name")
}

// Each has a method for every registration function.
type Each struct{}

func (Each) Get()     { hit("each-GET") }
func (Each) Post()    { hit("each-POST") }
func (Each) Put()     { hit("each-PUT") }
func (Each) Head()    { hit("each-HEAD") }
func (Each) Delete()  { hit("each-DELETE") }
func (Each) Options() { hit("each-OPTIONS") }
func (Each) Patch()   { hit("each-PATCH") }
func (Each) Trace()   { hit("each-TRACE") }
func (Each) Connect() { hit("each-CONNECT") }

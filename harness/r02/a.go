package h

import (
	"path"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds capture: 2 routes (thorough 3 routes, or 2 of up to 3 segments) over {static a, static b, :p, :p:v, *:w}, flat or nested, GET function handlers, 1..2 (3) path segments of 1 or 3 printable bytes; arguments: one route with 1..2 parameters, every captured text of 1..4 (5) printable bytes, one action method per parameter type; captured texts of up to 4097 (thorough 16385) bytes and routes of up to 65 (257) parameters, of the sizes next to powers of two and round numbers; one route with two parameters in 3 shapes, registered in 5 ways, reached by every method it answers
//sym:assume a pointer parameter whose text does not convert may be nil or point to zero; floating point texts are drawn from a table

func segment(label string) string {
	n := 1
	if sym.Choose(label+".long", 2) == 1 {
		n = 3
	}
	return sym.StringOf(label, n, hx.SegChars)
}

//sym:covers none some abandoned
func H_capture() {
	nested := sym.Choose("nested", 2) == 1
	n, max, segs := 2, 2, 2
	if sym.Thorough() {
		if sym.Choose("shape", 2) == 0 {
			n = 3
		} else {
			max, segs = 3, 3
		}
	}
	var ps []hx.Pattern
	for i := 0; i < n; i++ {
		p := hx.DrawPattern("r"+string(rune('0'+i)), max)
		for _, q := range ps {
			if p.String() == q.String() {
				sym.Stop()
			}
		}
		ps = append(ps, p)
	}
	app, _ := hx.App()
	hit := -1
	var info *strip.RouteInfo
	for i, p := range ps {
		i := i
		h := func(ri *strip.RouteInfo) { hit, info = i, ri }
		if nested && len(p) > 1 {
			app.Routers(strip.Router(p[:1].String(), strip.Router(p[1:].String(), strip.Get(h))))
		} else {
			app.Routers(strip.Router(p.String(), strip.Get(h)))
		}
	}
	req := ""
	for i, k := 0, 1+sym.Choose("segs", segs); i < k; i++ {
		req += "/" + segment("s"+string(rune('0'+i)))
	}
	hx.Serve(app, "GET", req)
	want, vals := hx.Best(ps, strings.Split(path.Clean(req)[1:], "/"))
	if want < 0 {
		sym.Cover("none")
		sym.Assert(info == nil, "route-info-without-route")
		return
	}
	sym.Cover("some")
	sym.Assert(hit == want, "wrong-route")
	names := ps[want].Names()
	if len(names) > 0 && ps[1-want&1].Names() != nil {
		sym.Cover("abandoned")
	}
	sym.Observe("path", info.Path)
	sym.Observe("keys", info.Keys)
	sym.Assert(info.Path == ps[want].String(), "pattern")
	sym.Assert(len(info.Keys) == len(names) && len(info.Values) == len(names), "parameter-count")
	for i, name := range names {
		sym.Assert(info.Keys[i] == name, "parameter-order")
		sym.Assert(len(info.Values[name]) == 1, "parameter-values")
		sym.Assert(info.Values[name][0] == vals[i], "captured-text")
		sym.Assert(info.Get(name) == vals[i], "captured-text")
	}
}

type myInt int8
type myStr string

type C struct{}

var got interface{}
var calls int

func set(v interface{})            { got = v; calls++ }
func (C) Bool(v bool)              { set(v) }
func (C) Int(v int)                { set(v) }
func (C) Int8(v int8)              { set(v) }
func (C) Int16(v int16)            { set(v) }
func (C) Int32(v int32)            { set(v) }
func (C) Int64(v int64)            { set(v) }
func (C) Uint(v uint)              { set(v) }
func (C) Uint8(v uint8)            { set(v) }
func (C) Uint16(v uint16)          { set(v) }
func (C) Uint32(v uint32)          { set(v) }
func (C) Uint64(v uint64)          { set(v) }
func (C) Float32(v float32)        { set(v) }
func (C) Float64(v float64)        { set(v) }
func (C) String(v string)          { set(v) }
func (C) Bytes(v []byte)           { set(string(v)) }
func (C) Strings(v []string)       { set(v) }
func (C) Ints(v []int)             { set(v) }
func (C) Struct(v struct{ X int }) { set(v.X) }
func (C) Iface(v interface{})      { set(v) }
func (C) Map(v map[string]int)     { set(v == nil) }
func (C) MyInt(v myInt)            { set(v) }
func (C) MyStr(v myStr)            { set(v) }
func (C) PInt(v *int)              { set(v) }
func (C) PStr(v *string)           { set(v) }
func (C) Three(a string, b int8, c string) {
	set([]interface{}{a, b, c})
}
func (C) One(a string) { set(a) }
func (C) None()        { set("none") }

func serve(method, pattern, req string) {
	got, calls = nil, 0
	app, _ := hx.App()
	app.Routers(strip.Router(pattern, strip.Get(C{}).Action(method)))
	hx.Serve(app, "GET", req)
	sym.Assert(calls == 1, "action-runs-once")
}

const numChars = "+-0123456789xe_ab"

// Every text as an argument of every scalar type.
//
//sym:covers ok bad
func H_args() {
	types := []string{"Bool", "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "String", "Bytes", "Strings", "MyInt", "MyStr", "PInt", "PStr"}
	ty := types[sym.Choose("type", len(types))]
	n := 1 + sym.Choose("n", sym.Bound(3, 4))
	chars := hx.SegChars
	if n > 3 {
		chars = numChars
	}
	s := sym.StringOf("s", n, chars)
	serve(ty, "/x/:p", "/x/"+s)
	signed := func(bits int) (int64, bool) {
		v, err := strconv.ParseInt(s, 10, bits)
		if err != nil {
			v = 0
			sym.Cover("bad")
		} else {
			sym.Cover("ok")
		}
		return v, err == nil
	}
	unsigned := func(bits int) uint64 {
		v, err := strconv.ParseUint(s, 10, bits)
		if err != nil {
			return 0
		}
		return v
	}
	ok := false
	switch ty {
	case "Bool":
		v, err := strconv.ParseBool(s)
		ok = got.(bool) == (err == nil && v || s == "on")
	case "Int":
		v, _ := signed(64)
		ok = got.(int) == int(v)
	case "Int8":
		v, _ := signed(8)
		ok = got.(int8) == int8(v)
	case "MyInt":
		v, _ := signed(8)
		ok = got.(myInt) == myInt(v)
	case "Int16":
		v, _ := signed(16)
		ok = got.(int16) == int16(v)
	case "Int32":
		v, _ := signed(32)
		ok = got.(int32) == int32(v)
	case "Int64":
		v, _ := signed(64)
		ok = got.(int64) == int64(v)
	case "Uint":
		ok = got.(uint) == uint(unsigned(64))
	case "Uint8":
		ok = got.(uint8) == uint8(unsigned(8))
	case "Uint16":
		ok = got.(uint16) == uint16(unsigned(16))
	case "Uint32":
		ok = got.(uint32) == uint32(unsigned(32))
	case "Uint64":
		ok = got.(uint64) == unsigned(64)
	case "String", "Bytes":
		ok = got.(string) == s
	case "MyStr":
		ok = string(got.(myStr)) == s
	case "PInt":
		v, valid := signed(64)
		p := got.(*int)
		ok = !valid && (p == nil || *p == 0) || valid && p != nil && *p == int(v)
	case "PStr":
		p := got.(*string)
		ok = p != nil && *p == s
	case "Strings":
		var want []string
		for _, e := range strings.Split(s, ",") {
			if e = strings.TrimSpace(e); e != "" {
				want = append(want, e)
			}
		}
		g := got.([]string)
		ok = len(g) == len(want)
		for i := range want {
			ok = ok && g[i] == want[i]
		}
	}
	sym.Observe("got", got)
	sym.Assert(ok, "argument-value")
}

// Long numbers around the limits of every type, floats, and types nothing converts to.
func H_table() {
	nums := []string{"127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295",
		"4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "1e3", "1.5", "-0.25", "1e40", "nan"}
	s := nums[sym.Choose("num", len(nums))]
	types := []string{"Int8", "Int16", "Int32", "Int64", "Int", "Uint8", "Uint16", "Uint32", "Uint64", "Uint", "Float32", "Float64", "Ints", "Struct", "Iface", "Map"}
	ty := types[sym.Choose("type", len(types))]
	serve(ty, "/:p", "/"+s)
	bits := map[string]int{"Int8": 8, "Int16": 16, "Int32": 32, "Uint8": 8, "Uint16": 16, "Uint32": 32}[ty]
	if bits == 0 {
		bits = 64
	}
	i, ierr := strconv.ParseInt(s, 10, bits)
	if ierr != nil {
		i = 0
	}
	u, uerr := strconv.ParseUint(s, 10, bits)
	if uerr != nil {
		u = 0
	}
	f, ferr := strconv.ParseFloat(s, 64)
	if ferr != nil {
		f = 0
	}
	f32, ferr := strconv.ParseFloat(s, 32)
	if ferr != nil {
		f32 = 0
	}
	ok := true
	switch v := got.(type) {
	case int8:
		ok = int64(v) == i
	case int16:
		ok = int64(v) == i
	case int32:
		ok = int64(v) == i
	case int64:
		ok = v == i
	case int:
		ok = int64(v) == i && (ty == "Int" || v == 0)
		if ty == "Struct" {
			ok = v == 0
		}
	case uint8:
		ok = uint64(v) == u
	case uint16:
		ok = uint64(v) == u
	case uint32:
		ok = uint64(v) == u
	case uint64:
		ok = v == u
	case uint:
		ok = uint64(v) == u
	case float32:
		ok = v == float32(f32) || v != v && f32 != f32
	case float64:
		ok = v == f || v != v && f != f
	case []int:
		ok = len(v) == 0
	case bool:
		ok = v
	case nil:
	default:
		ok = false
	}
	sym.Assert(ok, "argument-value")
}

// Several parameters go to the arguments from left to right; missing ones are zero.
func H_order() {
	a := sym.StringOf("a", 1+sym.Choose("la", 2), hx.SegChars)
	b := sym.StringOf("b", 1+sym.Choose("lb", 3), hx.SegChars)
	n, err := strconv.ParseInt(b, 10, 8)
	if err != nil {
		n = 0
	}
	pat, req := "/:x", "/"+a
	two, wild := false, false
	switch sym.Choose("shape", 4) {
	case 1:
		pat, req, two = "/:x/s/:y", "/"+a+"/s/"+b, true
	case 2:
		pat, req, two, wild = "/:x/*:y", "/"+a+"/"+b+"/z", true, true
	case 3:
		pat, req, two = "/:x:go/:y", "/"+a+":go/"+b, true
	}
	switch sym.Choose("action", 3) {
	case 0:
		serve("None", pat, req)
		sym.Assert(got.(string) == "none", "no-arguments")
	case 1:
		serve("One", pat, req)
		sym.Assert(got.(string) == a, "first-argument")
	case 2:
		serve("Three", pat, req)
		g := got.([]interface{})
		sym.Assert(g[0].(string) == a, "first-argument")
		if two && !wild {
			sym.Assert(int64(g[1].(int8)) == n, "second-argument")
		} else {
			sym.Assert(g[1].(int8) == 0, "second-argument-zero")
		}
		sym.Assert(g[2].(string) == "", "missing-argument-zero")
	}
}

// D is reached through All and Any, each method with a signature of its own.
type D struct{}

func (D) Get(a int8)            { set(a) }
func (D) Post(a string, b int8) { set([]interface{}{a, b}) }
func (D) Put()                  { set("put") }
func (D) All(a, b string)       { set([]interface{}{a, b, "all"}) }
func (D) Any(b int8)            { set(b) }

// The arguments follow the signature of the action that runs, not of another one.
func H_dispatched() {
	got, calls = nil, 0
	a := sym.StringOf("a", 1+sym.Choose("n", 3), hx.SegChars)
	app, _ := hx.App()
	any := sym.Choose("any", 2) == 1
	if any {
		app.Routers(strip.Router("/:x/:y", strip.Any(D{})))
	} else {
		app.Routers(strip.Router("/:x/:y", strip.All(D{})))
	}
	m := []string{"GET", "POST", "PUT", "PATCH"}[sym.Choose("method", 4)]
	hx.Serve(app, m, "/"+a+"/7")
	n, err := strconv.ParseInt(a, 10, 8)
	if err != nil {
		n = 0
	}
	sym.Assert(calls == 1, "action-runs-once")
	switch {
	case any || m == "GET":
		v, ok := got.(int8)
		sym.Assert(ok && int64(v) == n, "argument-value")
	case m == "POST":
		g := got.([]interface{})
		sym.Assert(g[0].(string) == a && g[1].(int8) == 7, "argument-value")
	case m == "PUT":
		s, ok := got.(string)
		sym.Assert(ok && s == "put", "argument-value")
	default:
		g := got.([]interface{})
		sym.Assert(len(g) == 3 && g[0].(string) == a && g[1].(string) == "7", "argument-value")
	}
}

// Long captured texts and many parameters on one path.
//
//sym:covers long many
func H_large() {
	app, _ := hx.App()
	var info *strip.RouteInfo
	calls := 0
	h := func(r *strip.RouteInfo) { calls++; info = r }
	if sym.Choose("what", 2) == 0 {
		sym.Cover("long")
		s := hx.Long("text", sym.Bound(4097, 16385), "x:*%+ \xff")
		k := sym.Choose("kind", 3)
		app.Routers(strip.Router([]string{"/:p", "/:p:v", "/*:p"}[k], strip.Get(h)))
		asked, want := s, s
		switch k {
		case 1:
			asked = s + ":v"
		case 2:
			asked, want = s+"/"+s, s+"/"+s
		}
		if strings.TrimSpace(asked) != asked {
			return
		}
		hx.Serve(app, "GET", "/"+asked)
		sym.Assert(calls == 1 && len(info.Keys) == 1 && info.Keys[0] == "p", "captured-keys")
		sym.Assert(info.Values.Get("p") == want, "captured-text")
		var got string
		calls = 0
		app.Routers(strip.Router("/args", strip.Router([]string{"/:p", "/:p:v", "/*:p"}[k], strip.Get(C{}).Action("One"))))
		got, calls = serveOne(app, "/args/"+asked)
		sym.Assert(calls == 1 && got == want, "argument")
		return
	}
	sym.Cover("many")
	n := hx.Size("params", 4, sym.Bound(65, 257))
	pattern, asked := "", ""
	for i := 0; i < n; i++ {
		d := strconv.Itoa(i)
		pattern += "/:p" + d
		asked += "/v" + d
	}
	app.Routers(strip.Router(pattern, strip.Get(h)))
	hx.Serve(app, "GET", asked)
	sym.Assert(calls == 1 && len(info.Keys) == n && len(info.Values) == n, "captured-keys")
	for i := 0; i < n; i++ {
		d := strconv.Itoa(i)
		sym.Assert(info.Keys[i] == "p"+d, "captured-in-order")
		sym.Assert(info.Values.Get("p"+d) == "v"+d && len(info.Values["p"+d]) == 1, "captured-text")
	}
}

func serveOne(app *strip.Strip, path string) (string, int) {
	got, calls = nil, 0
	hx.Serve(app, "GET", path)
	s, _ := got.(string)
	return s, calls
}

// E records what it was called with, and the route info it was given.
type E struct {
	Info *strip.RouteInfo `inject`
}

var seen *strip.RouteInfo

func (e *E) Get(a string, b int16)   { seen = e.Info; set([]interface{}{a, b}) }
func (e *E) Head(a string, b int16)  { seen = e.Info; set([]interface{}{a, b}) }
func (e *E) Patch(a string, b int16) { seen = e.Info; set([]interface{}{a, b}) }
func (e *E) All(a string, b int16)   { seen = e.Info; set([]interface{}{a, b}) }
func (e *E) Any(a string, b int16)   { seen = e.Info; set([]interface{}{a, b}) }

// Whatever a route is registered for, and with whichever method it is reached (a HEAD request by the route
// for GET as well), the parameters are those of the path.
//
//sym:covers head function controller
func H_ways() {
	got, calls, seen = nil, 0, nil
	a := sym.StringOf("a", 1+sym.Choose("n", 2), hx.SegChars)
	b := sym.StringOf("b", 1, "07x")
	var h interface{} = &E{}
	fun := sym.Choose("function", 2) == 1
	if fun {
		sym.Cover("function")
		h = func(info *strip.RouteInfo) { seen = info; calls++ }
	} else {
		sym.Cover("controller")
	}
	regs := []strip.Handler{strip.Get(h), strip.Head(h), strip.Patch(h), strip.All(h), strip.Any(h)}
	methods := [][]string{{"GET", "HEAD"}, {"HEAD"}, {"PATCH"}, {"GET", "HEAD", "PATCH", "PURGE"}, {"GET", "HEAD", "OPTIONS", "PURGE"}}
	k := sym.Choose("registered", 5)
	m := methods[k][sym.Choose("method", len(methods[k]))]
	if m == "HEAD" {
		sym.Cover("head")
	}
	app, _ := hx.App()
	req := "/" + a + "/s/" + b
	route := strip.Router("/:x/s/:y", regs[k])
	pattern := "/:x/s/:y"
	switch sym.Choose("shape", 3) {
	case 1:
		route = strip.Router("/:x", strip.Router("/s", strip.Router("/:y", regs[k])))
	case 2:
		route = strip.Router("/:x/s/*:y", regs[k])
		pattern = "/:x/s/*:y"
	}
	app.Routers(route)
	hx.Serve(app, m, req)
	sym.Assert(calls == 1, "action-runs-once")
	sym.Assert(seen != nil && seen.Path == pattern, "pattern")
	sym.Assert(len(seen.Keys) == 2 && len(seen.Values) == 2, "parameter-count")
	sym.Assert(seen.Keys[0] == "x" && seen.Keys[1] == "y", "parameter-order")
	sym.Assert(seen.Get("x") == a && seen.Get("y") == b, "captured-text")
	if !fun {
		n, err := strconv.ParseInt(b, 10, 16)
		if err != nil {
			n = 0
		}
		g := got.([]interface{})
		sym.Assert(g[0].(string) == a && int64(g[1].(int16)) == n, "argument-value")
	}
}

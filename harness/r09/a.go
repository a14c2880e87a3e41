package h

import (
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils/apires"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds every body kind (none, text, bytes, reader, one that gives a byte a read, one of 8 kB, closer, JSON values of 6 shapes) with texts of up to 3 arbitrary (JSON: ASCII) bytes, statuses 0 and 200..999, derivation chains of up to 3 WithData/WithMsg/WithMsgf steps, in development and production mode; texts of up to 65537 bytes
//sym:assume JSON bodies are values encoding/json can encode

type rd struct {
	*strings.Reader
	closed int
}

func (r *rd) Close() error { r.closed++; return nil }

// few gives one byte a read, as a connection may, and the end together with the last one or after it.
type few struct {
	s    string
	last bool
}

func (r *few) Read(p []byte) (int, error) {
	if r.s == "" {
		return 0, io.EOF
	}
	p[0], r.s = r.s[0], r.s[1:]
	if r.last && r.s == "" {
		return 1, io.EOF
	}
	return 1, nil
}

func serve(mode string, res interface{}) *hx.Rec {
	app, _ := hx.App()
	app.Config.RunMode = strip.Mode(mode)
	app.Filter(strip.GenericOutFilter())
	switch v := res.(type) {
	case *apires.RawBody:
		app.Routers(strip.Get(func() *apires.RawBody { return v }))
	case *apires.ResBody:
		app.Routers(strip.Get(func() strip.ActionResult { return v }))
	case *apires.ResError:
		app.Routers(strip.Get(func() error { return v }))
	}
	rec := hx.Serve(app, "GET", "/")
	sym.Assert(len(rec.Codes) == 1, "one-response")
	return rec
}

func status() (given, want int) {
	if sym.Choose("nostatus", 2) == 1 {
		return 0, 200
	}
	c := sym.IntRange("status", 200, 999)
	return c, c
}

// The raw result with every kind of body.
//
//sym:covers nocontent body empty
func H_raw() {
	code, want := status()
	s := sym.String("body", sym.Choose("len", 4))
	var body interface{}
	out := s
	r := &rd{strings.NewReader(s), 0}
	closes := 0
	switch sym.Choose("kind", 10) {
	case 0:
		out = ""
	case 1:
		body = s
	case 2:
		body = []byte(s)
	case 3:
		body = strings.NewReader(s)
	case 4:
		body = r
		closes = 1
	case 5:
		body = map[string]int{"a": 1}
		out = `{"a":1}`
	case 6:
		body = []interface{}{nil, true, "x"}
		out = `[null,true,"x"]`
	case 7:
		body = 12
		out = "12"
	case 8:
		body = &few{s, sym.Choose("last", 2) == 1}
	case 9:
		long := strings.Repeat("0123456789abcdef", 257)
		out = long + s + long
		body = strings.NewReader(out)
	}
	var res *apires.RawBody
	switch sym.Choose("ctor", 3) {
	case 0:
		res = &apires.RawBody{Status: code, Body: body}
	case 1:
		if code == 0 {
			res = apires.RawWith(body)
		} else {
			res = apires.RawWith(body, code)
		}
	case 2:
		res = apires.RawRet(code)
		body, out, closes = nil, "", 0
	}
	rec := serve("prod", res)
	sym.Assert(rec.Codes[0] == want, "status")
	if want == 204 {
		sym.Cover("nocontent")
		sym.Assert(len(rec.Body) == 0, "no-content")
		return
	}
	if out == "" {
		sym.Cover("empty")
	} else {
		sym.Cover("body")
	}
	sym.Assert(string(rec.Body) == out, "body")
	sym.Assert(r.closed == closes, "closed")
	// the same value written again gives the same answer
	if closes == 0 && body != nil {
		if _, isReader := body.(io.Reader); !isReader {
			rec2 := serve("prod", res)
			sym.Assert(rec2.Codes[0] == want && string(rec2.Body) == out, "second-use")
		}
	}
}

type payload struct {
	Name string   `json:"name"`
	N    int      `json:"n"`
	L    []string `json:"l,omitempty"`
}

// JSON results.
func H_json() {
	code, want := status()
	s := sym.ASCII("text", sym.Choose("len", 3))
	mode := []string{"dev", "prod"}[sym.Choose("mode", 2)]
	var res *apires.ResBody
	p := payload{s, 3, nil}
	kind := sym.Choose("kind", 4)
	switch kind {
	case 0:
		res = &apires.ResBody{Status: code, Body: p}
	case 1:
		if code == 0 {
			res = apires.With(&p)
		} else {
			res = apires.With(&p, code)
		}
	case 2:
		res = apires.Ret(code)
	case 3:
		res = apires.With([]payload{p}, want)
	}
	rec := serve(mode, res)
	sym.Assert(rec.Codes[0] == want, "status")
	if want == 204 {
		sym.Assert(len(rec.Body) == 0, "no-content")
		return
	}
	sym.Assert(strings.HasPrefix(rec.Sent.Get("Content-Type"), "application/json"), "content-type")
	sym.Observe("body", rec.Body)
	var got []payload
	switch kind {
	case 0, 1:
		var g payload
		sym.Assert(json.Unmarshal(rec.Body, &g) == nil, "json")
		got = append(got, g)
	case 2:
		sym.Assert(strings.TrimSpace(string(rec.Body)) == "{}", "empty-json")
		return
	case 3:
		sym.Assert(json.Unmarshal(rec.Body, &got) == nil, "json")
	}
	sym.Assert(len(got) == 1 && got[0].Name == s && got[0].N == 3 && got[0].L == nil, "content")
}

// Errors derived from a predefined one, and the predefined one afterwards.
//
//sym:covers derived
func H_errors() {
	code, want := status()
	num := []int{0, 41}[sym.Choose("code", 2)]
	msg := "base"
	base := apires.NewResError(code, num, msg)
	var baseData interface{}
	if sym.Choose("data", 2) == 1 {
		base = apires.NewResError(code, num, msg, "d0")
		baseData = "d0"
	}
	type want1 struct {
		e    *apires.ResError
		msg  string
		data interface{}
	}
	all := []want1{{base, msg, baseData}}
	for i, n := 0, sym.Choose("steps", sym.Bound(2, 3)+1); i < n; i++ {
		from := all[sym.Choose("from", len(all))]
		t := string(rune('p' + i))
		if i == n-1 {
			t = sym.ASCII("t", 1)
		}
		var w want1
		switch sym.Choose("op", 7) {
		case 0:
			w = want1{from.e.WithMsg(t), t, from.data}
		case 1:
			w = want1{from.e.WithData(t), t, t}
		case 2:
			w = want1{from.e.WithData(t, "m"), "m", t}
		case 3:
			w = want1{from.e.WithMsgf("%s-%d", t, 7), t + "-7", from.data}
		case 4:
			w = want1{from.e.WithData(5), from.msg, float64(5)}
		case 5:
			w = want1{from.e.WithData(nil), from.msg, nil}
		case 6:
			w = want1{from.e.WithMsgf("100%%"), "100%", from.data}
		}
		sym.Cover("derived")
		all = append(all, w)
	}
	mode := []string{"dev", "prod"}[sym.Choose("mode", 2)]
	k := sym.Choose("which", len(all))
	w := all[k]
	rec := serve(mode, w.e)
	sym.Assert(rec.Codes[0] == want, "status")
	sym.Assert(w.e.EqualAny(base), "equal-to-the-predefined-error")
	if want == 204 {
		return
	}
	var got struct {
		Code    int         `json:"code"`
		Message string      `json:"message"`
		Data    interface{} `json:"data"`
	}
	sym.Assert(json.Unmarshal(rec.Body, &got) == nil, "json")
	sym.Assert(got.Code == num, "code")
	sym.Assert(got.Message == w.msg, "message")
	sym.Assert(got.Data == w.data, "data")
	// every other error is what it was
	for i, o := range all {
		d := o.e.Data
		if n, ok := d.(int); ok {
			d = float64(n)
		}
		sym.Assert(o.e.Message == o.msg && d == o.data && o.e.Code == num, "other-error-changed")
		if i == 0 && code != 0 {
			sym.Assert(o.e.Status == code, "other-error-changed")
		}
	}
}

func H_helpers() {
	code := sym.IntRange("status", 100, 599)
	e := apires.NewResError(code, 1, "m")
	var err error = e
	ok, st := apires.GetHttpCode(err)
	sym.Assert(ok && st == code && e.HttpCode() == code && apires.IsResError(err), "http-code")
	ok, st = apires.GetHttpCode(errors.New("x"))
	sym.Assert(!ok && st == 0 && !apires.IsResError(errors.New("x")), "other-error")
	sym.Assert((*apires.ResError)(nil).Error() == "", "nil-error")
	other := sym.IntRange("other", 100, 599)
	c2 := sym.IntRange("code2", 0, 3)
	sym.Assert(e.EqualAny(apires.NewResError(other, c2, "z")) == (other == code && c2 == 1), "equal-any")
	sym.Assert(!e.EqualAny(), "equal-none")
	_ = http.StatusOK
}

// Large results.
//
//sym:covers raw json
func H_large() {
	s := hx.Long("text", sym.Bound(65537, 65537), "xyz")
	code := []int{200, 201, 503}[sym.Choose("status", 3)]
	if kind := sym.Choose("kind", 5); kind < 4 {
		sym.Cover("raw")
		r := &rd{strings.NewReader(s), 0}
		rec := serve("prod", apires.RawWith([]interface{}{s, []byte(s), strings.NewReader(s), r}[kind], code))
		sym.Assert(rec.Codes[0] == code && string(rec.Body) == s, "body")
		sym.Assert(kind < 3 || r.closed == 1, "closed")
		return
	}
	sym.Cover("json")
	rec := serve([]string{"dev", "prod"}[sym.Choose("mode", 2)], apires.With(&payload{"n", 3, []string{s, "x"}}, code))
	var g payload
	sym.Assert(rec.Codes[0] == code && json.Unmarshal(rec.Body, &g) == nil, "json")
	sym.Assert(g.Name == "n" && g.N == 3 && len(g.L) == 2 && g.L[0] == s && g.L[1] == "x", "content")
}

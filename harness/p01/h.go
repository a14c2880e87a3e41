package h

import (
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"strings"
	"sync"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
	"github.com/wujiu2020/strip/zz_verif/symfs"
)

//sym:bounds up to 3 (thorough 5) parameters, each from the query, the body or the path, two keys, values of one arbitrary byte, every method, an urlencoded or multipart body with four spellings of its content type, other content types and none; raw query and body texts of up to 5 (thorough 7) characters over letters, = & + % ; digits; multipart bodies with one arbitrary byte anywhere in the delimiters and headers; up to 2 uploaded files of up to 2 arbitrary bytes, kept in memory and on disk; two requests at once; values of up to 8193 (thorough 65537) bytes and up to 513 (2049) parameters, of the sizes next to powers of two and round numbers
//sym:assume a multipart body has at most 1000 parts, the limit of Go's reader

type pair struct{ k, v string }

func escape(s string, plus bool) string {
	const hex = "0123456789ABCDEF"
	out := []byte{}
	for i := 0; i < len(s); i++ {
		out = append(out, '%', hex[s[i]>>4], hex[s[i]&15])
	}
	return string(out)
}

func encode(l []pair) string {
	parts := []string{}
	for _, p := range l {
		parts = append(parts, p.k+"="+escape(p.v, false))
	}
	return strings.Join(parts, "&")
}

const boundary = "bb"

func multi(l []pair) string {
	out := ""
	for _, p := range l {
		out += "--" + boundary + "\r\nContent-Disposition: form-data; name=\"" + p.k + "\"\r\n\r\n" + p.v + "\r\n"
	}
	return out + "--" + boundary + "--\r\n"
}

func body(req *http.Request, text string) {
	req.Body = io.NopCloser(strings.NewReader(text))
	req.ContentLength = int64(len(text))
}

func newApp(handler interface{}) (*strip.Strip, *hx.Discard) {
	app, log := hx.App()
	app.Provide(params.ParamsParser())
	app.Routers(strip.Router("/h", strip.All(handler)), strip.Router("/p/:a", strip.All(handler)), strip.Router("/p/:a/:b", strip.All(handler)))
	return app, log
}

func equal(got url.Values, want []pair) {
	n := 0
	for _, k := range []string{"a", "b"} {
		i := 0
		for _, p := range want {
			if p.k != k {
				continue
			}
			if i < len(got[k]) {
				sym.Assert(got[k][i] == p.v, "value-as-sent")
			}
			i++
		}
		sym.Assert(len(got[k]) == i, "every-value-exactly-once")
		if i > 0 {
			n++
		}
	}
	sym.Assert(len(got) == n, "no-other-key")
}

//sym:covers urlencoded multipart ignored query route get repeated
func H_sources() {
	var q, f, r []pair
	for i, n := 0, sym.Choose("params", sym.Bound(4, 6)); i < n; i++ {
		p := pair{[]string{"a", "b"}[sym.Choose("key", 2)], sym.String("value", 1)}
		switch sym.Choose("source", 3) {
		case 0:
			q = append(q, p)
		case 1:
			f = append(f, p)
		case 2:
			// path parameters come once, a before b
			sym.Assume(len(r) == 0 && p.k == "a" || len(r) == 1 && p.k == "b")
			sym.Assume(p.v != "/" && p.v != "." && p.v != " " && p.v != "\t" && p.v != "\n" && p.v != "\r" && p.v != "\v" && p.v != "\f" && p.v[0] < 0x80)
			r = append(r, p)
		}
	}
	path := "/h"
	if len(r) > 0 {
		path = "/p"
		for _, p := range r {
			path += "/" + p.v
		}
		sym.Cover("route")
	}
	var got *params.Params
	runs := 0
	app, _ := newApp(func(p *params.Params) { got = p; runs++ })
	method := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD"}[sym.Choose("method", 6)]
	req := hx.Request(method, path)
	req.URL.RawQuery = encode(q)
	kind := sym.Choose("body", 8)
	seen := true
	switch kind {
	case 0, 1, 2:
		req.Header.Set("Content-Type", []string{"application/x-www-form-urlencoded", "Application/X-WWW-Form-Urlencoded; charset=utf-8", " application/x-www-form-urlencoded ; q=1"}[kind])
		body(req, encode(f))
		seen = method == "POST" || method == "PUT" || method == "PATCH"
	case 3, 4:
		req.Header.Set("Content-Type", []string{"multipart/form-data; boundary=" + boundary, "Multipart/Form-Data; charset=utf-8; boundary=\"" + boundary + "\""}[kind-3])
		body(req, multi(f))
		sym.Cover("multipart")
	case 5:
		req.Header.Set("Content-Type", "text/plain")
		body(req, encode(f))
		seen = false
	case 6:
		body(req, encode(f))
		seen = false
	case 7:
		req.Header.Set("Content-Type", "application/json")
		body(req, "{}")
		seen = false
	}
	if seen && kind < 3 {
		sym.Cover("urlencoded")
	}
	if !seen {
		f = nil
		sym.Cover("ignored")
	}
	rec := hx.NewRec()
	app.ServeHTTP(rec, req)
	sym.Assert(runs == 1 && got != nil, "handler-ran-once")
	equal(got.Query, q)
	equal(got.Form, f)
	equal(got.Route.Values, r)
	equal(got.Values, append(append(append([]pair{}, q...), r...), f...))
	sym.Assert(len(got.Files) == 0, "no-files")
	if len(q) > 0 {
		sym.Cover("query")
	}
	if len(q) > 1 && q[0].k == q[1].k {
		sym.Cover("repeated")
	}
	if method == "GET" {
		sym.Cover("get")
	}
	for _, k := range []string{"a", "b"} {
		var s string
		var l []string
		got.Bind(&s, k)
		got.Bind(&l, k)
		sym.Assert(len(got.Values[k]) == 0 && s == "" || len(got.Values[k]) > 0 && s == got.Values[k][0], "bound-by-key")
	}
}

// Any text as a query and as a body: what is well-formed is there, nothing panics.
//
//sym:covers wellformed malformed
func H_texts() {
	var got *params.Params
	runs := 0
	app, log := newApp(func(p *params.Params) { got = p; runs++ })
	chars := "ab=&+%;2"
	req := hx.Request("POST", "/h")
	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	text := sym.StringOf("text", sym.Choose("len", sym.Bound(6, 8)), chars)
	inBody := sym.Choose("where", 2) == 1
	want := pairs(text)
	wellformed := want != nil
	if inBody {
		body(req, text)
		req.URL.RawQuery = "b=q"
	} else {
		body(req, "b=f")
		req.URL.RawQuery = text
	}
	rec := hx.NewRec()
	app.ServeHTTP(rec, req)
	sym.Assert(runs == 1 && got != nil && rec.Code() == 200, "handler-ran-once")
	if !wellformed {
		sym.Cover("malformed")
		// one record per request at most, but the handler does not learn of it
		sym.Assert(len(log.Lines) >= 1, "error-logged")
		return
	}
	sym.Cover("wellformed")
	if inBody {
		any(got.Form, want)
		equal(got.Query, []pair{{"b", "q"}})
		any(got.Values, append([]pair{{"b", "q"}}, want...))
	} else {
		any(got.Query, want)
		equal(got.Form, []pair{{"b", "f"}})
		any(got.Values, append(append([]pair{}, want...), pair{"b", "f"}))
	}
}

func any(got url.Values, want []pair) {
	n := 0
	for _, l := range got {
		n += len(l)
	}
	sym.Assert(n == len(want), "every-value-exactly-once")
	for i, p := range want {
		at := 0
		for _, e := range want[:i] {
			if e.k == p.k {
				at++
			}
		}
		l := got[p.k]
		sym.Assert(at < len(l) && l[at] == p.v, "value-as-sent")
	}
}

// pairs is the content of an urlencoded text, nil if it is malformed.
func pairs(text string) []pair {
	l := []pair{}
	for _, part := range strings.Split(text, "&") {
		if strings.Contains(part, ";") {
			return nil
		}
		if part == "" {
			continue
		}
		k, v := part, ""
		if i := strings.Index(part, "="); i >= 0 {
			k, v = part[:i], part[i+1:]
		}
		k, ok := unescape(k)
		if !ok {
			return nil
		}
		v, ok = unescape(v)
		if !ok {
			return nil
		}
		l = append(l, pair{k, v})
	}
	return l
}

func digit(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c == 'a' || c == 'b':
		return int(c-'a') + 10
	}
	return -1
}

func unescape(s string) (string, bool) {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			out = append(out, ' ')
		case '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, l := digit(s[i+1]), digit(s[i+2])
			if h < 0 || l < 0 {
				return "", false
			}
			out = append(out, byte(h<<4|l))
			i += 2
		default:
			out = append(out, s[i])
		}
	}
	return string(out), true
}

// A multipart body with a byte changed somewhere.
//
//sym:covers kept
func H_broken() {
	var got *params.Params
	runs := 0
	app, _ := newApp(func(p *params.Params) { got = p; runs++ })
	text := "--bb\r\nContent-Disposition: form-data; name=\"a\"; filename=\"x\"\r\n\r\nV\r\n--bb--\r\n"
	if sym.Choose("plain", 2) == 1 {
		text = "--bb\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nV\r\n--bb--\r\n"
	}
	at := sym.Choose("at", len(text))
	with := sym.StringOf("byte", 1, "\r\n-b\";=:/ \x00")
	text = text[:at] + with + text[at+1:]
	if sym.Choose("short", 2) == 1 {
		text = text[:at]
	}
	req := hx.Request("POST", "/h")
	req.Header.Set("Content-Type", []string{"multipart/form-data; boundary=bb", "multipart/form-data", "multipart/form-data; boundary=\x00", "multipart/form-data; boundary"}[sym.Choose("type", 4)])
	req.URL.RawQuery = "b=q"
	body(req, text)
	rec := hx.NewRec()
	app.ServeHTTP(rec, req)
	sym.Assert(runs == 1 && got != nil && rec.Code() == 200, "handler-ran-once")
	equal(got.Query, []pair{{"b", "q"}})
	sym.Cover("kept")
}

// Uploaded files can be read by the handler, and leave nothing behind.
//
//sym:covers memory disk failing
func H_uploads() {
	symfs.Mkdirs("tmp")
	os.Setenv("TMPDIR", symfs.Dir()+"/tmp")
	n := 1 + sym.Choose("files", 2)
	var data []string
	text := ""
	for i := 0; i < n; i++ {
		d := sym.String("data", 1+sym.Choose("size", 2))
		for j := 0; j < len(d); j++ {
			sym.Assume(d[j] != '\r' && d[j] != '\n' && d[j] != '-')
		}
		data = append(data, d)
		text += "--bb\r\nContent-Disposition: form-data; name=\"" + []string{"a", "b"}[i] + "\"; filename=\"x\"\r\n\r\n" + d + "\r\n"
	}
	text += "--bb\r\nContent-Disposition: form-data; name=\"c\"\r\n\r\n1\r\n--bb--\r\n"
	mode := sym.Choose("handler", 3)
	runs := 0
	read := func(h *multipart.FileHeader, want string) {
		f, err := h.Open()
		sym.Assert(err == nil, "uploaded-file-opens")
		b, err := io.ReadAll(f)
		sym.Assert(err == nil && string(b) == want, "uploaded-content")
		f.Close()
	}
	app, _ := newApp(func(p *params.Params) {
		runs++
		sym.Assert(len(p.Files) == n, "files")
		sym.Assert(len(p.Form) == 1 && p.Form.Get("c") == "1", "form")
		for i, d := range data {
			l := p.Files[[]string{"a", "b"}[i]]
			sym.Assert(len(l) == 1, "one-file")
			read(l[0], d)
			if mode == 1 {
				f, _ := l[0].Open()
				defer f.Close()
			}
		}
		if mode == 2 {
			panic("handler")
		}
	})
	if mode == 2 {
		app.Filter(strip.RecoveryFilter())
	}
	conf := conf{}
	if sym.Choose("disk", 2) == 1 {
		conf["max_memory"] = "1"
		sym.Cover("disk")
	} else {
		sym.Cover("memory")
	}
	app.Config.Configer = conf
	req := hx.Request("POST", "/h")
	req.Header.Set("Content-Type", "multipart/form-data; boundary=bb")
	body(req, text)
	rec := hx.NewRec()
	app.ServeHTTP(rec, req)
	sym.Assert(runs == 1, "handler-ran-once")
	if mode == 2 {
		sym.Assert(rec.Code() == 500, "failed")
		sym.Cover("failing")
	}
	left, err := os.ReadDir(symfs.Dir() + "/tmp")
	sym.Assert(err == nil && len(left) == 0, "temporary-file-left")
	sym.Assert(symfs.Open() == 0, "file-left-open")
}

type conf map[string]string

func (c conf) Find(name string) string { return c[name] }

//sym:race
//sym:stress 30

// Two first requests at once.
//
//sym:covers both
//sym:preempt 1 2
func H_atonce() {
	sym.Race()
	app, _ := newApp(func(p *params.Params, rw http.ResponseWriter) { rw.Write([]byte(p.Query.Get("a"))) })
	app.Config.Configer = conf{"max_memory": "100"}
	var wg sync.WaitGroup
	out := make([]string, 2)
	for i := range out {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			req := hx.Request("GET", "/h")
			req.URL.RawQuery = "a=" + string(rune('0'+i))
			rec := hx.NewRec()
			app.ServeHTTP(rec, req)
			out[i] = string(rec.Body)
		}(i)
	}
	wg.Wait()
	sym.Assert(out[0] == "0" && out[1] == "1", "own-parameters")
	sym.Cover("both")
}

// Many parameters and long values.
//
//sym:covers long many
func H_large() {
	var got *params.Params
	runs := 0
	app, _ := newApp(func(p *params.Params) { got = p; runs++ })
	var l []pair
	if sym.Choose("what", 2) == 0 {
		sym.Cover("long")
		l = []pair{{"a", hx.Long("value", sym.Bound(8193, 65537), "&=%+\x00\xff")}, {"b", "x"}}
	} else {
		sym.Cover("many")
		for i, n := 0, hx.Size("params", 4, sym.Bound(513, 2049)); i < n; i++ {
			l = append(l, pair{[]string{"a", "b"}[i&1], strings.Repeat("v", i%7)})
		}
	}
	req := hx.Request("POST", "/h")
	var q, f []pair
	switch sym.Choose("source", 3) {
	case 0:
		q = l
		req.URL.RawQuery = encode(l)
	case 1:
		f = l
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		body(req, encode(l))
	case 2:
		f = l
		sym.Assume(len(l) <= 1000) // as many parts as Go takes
		for _, p := range l {
			for j := 0; j < len(p.v) && j < 64; j++ {
				sym.Assume(p.v[j] != '\r')
			}
		}
		req.Header.Set("Content-Type", "multipart/form-data; boundary="+boundary)
		body(req, multi(l))
	}
	app.ServeHTTP(hx.NewRec(), req)
	sym.Assert(runs == 1 && got != nil, "handler-ran-once")
	equal(got.Query, q)
	equal(got.Form, f)
	equal(got.Values, l)
}

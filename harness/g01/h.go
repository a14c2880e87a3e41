package h

import (
	"bufio"
	"bytes"
	"errors"
	"net"
	"net/http"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/gzip"
	"github.com/wujiu2020/strip/zz_verif/gz"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds 16 forms of Accept-Encoding (none, gzip alone, among others, refused with q=0, other encodings), and every list of up to two codings with one of 8 weights or none, another parameter, any case and spaces; every sequence of up to 3 (thorough 4; 2 with each Accept-Encoding and for HEAD) of: a write of 0..2 arbitrary bytes, a status (200, 204, 304, 404), a flush, a Content-Length, a Content-Type, a Content-Encoding of the handler's own, a Content-Range, a Vary, a panic; below or above a recovery filter in development or production mode, with and without a Vary from an outer filter; GET and HEAD; connections that a handler takes over, that refuse it, and that cannot be taken over; bodies of up to 65537 bytes of the sizes next to powers of two and round numbers, in one piece or several
//sym:assume compress/gzip writes a complete stream of what is written once it is closed (model)

// accepts is whether the client takes gzip: it names it, and not with a weight of zero.
var accepts = []struct {
	header string
	yes    bool
}{
	{"", false}, {"gzip", true}, {"deflate, gzip", true}, {"gzip, deflate, br", true}, {"gzip;q=1.0", true}, {"gzip;q=0.5, *;q=0", true},
	{"gzip;q=0", false}, {"identity, gzip;q=0", false}, {"gzip; q=0.000", false}, {"gzip ;q=0.0, br", false}, {"identity", false},
	{"br", false}, {"deflate", false}, {"xgzipx", false}, {"gzip;q=0.001", true}, {"*;q=1, gzip;q=0", false},
}

func H_body()   { run(sym.Bound(3, 4), "GET", 1+sym.Choose("accept", 1), false) }
func H_accept() { run(2, "GET", sym.Choose("accept", len(accepts)), true) }
func H_head()   { run(2, "HEAD", sym.Choose("accept", 2), false) }

func run(max int, method string, accept int, vary bool) {
	app, _ := hx.App()
	if sym.Choose("mode", 2) == 1 {
		app.Config.RunMode = strip.Mode("prod")
	} else {
		app.Config.RunMode = strip.Mode("dev")
	}
	inner := sym.Choose("recovery-inside", 2) == 1
	if !inner {
		app.Filter(strip.RecoveryFilter())
	}
	if vary {
		app.Filter(func(rw http.ResponseWriter) { rw.Header().Set("Vary", "Cookie") })
	}
	app.Filter(gzip.All())
	if inner {
		app.Filter(strip.RecoveryFilter())
	}
	var want []byte
	varies := false
	own, panics, wrote := false, false, false
	length := -1
	rec := hx.NewRec()
	script := func(rw http.ResponseWriter) {
		n := sym.Choose("ops", max+1)
		for i := 0; i < n; i++ {
			l := strconv.Itoa(i)
			switch sym.Choose("op", 9) {
			case 0:
				b := []byte(sym.String(l+"-bytes", sym.Choose("size", 3)))
				m, err := rw.Write(b)
				sym.Assert(err == nil && m == len(b), "write-result")
				want = append(want, b...)
				wrote = true
			case 1:
				rw.WriteHeader([]int{200, 204, 304, 404}[sym.Choose("status", 4)])
			case 2:
				rw.(http.Flusher).Flush()
				if len(want) > 0 && rec.H.Get("Content-Encoding") == "gzip" && !own {
					got, _ := gz.Decode(rec.Body)
					sym.Assert(bytes.Equal(got, want), "flushed")
				}
			case 3:
				length = sym.Choose("length", 3)
				rw.Header().Set("Content-Length", strconv.Itoa(length))
			case 4:
				rw.Header().Set("Content-Type", "x/y")
			case 5:
				own = true
				rw.Header().Set("Content-Encoding", "br")
			case 7:
				own = true
				rw.Header().Set("Content-Range", "bytes 1-1/3")
			case 8:
				varies = varies || rec.Sent == nil
				rw.Header().Set("Vary", "Origin")
			case 6:
				panics = true
				panic("x")
			}
		}
	}
	app.Routers(strip.Router("/x", strip.Get(script), strip.Head(script)))
	req := hx.Request(method, "/x")
	if a := accepts[accept]; a.header != "" {
		req.Header.Set("Accept-Encoding", a.header)
	}
	app.ServeHTTP(rec, req)

	head := rec.Sent
	if head == nil {
		head = rec.H
	}
	enc := head["Content-Encoding"]
	sym.Assert(len(enc) <= 1, "one-encoding")
	body := rec.Body
	if len(enc) == 1 && enc[0] == "gzip" {
		sym.Cover("compressed")
		sym.Assert(accepts[accept].yes, "only-if-accepted")
		got, complete := gz.Decode(body)
		sym.Assert(complete, "complete")
		body = got
		_, in := head["Content-Length"]
		sym.Assert(!in, "no-stale-length")
		v := strings.Join(head["Vary"], ", ")
		sym.Assert(strings.Contains(v, "Accept-Encoding"), "vary")
		if varies {
			sym.Assert(strings.Contains(v, "Origin"), "vary-kept")
		} else if vary {
			sym.Assert(strings.Contains(v, "Cookie"), "vary-kept")
		}
	} else {
		sym.Cover("plain")
		sym.Assert(len(enc) == 0 || own && enc[0] == "br", "other-encoding")
		sym.Assert(!(accepts[accept].yes && wrote && len(want) > 0 && !own), "compressed-if-accepted")
	}
	if panics {
		sym.Cover("panicked")
		sym.Assert(bytes.HasPrefix(body, want), "panicked-body")
		if len(body) > len(want) { // the page of the recovery filter
			sym.Assert(!wrote && bytes.HasPrefix(body, []byte("<html>")), "panicked-page")
		}
	} else {
		sym.Assert(bytes.Equal(body, want), "body")
	}
}

// taken is a connection that a handler can take over.
type taken struct {
	*hx.Rec
	fail bool
	n    int
}

func (t *taken) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if t.fail {
		return nil, nil, errors.New("no")
	}
	t.n++
	return nil, nil, nil
}

// A handler that takes the connection over gets it as it is: nothing of ours is written to it.
//
//sym:covers taken refused unable
func H_hijack() {
	rec := hx.NewRec()
	conn := &taken{rec, sym.Choose("refuses", 2) == 1, 0}
	var rw http.ResponseWriter = conn
	able := sym.Choose("able", 2) == 1
	if !able {
		rw = rec
	}
	app, _ := hx.App()
	if sym.Choose("recovery", 2) == 1 {
		app.Filter(strip.RecoveryFilter())
	}
	app.Filter(gzip.All())
	data := sym.String("data", sym.Choose("size", 3))
	want := ""
	app.Routers(strip.Router("/x", strip.Get(func(w http.ResponseWriter) {
		if sym.Choose("header", 2) == 1 {
			w.Header().Set("Content-Type", "x/y")
		}
		h, ok := w.(http.Hijacker)
		sym.Assert(ok, "offers-the-connection")
		_, _, err := h.Hijack()
		sym.Assert((err == nil) == (able && !conn.fail), "hijack-result")
		if err != nil && data != "" {
			want = data
			w.Write([]byte(data))
		}
	})))
	req := hx.Request("GET", "/x")
	accept := sym.Choose("accept", 2)
	req.Header.Set("Accept-Encoding", []string{"br", "gzip"}[accept])
	app.ServeHTTP(rw, req)
	if able && !conn.fail {
		sym.Cover("taken")
		sym.Assert(conn.n == 1, "taken-once")
		sym.Assert(len(rec.Codes) == 0 && len(rec.Body) == 0 && rec.Flushes == 0, "nothing-of-ours-on-it")
		return
	}
	if able {
		sym.Cover("refused")
	} else {
		sym.Cover("unable")
	}
	body := rec.Body
	if rec.Sent.Get("Content-Encoding") == "gzip" {
		sym.Assert(accept == 1, "only-if-accepted")
		got, complete := gz.Decode(body)
		sym.Assert(complete, "complete")
		body = got
	}
	sym.Assert(string(body) == want, "body")
}

// Large bodies in one piece and in many.
//
//sym:covers compressed
func H_large() {
	app, _ := hx.App()
	app.Filter(gzip.All())
	s := hx.Long("body", 65537, "\x00\n\xff")
	many := sym.Choose("pieces", 2) == 1
	app.Routers(strip.Router("/x", strip.Get(func(rw http.ResponseWriter) {
		if !many {
			rw.Write([]byte(s))
			return
		}
		step := len(s)/50 + 1
		buf := make([]byte, step)
		for i := 0; i < len(s); i += step {
			n := copy(buf, s[i:])
			rw.Write(buf[:n]) // the buffer is used again
			if i == step {
				rw.(http.Flusher).Flush()
			}
		}
	})))
	rec := hx.NewRec()
	req := hx.Request("GET", "/x")
	req.Header.Set("Accept-Encoding", "gzip")
	app.ServeHTTP(rec, req)
	sym.Assert(rec.Sent.Get("Content-Encoding") == "gzip", "compressed-if-accepted")
	got, complete := gz.Decode(rec.Body)
	sym.Assert(complete && string(got) == s, "body")
	sym.Cover("compressed")
}

// Accept-Encoding as a list of codings, each with a weight of up to three digits and perhaps
// another parameter, written in any case and with spaces: the response is encoded exactly if gzip is named
// with a weight that is not zero.
//
//sym:covers taken refused unnamed
func H_weights() {
	n := 1 + sym.Choose("codings", 2)
	header, named, yes := "", false, false
	for i := 0; i < n; i++ {
		l := strconv.Itoa(i)
		c := sym.Choose(l+"-coding", 4)
		if c < 2 && named {
			sym.Stop()
		}
		item := []string{"gzip", "GZip", "br", "gzipped"}[c]
		if sym.Choose(l+"-other", 2) == 1 {
			item += ";x=0"
		}
		zero := false
		if sym.Choose(l+"-weighted", 2) == 1 {
			q := []string{"0", "0.00", "0.000", "0.001", "0.05", "0.7", "1", "1.000"}[sym.Choose(l+"-weight", 8)]
			zero = q[len(q)-1] == '0' && q[0] == '0'
			item += []string{";q=", "; Q=", " ;q="}[sym.Choose(l+"-spelled", 3)] + q
		}
		if c < 2 {
			named, yes = true, !zero
		}
		if i > 0 {
			header += []string{",", " , "}[sym.Choose("comma", 2)]
		}
		header += item
	}
	app, _ := hx.App()
	app.Filter(gzip.All())
	app.Routers(strip.Router("/x", strip.Get(func(rw http.ResponseWriter) { rw.Write([]byte("body")) })))
	req := hx.Request("GET", "/x")
	req.Header.Set("Accept-Encoding", header)
	rec := hx.NewRec()
	app.ServeHTTP(rec, req)
	sym.Assert((rec.Sent.Get("Content-Encoding") == "gzip") == yes, "exactly-if-accepted")
	switch {
	case yes:
		sym.Cover("taken")
		got, complete := gz.Decode(rec.Body)
		sym.Assert(complete && string(got) == "body", "body")
	case named:
		sym.Cover("refused")
		sym.Assert(string(rec.Body) == "body", "body")
	default:
		sym.Cover("unnamed")
		sym.Assert(string(rec.Body) == "body", "body")
	}
}

// Package hx holds what several harnesses share.
package hx

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

// Rec is a recording http.ResponseWriter: it keeps the exact sequence of what reaches it.
type Rec struct {
	H       http.Header
	Events  []string // "header:<code>", "write", "flush"
	Codes   []int
	Sent    http.Header // the header as it was at the commit
	Body    []byte
	Flushes int
	// Early counts body bytes and flushes that arrived before a status.
	Early int
	// FailAfter, when >= 0, makes every write fail after that many body bytes.
	FailAfter int
}

func NewRec() *Rec { return &Rec{H: http.Header{}, FailAfter: -1} }

func (r *Rec) Header() http.Header { return r.H }

func (r *Rec) WriteHeader(c int) {
	r.Events = append(r.Events, "header")
	r.Codes = append(r.Codes, c)
	if len(r.Codes) == 1 {
		r.Sent = http.Header{}
		for k, v := range r.H {
			r.Sent[k] = append([]string(nil), v...)
		}
	}
}

func (r *Rec) Write(b []byte) (int, error) {
	if len(r.Codes) == 0 {
		r.Early++
	}
	if r.FailAfter >= 0 && len(r.Body)+len(b) > r.FailAfter {
		n := r.FailAfter - len(r.Body)
		r.Body = append(r.Body, b[:n]...)
		return n, errors.New("connection lost")
	}
	r.Events = append(r.Events, "write")
	r.Body = append(r.Body, b...)
	return len(b), nil
}

func (r *Rec) Flush() {
	if len(r.Codes) == 0 {
		r.Early++
	}
	r.Events = append(r.Events, "flush")
	r.Flushes++
}

// Code is the status the client sees.
func (r *Rec) Code() int {
	if len(r.Codes) == 0 {
		return 200
	}
	return r.Codes[0]
}

// Request builds a server-side request by hand, without parsing.
func Request(method, path string) *http.Request {
	req := &http.Request{
		Method: method, URL: &url.URL{Path: path}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Host: "h", RemoteAddr: "1.2.3.4:5", RequestURI: path,
		Body: http.NoBody,
	}
	return req.WithContext(context.Background())
}

// Discard is a logger output that keeps the records.
type Discard struct{ Lines []string }

func (d *Discard) Print(v ...interface{}) {
	for _, x := range v {
		if s, ok := x.(string); ok {
			d.Lines = append(d.Lines, s)
		}
	}
}

// App is a strip application with a quiet logger.
func App() (*strip.Strip, *Discard) {
	app := strip.New()
	d := &Discard{}
	app.SetLogger(strip.NewLogger(d))
	return app, d
}

// Serve runs one request.
func Serve(app *strip.Strip, method, path string) *Rec {
	rec := NewRec()
	app.ServeHTTP(rec, Request(method, path))
	return rec
}

// Kind of a route segment, in order of preference.
const (
	Static = iota
	Verb
	Param
	Wild
)

type Seg struct {
	Kind int
	Text string // static text, or the parameter name
	Verb string // with the colon
}

func (s Seg) String() string {
	switch s.Kind {
	case Verb:
		return ":" + s.Text + s.Verb
	case Param:
		return ":" + s.Text
	case Wild:
		return "*:" + s.Text
	}
	return s.Text
}

type Pattern []Seg

func (p Pattern) String() string {
	out := ""
	for _, s := range p {
		out += "/" + s.String()
	}
	return out
}

// Match says whether the pattern matches the segments, and what its parameters capture in order.
func (p Pattern) Match(path []string) (vals []string, ok bool) {
	for i, s := range p {
		if i >= len(path) {
			return nil, false
		}
		switch s.Kind {
		case Wild:
			return append(vals, strings.Join(path[i:], "/")), true
		case Static:
			if path[i] != s.Text {
				return nil, false
			}
		case Verb:
			if !strings.HasSuffix(path[i], s.Verb) {
				return nil, false
			}
			vals = append(vals, path[i][:len(path[i])-len(s.Verb)])
		case Param:
			vals = append(vals, path[i])
		}
	}
	return vals, len(p) == len(path)
}

// Names of the parameters in order.
func (p Pattern) Names() (out []string) {
	for _, s := range p {
		if s.Kind != Static {
			out = append(out, s.Text)
		}
	}
	return
}

// Better says whether p is preferred to q when both match: segment by segment from the left.
func (p Pattern) Better(q Pattern) bool {
	for i := range p {
		if i >= len(q) {
			return false
		}
		if p[i].Kind != q[i].Kind {
			return p[i].Kind < q[i].Kind
		}
	}
	return false
}

// Best is the index of the pattern the documented preference selects, or -1.
func Best(ps []Pattern, path []string) (best int, vals []string) {
	best = -1
	for i, p := range ps {
		if v, ok := p.Match(path); ok && (best < 0 || p.Better(ps[best])) {
			best, vals = i, v
		}
	}
	return
}

// DrawPattern chooses a pattern of 1..max segments. Parameters at depth i are named <prefix>i.
func DrawPattern(label string, max int) Pattern {
	n := 1 + sym.Choose(label+".len", max)
	var p Pattern
	for i := 0; i < n; i++ {
		kinds := 4
		if i == n-1 {
			kinds = 5
		}
		d := string(rune('0' + i))
		switch sym.Choose(label+".seg"+d, kinds) {
		case 0:
			p = append(p, Seg{Static, "a", ""})
		case 1:
			p = append(p, Seg{Static, "b", ""})
		case 2:
			p = append(p, Seg{Param, "p" + d, ""})
		case 3:
			p = append(p, Seg{Verb, "p" + d, ":v"})
		case 4:
			p = append(p, Seg{Wild, "w" + d, ""})
		}
	}
	return p
}

// SegChars are the printable ASCII characters other than / and the dot.
const SegChars = "!\"#$%&'()*+,-0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

const numChars = "+-0123456789xe_. ab"

// Number draws a text that may denote a number: up to n characters of the alphabet of number
// texts, or the leading digits of the bound of some integer width and two free ones.
func Number(label string, n int) string {
	if k := sym.Choose(label+".kind", 12); k < 11 {
		pre := [...]string{"1", "-1", "327", "-327", "655", "21474836", "-21474836", "42949672",
			"92233720368547758", "-92233720368547758", "184467440737095516"}[k]
		return pre + sym.StringOf(label+".digits", 2, "0123456789")
	}
	return sym.StringOf(label, sym.Choose(label+".n", n+1), numChars)
}

var sizes = []int{4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501,
	511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 16385, 32767, 32768, 32769, 65535, 65536, 65537}

// Size draws one of many sizes of min..max, those next to powers of two and to round numbers.
func Size(label string, min, max int) int {
	from, to := 0, len(sizes)
	for from < to && sizes[from] < min {
		from++
	}
	for to > from && sizes[to-1] > max {
		to--
	}
	return sizes[from+sym.Choose(label, to-from)]
}

// Long draws a text of one of the sizes up to max, with one character of the alphabet at its beginning, middle or end,
// or of nothing but one of them.
func Long(label string, max int, alphabet string) string {
	n := Size(label+"-size", 4, max)
	b := []byte(strings.Repeat("abcdefgh", n/8+1)[:n])
	at := sym.Choose(label+"-at", 3+len(alphabet))
	if at >= 3 {
		return strings.Repeat(alphabet[at-3:at-2], n)
	}
	b[[]int{0, n / 2, n - 1}[at]] = sym.StringOf(label, 1, alphabet)[0]
	return string(b)
}

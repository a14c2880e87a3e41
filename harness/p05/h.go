package h

import (
	"encoding/json"
	"errors"
	"io"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds JSON objects with a small integer of up to 5 (thorough 7) characters over digits and the minus sign, texts of up to 1 (2) characters with and without escapes, a list, a pointer, a map and a value of any kind, with spaces around; every prefix of such a body; any text of up to 3 (4) characters over the JSON alphabet; bodies that come in pieces of any size and break off with an error anywhere; wrong bodies of up to 2000 bytes; texts of up to 8193 (thorough 65537) bytes and lists of up to 2049 (16385) elements, whole or cut
//sym:assume the body is a single JSON value, as in every request that is well-formed; what follows it is not looked at

type inner struct{ X bool }

type dest struct {
	A int8                   `json:"a"`
	B string                 `json:"b"`
	C []bool                 `json:"c"`
	D *inner                 `json:"d"`
	E interface{}            `json:"e"`
	M map[string]interface{} `json:"m"`
	N string                 `json:"-"`
}

// pieces is a body that is read in pieces and may fail.
type pieces struct {
	text   string
	first  int
	fail   bool
	broken error
	reads  int
}

func (p *pieces) Read(b []byte) (int, error) {
	p.reads++
	if p.text == "" {
		if p.fail {
			return 0, p.broken
		}
		return 0, io.EOF
	}
	n := len(p.text)
	if p.first > 0 && p.first < n {
		n = p.first
		p.first = 0
	}
	n = copy(b, p.text[:n])
	p.text = p.text[n:]
	return n, nil
}

func (p *pieces) Close() error { return nil }

// bind runs a handler that binds the body.
func bind(body *pieces, f func(p *params.Params)) {
	ran := 0
	app, _ := hx.App()
	app.Provide(params.ParamsParser())
	app.Routers(strip.Router("/x", strip.Post(func(p *params.Params) {
		ran++
		f(p)
	})))
	req := hx.Request("POST", "/x")
	req.Header.Set("Content-Type", "application/json")
	req.Body = body
	req.ContentLength = -1 // sent in chunks
	if sym.Choose("length-known", 2) == 1 {
		req.ContentLength = int64(len(body.text))
	}
	app.ServeHTTP(hx.NewRec(), req)
	sym.Assert(ran == 1, "handler-ran")
}

// number reads the text of a JSON integer.
func number(s string) (n int, ok bool) {
	neg := len(s) > 0 && s[0] == '-'
	d := s
	if neg {
		d = s[1:]
	}
	if d == "" || len(d) > 1 && d[0] == '0' {
		return 0, false
	}
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return 0, false
		}
		n = n*10 + int(d[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

// A small integer is stored exactly or reported.
//
//sym:covers stored range grammar
func H_integer() {
	digits := sym.StringOf("digits", 1+sym.Choose("n", sym.Bound(5, 7)), "-0128")
	n, wellformed := number(digits)
	d := dest{A: 77, N: "kept"}
	bind(&pieces{text: `{"a":` + digits + `}`}, func(p *params.Params) {
		err := p.BindJsonBody(&d)
		if !wellformed {
			sym.Cover("grammar")
			sym.Assert(err != nil, "wrong-number-accepted")
			return
		}
		if n < -128 || n > 127 {
			sym.Cover("range")
			sym.Assert(err != nil, "number-out-of-range-accepted")
			sym.Assert(d.A == 77, "number-wrapped")
			return
		}
		sym.Cover("stored")
		sym.Assert(err == nil, "wellformed-rejected")
		sym.Assert(int(d.A) == n, "number-as-sent")
	})
	sym.Assert(d.N == "kept" && d.B == "" && d.C == nil && d.D == nil && d.E == nil, "field-not-sent-changed")
}

// Every field gets its own value, whatever pieces the body comes in.
//
//sym:covers all numbers
func H_fields() {
	plain := sym.StringOf("plain", sym.Choose("len", sym.Bound(2, 3)), "a {}[],:'")
	text, want := plain, plain
	switch sym.Choose("escape", 5) {
	case 1:
		text, want = `\n`+plain, "\n"+plain
	case 2:
		text, want = plain+`\u0041`, plain+"A"
	case 3:
		text, want = `\"`+plain+`\\`, `"`+plain+`\`
	case 4:
		text, want = plain+"\u00e9", plain+"\u00e9"
	}
	c := sym.Choose("list", 3)
	list := []string{"[]", "[true]", "[false,true]"}[c]
	x := sym.Choose("x", 3)
	obj := []string{"null", `{"X":true}`, `{"X":false}`}[x]
	big := "9007199254740993"[:15+sym.Choose("digits", 2)]
	keep := sym.Choose("numbers", 3)
	space := sym.StringOf("space", sym.Choose("spaces", 2), " \n\t\r")
	body := space + `{"b":"` + text + `",` + space + `"c":` + list + `,"d":` + obj + `,"e":` + big + `,"m":{"k":` + big + `}}` + space
	if space == "" {
		body += "\n"
	}
	src := &pieces{text: body, first: []int{0, 1, 7, len(body) - 1}[sym.Choose("first", 4)]}
	var d dest
	bind(src, func(p *params.Params) {
		var err error
		switch keep {
		case 0:
			err = p.BindJsonBody(&d)
		case 1:
			err = p.BindJsonBody(&d, false)
		case 2:
			err = p.BindJsonBody(&d, true)
		}
		sym.Assert(err == nil, "wellformed-rejected")
	})
	sym.Assert(src.text == "", "body-read")
	sym.Assert(d.B == want, "text-as-sent")
	sym.Assert(len(d.C) == c && (c == 0 || d.C[c-1]) && (c < 2 || !d.C[0]), "list-as-sent")
	sym.Assert((d.D == nil) == (x == 0) && (x == 0 || d.D.X == (x == 1)), "pointer-as-sent")
	sym.Cover("all")
	if keep == 2 {
		sym.Cover("numbers")
		n, ok := d.E.(json.Number)
		sym.Assert(ok && n.String() == big, "digits-kept")
		n, ok = d.M["k"].(json.Number)
		sym.Assert(ok && n.String() == big, "digits-kept")
	} else {
		f := 900719925474099.0
		if len(big) == 16 {
			f = 9007199254740992
		}
		got, ok := d.E.(float64)
		sym.Assert(ok && got == f, "number-as-float")
		got, ok = d.M["k"].(float64)
		sym.Assert(ok && got == f, "number-as-float")
	}
}

// A body that ends early or cannot be read is reported, an empty one leaves everything as it is.
//
//sym:covers empty cut unreadable whole
func H_broken() {
	whole := `{"a":12,"b":"x","c":[true]}`
	n := sym.IntRange("length", 0, len(whole))
	n = sym.ConcreteInt(n)
	src := &pieces{text: whole[:n], fail: sym.Bool("fail"), broken: errors.New("gone")}
	if src.fail && sym.Choose("kind", 2) == 1 {
		src.broken = io.ErrUnexpectedEOF
	}
	d := dest{A: 5, B: "old", N: "kept"}
	var err error
	bind(src, func(p *params.Params) { err = p.BindJsonBody(&d) })
	if src.fail {
		sym.Cover("unreadable")
		sym.Assert(err == src.broken, "read-error-reported")
		sym.Assert(d.A == 5 && d.B == "old" && d.C == nil, "unread-body-bound")
	} else if n == 0 {
		sym.Cover("empty")
		sym.Assert(err == nil, "empty-is-no-error")
		sym.Assert(d.A == 5 && d.B == "old" && d.C == nil, "empty-changed-something")
	} else if n < len(whole) {
		sym.Cover("cut")
		sym.Assert(err != nil, "cut-body-accepted")
		sym.Assert(d.A == 5 && d.B == "old" && d.C == nil, "cut-body-bound")
	} else {
		sym.Cover("whole")
		sym.Assert(err == nil && d.A == 12 && d.B == "x" && len(d.C) == 1, "whole-body")
	}
	sym.Assert(d.N == "kept", "other-field-changed")
}

// Texts that are no JSON value are reported.
//
//sym:covers value reported
func H_texts() {
	s := sym.StringOf("text", 1+sym.Choose("n", sym.Bound(3, 4)), `{}[]",:0-. t`)
	t := strings.Trim(s, " ")
	var v interface{}
	var err error
	bind(&pieces{text: s}, func(p *params.Params) { err = p.BindJsonBody(&v) })
	if isValue(t) {
		sym.Cover("value")
		sym.Assert(err == nil && v != nil, "wellformed-rejected")
	} else if !starts(t) {
		sym.Cover("reported")
		sym.Assert(err != nil && v == nil, "malformed-accepted")
	}
}

func isValue(t string) bool {
	rest, ok := value(t)
	return ok && trim(rest) == ""
}

// starts tells that a value is followed by more.
func starts(t string) bool {
	_, ok := value(t)
	return ok
}

func trim(s string) string { return strings.TrimLeft(s, " ") }

// value reads a JSON value of the alphabet of H_texts.
func value(s string) (string, bool) {
	s = trim(s)
	if s == "" {
		return s, false
	}
	switch s[0] {
	case '"':
		return text(s)
	case '[', '{':
		end := byte(']')
		if s[0] == '{' {
			end = '}'
		}
		s = trim(s[1:])
		if s != "" && s[0] == end {
			return s[1:], true
		}
		for {
			ok := false
			if end == '}' {
				if s, ok = text(trim(s)); !ok {
					return s, false
				}
				if s = trim(s); s == "" || s[0] != ':' {
					return s, false
				}
				s = s[1:]
			}
			if s, ok = value(s); !ok {
				return s, false
			}
			if s = trim(s); s == "" {
				return s, false
			}
			if s[0] == end {
				return s[1:], true
			}
			if s[0] != ',' {
				return s, false
			}
			s = s[1:]
		}
	}
	if s[0] == '-' {
		s = s[1:]
	}
	if s == "" || s[0] != '0' {
		return s, false
	}
	if s = s[1:]; s == "" || s[0] != '.' {
		return s, true
	}
	n := 1
	for n < len(s) && s[n] == '0' {
		n++
	}
	return s[n:], n > 1
}

func text(s string) (string, bool) {
	if s == "" || s[0] != '"' {
		return s, false
	}
	i := strings.IndexByte(s[1:], '"')
	if i < 0 {
		return s, false
	}
	return s[i+2:], true
}

// The report of a large body stays small.
//
//sym:covers short long
func H_report() {
	n := []int{0, 1, 509, 510, 511, 512, 513, 600, 2000}[sym.Choose("size", 9)]
	at := sym.StringOf("first", 1, "[x}")
	var v interface{}
	var err error
	bind(&pieces{text: at + strings.Repeat("Q", n)}, func(p *params.Params) { err = p.BindJsonBody(&v) })
	sym.Assert(err != nil && v == nil, "malformed-accepted")
	got := strings.Count(err.Error(), "Q")
	if n+1 > 512 {
		sym.Cover("long")
		sym.Assert(got <= 513, "report-bounded")
	} else {
		sym.Cover("short")
		sym.Assert(got >= n, "report-shows-body")
	}
	sym.Assert(len(err.Error()) <= 512+200, "report-bounded")
}

// Long texts and many elements.
//
//sym:covers long many
func H_large() {
	text, want, n := "", "", 0
	if sym.Choose("what", 2) == 0 {
		sym.Cover("long")
		want = hx.Long("text", sym.Bound(8193, 65537), "/xy")
		text = `{"a":7,"b":"` + want + `"}`
	} else {
		sym.Cover("many")
		n = hx.Size("elements", 4, sym.Bound(2049, 16385))
		text = `{"a":7,"c":[` + strings.Repeat("true,", n-1) + `false]}`
	}
	whole := len(text)
	cut := []int{0, 1, len(text) / 2, len(text) - 1}[sym.Choose("cut", 4)]
	if cut > 0 {
		text = text[:cut] // the rest never comes
	}
	body := &pieces{text: text, first: []int{0, 1, 511, 512, 4096}[sym.Choose("first", 5)]}
	bind(body, func(p *params.Params) {
		var d dest
		err := p.BindJsonBody(&d)
		sym.Assert((err == nil) == (len(text) == whole), "error-exactly-when-broken")
		if err == nil {
			sym.Assert(d.A == 7 && d.B == want && len(d.C) == n, "stored")
			for i, c := range d.C {
				sym.Assert(c == (i < n-1), "stored")
			}
		}
	})
}

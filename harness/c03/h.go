package h

import (
	"math/big"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds bool, every integer size, string, []byte, []string and named types of them, directly, behind one and two pointers, as fields of a struct, of a section, of embedded and unexported structs; number texts of up to 5 (thorough 6) characters and texts around every limit, other texts of up to 4 (5) characters; floats from a list; key present, empty or absent

type (
	myBool   bool
	myInt    int
	myU8     uint8
	myString string
	myList   []string
	myBytes  []byte
)

// source is a Configer over pairs.
type source [][2]string

func (s source) Find(name string) string {
	for _, kv := range s {
		if kv[0] == name {
			return kv[1]
		}
	}
	return ""
}

// parseInt is the decimal number a text denotes.
func parseInt(s string, bits uint, signed bool) (int64, uint64, bool) {
	neg := false
	d := s
	if signed && d != "" && (d[0] == '+' || d[0] == '-') {
		neg = d[0] == '-'
		d = d[1:]
	}
	if d == "" {
		return 0, 0, false
	}
	u := uint64(0)
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return 0, 0, false
		}
		c := uint64(d[i] - '0')
		if u > (1<<64-1-c)/10 {
			return 0, 0, false
		}
		u = u*10 + c
	}
	if !signed {
		if bits < 64 && u>>bits != 0 {
			return 0, 0, false
		}
		return 0, u, true
	}
	limit := uint64(1) << (bits - 1)
	if neg {
		if u > limit {
			return 0, 0, false
		}
		return -int64(u), 0, true
	}
	if u >= limit {
		return 0, 0, false
	}
	return int64(u), 0, true
}

func limits(bits uint) string {
	one := big.NewInt(1)
	n := new(big.Int).Lsh(one, bits-uint(sym.Choose("signed limit", 2)))
	n.Add(n, big.NewInt(int64(sym.Choose("near", 4)-2)))
	t := n.String()
	if sym.Choose("negative", 2) == 1 {
		t = "-" + t
	}
	return t
}

func numberText(bits uint) string {
	if sym.Choose("limit", 2) == 1 {
		return limits(bits)
	}
	return sym.StringOf("text", sym.Choose("len", sym.Bound(6, 7)), "0123456789-+x_ ")
}

// draw binds text to a target of a kind, directly or behind pointers.
//
//sym:covers valid invalid absent pointer limit
func H_integers() {
	kind := sym.Choose("kind", 12)
	bits := []uint{64, 8, 16, 32, 64, 64, 8, 16, 32, 64, 64, 8}[kind]
	signed := kind < 5 || kind == 10
	text := numberText(bits)
	if len(text) > 7 {
		sym.Cover("limit")
	}
	c := &strip.Config{Configer: source{{"other", "1"}, {"s::k", text}}}
	ptr := sym.Choose("pointer", 3)
	var (
		i   int    = 3
		i8  int8   = 3
		i16 int16  = 3
		i32 int32  = 3
		i64 int64  = 3
		u   uint   = 3
		u8  uint8  = 3
		u16 uint16 = 3
		u32 uint32 = 3
		u64 uint64 = 3
		mi  myInt  = 3
		mu  myU8   = 3
		pi  *int
		ppi **int
		p8  *int8
		pp8 **int8
		pu  *uint64
		ppu **uint64
	)
	var got int64
	var gotU uint64
	bind := func(p interface{}) { c.Bind(p, "s::k") }
	switch {
	case kind == 0 && ptr == 1:
		bind(&pi)
		got = 3
		if pi != nil {
			got = int64(*pi)
		}
	case kind == 0 && ptr == 2:
		bind(&ppi)
		got = 3
		if ppi != nil {
			got = int64(**ppi)
		}
	case kind == 1 && ptr == 1:
		bind(&p8)
		got = 3
		if p8 != nil {
			got = int64(*p8)
		}
	case kind == 1 && ptr == 2:
		bind(&pp8)
		got = 3
		if pp8 != nil {
			got = int64(**pp8)
		}
	case kind == 9 && ptr == 1:
		bind(&pu)
		gotU = 3
		if pu != nil {
			gotU = *pu
		}
	case kind == 9 && ptr == 2:
		bind(&ppu)
		gotU = 3
		if ppu != nil {
			gotU = **ppu
		}
	case ptr != 0:
		return
	case kind == 0:
		bind(&i)
		got = int64(i)
	case kind == 1:
		bind(&i8)
		got = int64(i8)
	case kind == 2:
		bind(&i16)
		got = int64(i16)
	case kind == 3:
		bind(&i32)
		got = int64(i32)
	case kind == 4:
		bind(&i64)
		got = int64(i64)
	case kind == 5:
		bind(&u)
		gotU = uint64(u)
	case kind == 6:
		bind(&u8)
		gotU = uint64(u8)
	case kind == 7:
		bind(&u16)
		gotU = uint64(u16)
	case kind == 8:
		bind(&u32)
		gotU = uint64(u32)
	case kind == 9:
		bind(&u64)
		gotU = u64
	case kind == 10:
		bind(&mi)
		got = int64(mi)
	case kind == 11:
		bind(&mu)
		gotU = uint64(mu)
	}
	if ptr > 0 {
		sym.Cover("pointer")
	}
	if text == "" {
		sym.Cover("absent")
		sym.Assert(got == 3 || gotU == 3, "default-kept")
		return
	}
	want, wantU, ok := parseInt(text, bits, signed)
	if ok {
		sym.Cover("valid")
	} else {
		sym.Cover("invalid")
	}
	sym.Assert(got == want && gotU == wantU, "denoted-integer")
}

//sym:covers true false absent pointer named
func H_bools() {
	text := ""
	if sym.Choose("listed", 2) == 1 {
		text = []string{"1", "t", "T", "TRUE", "true", "True", "on", "0", "f", "F", "FALSE", "false", "False", "off", "ON", "yes", "tRUE", " true"}[sym.Choose("text", 18)]
	} else {
		text = sym.StringOf("text", sym.Choose("len", sym.Bound(5, 6)), "01onfftTruEeyY ")
	}
	c := &strip.Config{Configer: source{{"k", text}}}
	was := sym.Choose("default", 2) == 1
	got := was
	switch sym.Choose("target", 4) {
	case 0:
		c.Bind(&got, "k")
	case 1:
		m := myBool(was)
		c.Bind(&m, "k")
		got = bool(m)
		sym.Cover("named")
	case 2:
		p := &got
		c.Bind(&p, "k")
		got = *p
		sym.Cover("pointer")
	case 3:
		var p **bool
		c.Bind(&p, "k")
		if p != nil {
			got = **p
		} else {
			sym.Assert(text == "", "bound")
		}
	}
	if text == "" {
		sym.Cover("absent")
		sym.Assert(got == was, "default-kept")
		return
	}
	want := false
	for _, t := range []string{"1", "t", "T", "TRUE", "true", "True", "on"} {
		if text == t {
			want = true
		}
	}
	if want {
		sym.Cover("true")
	} else {
		sym.Cover("false")
	}
	sym.Assert(got == want, "denoted-bool")
}

func split(text string) []string {
	var want []string
	for _, p := range strings.Split(text, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			want = append(want, p)
		}
	}
	return want
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

//sym:covers string list bytes absent none
func H_texts() {
	text := sym.StringOf("text", sym.Choose("len", sym.Bound(5, 6)), "ab, \t\x00\xff")
	c := &strip.Config{Configer: source{{"k", text}}}
	if text == "" {
		sym.Cover("absent")
	}
	switch sym.Choose("target", 10) {
	case 0:
		s := "default"
		c.Bind(&s, "k")
		sym.Assert(text == "" && s == "default" || text != "" && s == text, "denoted-text")
		sym.Cover("string")
	case 1:
		s := myString("default")
		c.Bind(&s, "k")
		sym.Assert(text == "" && s == "default" || text != "" && string(s) == text, "denoted-named-text")
	case 2:
		var s *string
		c.Bind(&s, "k")
		sym.Assert(text == "" && s == nil || text != "" && *s == text, "denoted-text-pointer")
	case 3:
		var s **myString
		c.Bind(&s, "k")
		sym.Assert(text == "" && s == nil || text != "" && string(**s) == text, "denoted-text-pointers")
	case 4:
		l := []string{"default"}
		c.Bind(&l, "k")
		if text == "" {
			sym.Assert(same(l, []string{"default"}), "default-list")
			return
		}
		sym.Assert(same(l, split(text)), "denoted-list")
		sym.Cover("list")
	case 5:
		l := myList{"default"}
		c.Bind(&l, "k")
		if text == "" {
			sym.Assert(same(l, []string{"default"}), "default-named-list")
			return
		}
		sym.Assert(same(l, split(text)), "denoted-named-list")
	case 6:
		var l *[]string
		c.Bind(&l, "k")
		sym.Assert(text == "" && l == nil || text != "" && same(*l, split(text)), "denoted-list-pointer")
	case 7:
		b := []byte("default")
		c.Bind(&b, "k")
		sym.Assert(text == "" && string(b) == "default" || text != "" && string(b) == text, "denoted-bytes")
		sym.Cover("bytes")
	case 8:
		b := myBytes("default")
		c.Bind(&b, "k")
		sym.Assert(text == "" && string(b) == "default" || text != "" && string(b) == text, "denoted-named-bytes")
	case 9:
		// a type that no text denotes keeps its value
		m := map[string]int{"a": 1}
		f := []int{1}
		i := interface{}(1)
		s := struct{ A int }{1}
		c.Bind(&m, "k")
		c.Bind(&f, "k")
		c.Bind(&i, "k")
		c.Bind(&s, "k")
		sym.Assert(m["a"] == 1 && len(f) == 1 && i == 1 && s.A == 1, "unsupported-target-kept")
		sym.Cover("none")
	}
}

//sym:covers ok bad
func H_floats() {
	i := sym.Choose("text", 12)
	text := []string{"0", "1.5", "-2.25", "1e3", ".5", "1e400", "1e39", "x", "1,5", " 1", "+3", "0.1"}[i]
	want := []float64{0, 1.5, -2.25, 1000, .5, 0, 1e39, 0, 0, 0, 3, 0.1}[i]
	c := &strip.Config{Configer: source{{"k", text}}}
	f64, f32 := 7.0, float32(7)
	var p64 *float64
	var p32 **float32
	c.Bind(&f64, "k")
	c.Bind(&f32, "k")
	c.Bind(&p64, "k")
	c.Bind(&p32, "k")
	sym.Assert(f64 == want && *p64 == want, "denoted-float")
	if want == 1e39 {
		want = 0
		sym.Cover("bad")
	} else {
		sym.Cover("ok")
	}
	sym.Assert(f32 == float32(want) && **p32 == float32(want), "denoted-float32")
}

type inner struct {
	E     string `conf:"e"`
	small int    `conf:"small"`
}

type Outer struct {
	inner
	O int `conf:"o"`
}

type Sec struct {
	N     int     `conf:"n"`
	P     *string `conf:"p"`
	Q     **int   `conf:"q"`
	small string  `conf:"small"`
	None  string
	Dash  string `conf:"-"`
}

type env struct {
	Outer
	A     string   `conf:"a"`
	B     *int     `conf:"b"`
	C     []string `conf:"c"`
	S     Sec      `conf:"s"`
	T     Sec      `conf:"t"`
	u     Sec      `conf:"u"`
	plain Sec
	None  string
	Dash  string `conf:"-"`
	small bool   `conf:"small"`
	Last  uint8  `conf:"last"`
}

// A structure gets every configured field and nothing else.
//
//sym:covers decoded
func H_decode() {
	names := []string{"a", "b", "c", "e", "o", "s::n", "s::p", "s::q", "t::n", "t::p", "last", "small", "-", "None", "s::small", "s::None", "u::n", "n"}
	var src source
	set := func(name string) (string, bool) {
		v := src.Find(name)
		return v, v != ""
	}
	// one to three of them are set
	for i, at := 0, 0; i < sym.Bound(3, 4); i++ {
		at += sym.Choose("which", len(names)-at)
		src = append(src, [2]string{names[at], string(rune('1'+i)) + sym.StringOf("value", 1, "01234567")})
		at++
		if at == len(names) {
			break
		}
	}
	e := env{A: "A", C: []string{"C"}, Last: 9, None: "None", Dash: "Dash"}
	e.O, e.E, e.S.N, e.T.N, e.u.N, e.plain.N = 5, "E", 6, 7, 8, 9
	e.S.None = "None"
	config.Decode(&strip.Config{Configer: src}, &e)
	sym.Cover("decoded")
	num := func(name string, got, def int) {
		want := def
		if v, ok := set(name); ok {
			want = int(v[0]-'0')*10 + int(v[1]-'0')
		}
		sym.Assert(got == want, "field-number")
	}
	str := func(name, got, def string) {
		want := def
		if v, ok := set(name); ok {
			want = v
		}
		sym.Assert(got == want, "field-text")
	}
	deref := func(p *int) int {
		if p == nil {
			return -1
		}
		return *p
	}
	derefs := func(p *string) string {
		if p == nil {
			return ""
		}
		return *p
	}
	str("a", e.A, "A")
	num("b", deref(e.B), -1)
	sym.Assert(len(e.C) == 1, "field-list")
	str("c", e.C[0], "C")
	str("e", e.E, "E")
	num("o", e.O, 5)
	num("s::n", e.S.N, 6)
	num("t::n", e.T.N, 7)
	str("s::p", derefs(e.S.P), "")
	str("t::p", derefs(e.T.P), "")
	q := -1
	if e.S.Q != nil {
		q = **e.S.Q
	}
	num("s::q", q, -1)
	num("last", int(e.Last), 9)
	sym.Assert(e.u.N == 8 && e.plain.N == 9 && e.None == "None" && e.Dash == "Dash" && e.S.None == "None" && !e.small && e.inner.small == 0 && e.S.small == "" && e.S.Dash == "", "other-fields-kept")
}

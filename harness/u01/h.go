package h

import (
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds conversions by strip.StrTo, utils.StrTo and utils.Value (of strings, bytes, every number type and named types): number texts of up to 6 (thorough 7) characters and texts around every limit of every width, bool texts of up to 5 (6) characters, floats from a list of texts; numbers to text: every value of every width (64 bits unsigned: below 10^19 and within 2 of the limit; the digits of a number are given by their defining equation, not by executing strconv's digit loop), floats from a list; lists from every text of up to 5 (thorough 7) characters over a, blank, comma and semicolon, by the three separators; lists of up to 257 (thorough 1025) items
//sym:assume int and uint have 64 bits

type (
	myText  string
	myBytes []byte
	myInt   int32
	myU     uint8
	myF     float32
)

// parse is the decimal number a text denotes.
func parse(s string, bits uint, signed bool) (int64, uint64, bool) {
	neg := false
	d := s
	if signed && d != "" && (d[0] == '+' || d[0] == '-') {
		neg = d[0] == '-'
		d = d[1:]
	}
	if d == "" {
		return 0, 0, false
	}
	u := uint64(0)
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return 0, 0, false
		}
		c := uint64(d[i] - '0')
		if u > 1844674407370955161 || u*10 > 1<<64-1-c {
			return 0, 0, false
		}
		u = u*10 + c
	}
	if !signed {
		if bits < 64 && u>>bits != 0 {
			return 0, 0, false
		}
		return 0, u, true
	}
	limit := uint64(1) << (bits - 1)
	if neg {
		if u > limit {
			return 0, 0, false
		}
		return -int64(u), 0, true
	}
	if u >= limit {
		return 0, 0, false
	}
	return int64(u), 0, true
}

func near(bits uint) *big.Int {
	n := new(big.Int).Lsh(big.NewInt(1), bits-uint(sym.Choose("signed limit", 2)))
	n.Add(n, big.NewInt(int64(sym.Choose("near", 5)-2)))
	if sym.Choose("negative", 2) == 1 {
		n.Neg(n)
	}
	return n
}

var kinds = []struct {
	name   string
	bits   uint
	signed bool
}{
	{"int", 64, true}, {"int8", 8, true}, {"int16", 16, true}, {"int32", 32, true}, {"int64", 64, true},
	{"uint", 64, false}, {"uint8", 8, false}, {"uint16", 16, false}, {"uint32", 32, false}, {"uint64", 64, false},
}

type res struct {
	i   int64
	u   uint64
	err error
}

func ri(i int64, err error) res  { return res{i: i, err: err} }
func ru(u uint64, err error) res { return res{u: u, err: err} }

func viaStrip(f strip.StrTo, k int) res {
	switch k {
	case 0:
		v, err := f.Int()
		return ri(int64(v), err)
	case 1:
		v, err := f.Int8()
		return ri(int64(v), err)
	case 2:
		v, err := f.Int16()
		return ri(int64(v), err)
	case 3:
		v, err := f.Int32()
		return ri(int64(v), err)
	case 4:
		v, err := f.Int64()
		return ri(int64(v), err)
	case 5:
		v, err := f.Uint()
		return ru(uint64(v), err)
	case 6:
		v, err := f.Uint8()
		return ru(uint64(v), err)
	case 7:
		v, err := f.Uint16()
		return ru(uint64(v), err)
	case 8:
		v, err := f.Uint32()
		return ru(uint64(v), err)
	}
	v, err := f.Uint64()
	return ru(uint64(v), err)
}

func viaUtils(f utils.StrTo, k int) (r, must res) {
	switch k {
	case 0:
		v, err := f.Int()
		return ri(int64(v), err), ri(int64(f.MustInt()), nil)
	case 1:
		v, err := f.Int8()
		return ri(int64(v), err), ri(int64(f.MustInt8()), nil)
	case 2:
		v, err := f.Int16()
		return ri(int64(v), err), ri(int64(f.MustInt16()), nil)
	case 3:
		v, err := f.Int32()
		return ri(int64(v), err), ri(int64(f.MustInt32()), nil)
	case 4:
		v, err := f.Int64()
		return ri(int64(v), err), ri(int64(f.MustInt64()), nil)
	case 5:
		v, err := f.Uint()
		return ru(uint64(v), err), ru(uint64(f.MustUint()), nil)
	case 6:
		v, err := f.Uint8()
		return ru(uint64(v), err), ru(uint64(f.MustUint8()), nil)
	case 7:
		v, err := f.Uint16()
		return ru(uint64(v), err), ru(uint64(f.MustUint16()), nil)
	case 8:
		v, err := f.Uint32()
		return ru(uint64(v), err), ru(uint64(f.MustUint32()), nil)
	}
	v, err := f.Uint64()
	return ru(uint64(v), err), ru(uint64(f.MustUint64()), nil)
}

func viaValue(f *utils.Value, k int) (r, must res) {
	switch k {
	case 0:
		v, err := f.Int()
		return ri(int64(v), err), ri(int64(f.MustInt()), nil)
	case 1:
		v, err := f.Int8()
		return ri(int64(v), err), ri(int64(f.MustInt8()), nil)
	case 2:
		v, err := f.Int16()
		return ri(int64(v), err), ri(int64(f.MustInt16()), nil)
	case 3:
		v, err := f.Int32()
		return ri(int64(v), err), ri(int64(f.MustInt32()), nil)
	case 4:
		v, err := f.Int64()
		return ri(int64(v), err), ri(int64(f.MustInt64()), nil)
	case 5:
		v, err := f.Uint()
		return ru(uint64(v), err), ru(uint64(f.MustUint()), nil)
	case 6:
		v, err := f.Uint8()
		return ru(uint64(v), err), ru(uint64(f.MustUint8()), nil)
	case 7:
		v, err := f.Uint16()
		return ru(uint64(v), err), ru(uint64(f.MustUint16()), nil)
	case 8:
		v, err := f.Uint32()
		return ru(uint64(v), err), ru(uint64(f.MustUint32()), nil)
	}
	v, err := f.Uint64()
	return ru(uint64(v), err), ru(uint64(f.MustUint64()), nil)
}

// Text to integers of every width.
//
//sym:covers valid invalid limit
func H_integers() {
	k := sym.Choose("kind", len(kinds))
	kind := kinds[k]
	var text string
	if sym.Choose("limit", 2) == 1 {
		text = near(kind.bits).String()
		sym.Cover("limit")
	} else {
		text = sym.StringOf("text", sym.Choose("len", sym.Bound(7, 8)), "0123456789-+x_. ")
	}
	var got, must res
	lib := sym.Choose("lib", 5)
	switch lib {
	case 0:
		got = viaStrip(strip.StrTo(text), k)
	case 1:
		got, must = viaUtils(utils.StrTo(text), k)
	case 2:
		got, must = viaValue(utils.ValueTo(text), k)
	case 3:
		got, must = viaValue(utils.ValueTo([]byte(text)), k)
	case 4:
		got, must = viaValue(utils.ValueTo(myText(text)), k)
	}
	want, wantU, ok := parse(text, kind.bits, kind.signed)
	if ok {
		sym.Cover("valid")
	} else {
		sym.Cover("invalid")
	}
	sym.Assert((got.err == nil) == ok, "error-iff-not-representable")
	if ok || lib == 0 {
		sym.Assert(got.i == want && got.u == wantU, "denoted-value")
	}
	if lib > 0 {
		sym.Assert(must.i == got.i && must.u == got.u, "must-agrees")
	}
}

// Text to bool.
//
//sym:covers true false invalid
func H_bools() {
	text := ""
	if sym.Choose("listed", 2) == 1 {
		text = []string{"1", "t", "T", "TRUE", "true", "True", "on", "0", "f", "F", "FALSE", "false", "False", "off", "ON", "On", "yes", "tRUE", " true"}[sym.Choose("text", 19)]
	} else {
		text = sym.StringOf("text", sym.Choose("len", sym.Bound(6, 7)), "01onfftTruEeyY ")
	}
	var got bool
	var err error
	var must bool
	lib := sym.Choose("lib", 5)
	switch lib {
	case 0:
		got, err = strip.StrTo(text).Bool()
	case 1:
		got, err = utils.StrTo(text).Bool()
		must = utils.StrTo(text).MustBool()
	case 2:
		got, err = utils.ValueTo(text).Bool()
		must = utils.ValueTo(text).MustBool()
	case 3:
		got, err = utils.ValueTo([]byte(text)).Bool()
		must = utils.ValueTo([]byte(text)).MustBool()
		if text == "on" {
			return // only a string may be "on"
		}
	case 4:
		b := sym.Bool("b")
		got, err = utils.ValueTo(b).Bool()
		sym.Assert(err == nil && got == b && utils.ValueTo(b).MustBool() == b, "bool-itself")
		return
	}
	want, ok := false, false
	for i, t := range []string{"1", "t", "T", "TRUE", "true", "True", "on", "0", "f", "F", "FALSE", "false", "False"} {
		if text == t {
			want, ok = i < 7, true
		}
	}
	if !ok {
		sym.Cover("invalid")
	} else if want {
		sym.Cover("true")
	} else {
		sym.Cover("false")
	}
	sym.Assert((err == nil) == ok, "error-iff-not-bool")
	sym.Assert(got == want, "denoted-bool")
	if lib > 0 {
		sym.Assert(must == got, "must-agrees")
	}
}

var floats = []struct {
	text     string
	f64      float64
	f32      float32
	ok, ok32 bool
}{
	{"0", 0, 0, true, true},
	{"1", 1, 1, true, true},
	{"-1.5", -1.5, -1.5, true, true},
	{"0.1", 0.1, 0.1, true, true},
	{"16777217", 16777217, 16777216, true, true},
	{"1e10", 1e10, 1e10, true, true},
	{"3.4028234663852886e38", math.MaxFloat32, math.MaxFloat32, true, true},
	{"3.5e38", 3.5e38, 0, true, false},
	{"1e308", 1e308, 0, true, false},
	{"1.8e308", 0, 0, false, false},
	{"-1e400", 0, 0, false, false},
	{"5e-324", 5e-324, 0, true, true},
	{".5", .5, .5, true, true},
	{"5.", 5, 5, true, true},
	{"9007199254740993", 9007199254740992, 9007199254740992, true, true},
	{"", 0, 0, false, false},
	{"1,5", 0, 0, false, false},
	{"1.5 ", 0, 0, false, false},
	{"e5", 0, 0, false, false},
	{"1e", 0, 0, false, false},
	{"--1", 0, 0, false, false},
	{"1.2.3", 0, 0, false, false},
}

// Text to floats.
func H_floats() {
	f := floats[sym.Choose("text", len(floats))]
	var g64, m64 float64
	var g32, m32 float32
	var e64, e32 error
	lib := sym.Choose("lib", 4)
	switch lib {
	case 0:
		g64, e64 = strip.StrTo(f.text).Float64()
		g32, e32 = strip.StrTo(f.text).Float32()
	case 1:
		t := utils.StrTo(f.text)
		g64, e64 = t.Float64()
		g32, e32 = t.Float32()
		m64, m32 = t.MustFloat64(), t.MustFloat32()
	case 2:
		t := utils.ValueTo(f.text)
		g64, e64 = t.Float64()
		g32, e32 = t.Float32()
		m64, m32 = t.MustFloat64(), t.MustFloat32()
	case 3:
		t := utils.ValueTo([]byte(f.text))
		g64, e64 = t.Float64()
		g32, e32 = t.Float32()
		m64, m32 = t.MustFloat64(), t.MustFloat32()
	}
	sym.Assert((e64 == nil) == f.ok, "float64-error")
	sym.Assert((e32 == nil) == f.ok32, "float32-error")
	if f.ok || lib == 0 {
		sym.Assert(g64 == f.f64, "float64")
	}
	if f.ok32 || lib == 0 {
		sym.Assert(g32 == f.f32, "float32")
	}
	if lib > 0 {
		sym.Assert(m64 == g64 && m32 == g32, "must-agrees")
	}
}

// number draws an integer of a kind.
func number(k int) (interface{}, int64, uint64) {
	kind := kinds[k]
	var i int64
	var u uint64
	switch {
	case kind.bits <= 16:
		switch k {
		case 1:
			v := sym.Int8("n")
			return v, int64(v), 0
		case 2:
			v := sym.Int16("n")
			return v, int64(v), 0
		case 6:
			v := sym.Uint8("n")
			return v, 0, uint64(v)
		default:
			v := sym.Uint16("n")
			return v, 0, uint64(v)
		}
	case sym.Choose("limit", 2) == 1:
		sym.Cover("limit")
		n := near(kind.bits)
		if kind.signed {
			if n.BitLen() >= int(kind.bits) && !(n.Sign() < 0 && n.Cmp(new(big.Int).Lsh(big.NewInt(-1), kind.bits-1)) == 0) {
				sym.Stop()
			}
			i = n.Int64()
		} else {
			if n.Sign() < 0 || n.BitLen() > int(kind.bits) {
				sym.Stop()
			}
			u = n.Uint64()
		}
	case kind.bits == 32 && kind.signed:
		i = int64(sym.Int32("n"))
	case kind.bits == 32:
		u = uint64(sym.Uint32("n"))
	case kind.signed:
		i = sym.Int64("n")
	default:
		u = sym.Uint64("n")
		sym.Assume(u < 1e19)
	}
	switch k {
	case 0:
		return int(i), i, 0
	case 3:
		if sym.Choose("named", 2) == 1 {
			return myInt(i), i, 0
		}
		return int32(i), i, 0
	case 4:
		return int64(i), i, 0
	case 5:
		return uint(u), 0, u
	case 8:
		return uint32(u), 0, u
	}
	return u, 0, u
}

// Integers to text and back.
//
//sym:covers limit negative
func H_backInt() {
	k := sym.Choose("kind", len(kinds))
	n, i, u := number(k)
	if i < 0 {
		sym.Cover("negative")
	}
	var text string
	var got res
	switch sym.Choose("lib", 3) {
	case 0:
		text = strip.ToStr(n)
		got = viaStrip(strip.StrTo(text), k)
	case 1:
		text = utils.ToStr(n)
		got, _ = viaUtils(utils.StrTo(text), k)
	case 2:
		text = utils.ValueTo(n).String()
		sym.Assert(utils.ValueTo(n).MustString() == text, "must-string")
		got, _ = viaValue(utils.ValueTo(n), k)
	}
	sym.Assert(got.err == nil && got.i == i && got.u == u, "identity")
	d := text
	if i < 0 {
		sym.Assert(d != "" && d[0] == '-', "sign")
		d = d[1:]
	}
	sym.Assert(d != "" && (d[0] != '0' || len(d) == 1), "canonical")
	for j := 0; j < len(d); j++ {
		sym.Assert(d[j] >= '0' && d[j] <= '9', "digits")
	}
}

// A number of one type read as another one.
//
//sym:covers fits misfit
func H_across() {
	k := sym.Choose("kind", len(kinds))
	n, i, u := number(k)
	to := sym.Choose("to", len(kinds))
	got, must := viaValue(utils.ValueTo(n), to)
	t := kinds[to]
	ok := false
	if t.signed {
		lim := int64(1)<<(t.bits-1) - 1
		ok = u <= uint64(lim) && i <= lim && i >= -lim-1
	} else {
		ok = i >= 0 && (t.bits == 64 || u>>t.bits == 0 && uint64(i)>>t.bits == 0)
	}
	sym.Assert((got.err == nil) == ok, "error-iff-not-representable")
	if ok {
		sym.Cover("fits")
		sym.Assert(got.i+int64(got.u) == i+int64(u), "same-value")
		sym.Assert(got == must, "must-agrees")
	} else {
		sym.Cover("misfit")
	}
	v, err := utils.ToInt64(n)
	sym.Assert((err == nil) == (u < 1<<63), "int64-error")
	if err == nil {
		sym.Assert(v == i+int64(u), "int64-value")
	}
}

// Floats, bools and texts to text and back.
func H_backOther() {
	switch sym.Choose("what", 6) {
	case 0:
		f := []float64{0, 1, -1, 0.1, 1.0 / 3, 1e21, 1e-7, 123456789.125, math.MaxFloat64, 5e-324, -2.5e-10, 1 << 53, math.Inf(1)}[sym.Choose("f", 13)]
		g, err := utils.StrTo(utils.ToStr(f)).Float64()
		sym.Assert(err == nil && g == f, "float64")
		g, err = strip.StrTo(strip.ToStr(f)).Float64()
		sym.Assert(err == nil && g == f, "float64-strip")
		g, err = utils.ValueTo(f).Float64()
		sym.Assert(err == nil && g == f, "float64-value")
		if math.Abs(f) < 1e15 && f == math.Trunc(f) {
			i, err := utils.ValueTo(f).Int()
			sym.Assert(err == nil && float64(i) == f, "float-integer")
			j, err := utils.ValueTo(float32(f)).Int64()
			sym.Assert(err == nil && float32(j) == float32(f), "float-integer")
		}
		_, err = utils.ToInt64(f)
		sym.Assert(err != nil, "no-integer")
	case 1:
		f := []float32{0, 1, -1, 0.1, 1.0 / 3, 1e21, 1e-7, 123456789.125, math.MaxFloat32, 1e-45, 16777216}[sym.Choose("f", 11)]
		g, err := utils.StrTo(utils.ToStr(f)).Float32()
		sym.Assert(err == nil && g == f, "float32")
		g, err = strip.StrTo(strip.ToStr(f)).Float32()
		sym.Assert(err == nil && g == f, "float32-strip")
		g, err = utils.ValueTo(f).Float32()
		sym.Assert(err == nil && g == f, "float32-value")
		g, err = utils.ValueTo(myF(f)).Float32()
		sym.Assert(err == nil && g == f, "float32-named")
		d, err := utils.ValueTo(f).Float64()
		sym.Assert(err == nil && float32(d) == f, "float32-wider")
	case 2:
		b := sym.Bool("b")
		g, err := utils.StrTo(utils.ToStr(b)).Bool()
		sym.Assert(err == nil && g == b, "bool")
		g, err = strip.StrTo(strip.ToStr(b)).Bool()
		sym.Assert(err == nil && g == b, "bool-strip")
	case 3:
		s := sym.String("s", sym.Choose("len", 4))
		sym.Assert(utils.ToStr(s) == s && utils.ToStr(myText(s)) == s, "text")
		sym.Assert(strip.ToStr(s) == s && strip.ToStr(myText(s)) == s && strip.ToStr(&s) == s, "text-strip")
		sym.Assert(utils.ValueTo(s).String() == s && utils.ValueTo(myText(s)).MustString() == s, "text-value")
		sym.Assert(utils.StrTo(s).String() == s && string(utils.StrTo(s).Bytes()) == s && strip.StrTo(s).String() == s, "text-helper")
	case 4:
		s := sym.String("s", sym.Choose("len", 4))
		sym.Assert(utils.ToStr([]byte(s)) == s, "bytes")
		sym.Assert(utils.ToStr(myBytes(s)) == s, "bytes-named")
		sym.Assert(strip.ToStr([]byte(s)) == s, "bytes-strip")
		sym.Assert(utils.ValueTo([]byte(s)).String() == s, "bytes-value")
		sym.Assert(string(utils.ValueTo([]byte(s)).MustBytes()) == s, "bytes-back")
	case 5:
		n := sym.IntRange("n", 0, 4095)
		base := []int{2, 8, 16, 36}[sym.Choose("base", 4)]
		v, err := strconv.ParseInt(utils.ToStr(n, base), base, 64)
		sym.Assert(err == nil && v == int64(n), "base")
		sym.Assert(utils.ToStr(0.12345, 2) == "0.12" && utils.ToStr(float32(1), 1) == "1.0", "precision")
		sym.Assert(utils.ValueTo(nil).String() == "" && utils.ValueTo(nil).IsNil() && !utils.ValueTo(n).IsNil(), "nil")
		_, err = utils.ValueTo(nil).Int()
		sym.Assert(err != nil, "nil-no-number")
	}
}

// A text as a list, as a digest and as a list that was one already.
func H_lists() {
	s := sym.StringOf("s", sym.Choose("len", sym.Bound(5, 7)), "a ,;")
	by := sym.Choose("by", 3)
	sep, parts := byte(','), strip.StrTo(s).Strings()
	if by > 0 {
		sep = " ;"[by-1]
		parts = strip.StrTo(s).Strings(string(rune(sep)))
	}
	var want []string
	start := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == sep {
			from, to := start, i
			for from < to && s[from] == ' ' {
				from++
			}
			for from < to && s[to-1] == ' ' {
				to--
			}
			want = append(want, s[from:to])
			start = i + 1
		}
	}
	sym.Assert(len(parts) == len(want), "list-length")
	for i, p := range parts {
		sym.Assert(p == want[i], "list-item")
	}
	sym.Assert(utils.StrTo("abc").Md5() == "900150983cd24fb0d6963f7d28e17f72", "digest")
	got := utils.ValueTo(want).MustSliceString()
	sym.Assert(len(got) == len(want) && &got[0] == &want[0], "list-itself")
	sym.Assert(utils.ValueTo(s).MustSliceString() == nil, "no-list")
}

// Long lists.
func H_longList() {
	n := hx.Size("items", 4, sym.Bound(257, 1025))
	blank := []string{"", " "}[sym.Choose("blank", 2)]
	sep := []string{",", ";"}[sym.Choose("by", 2)]
	var items []string
	for i := 0; i < n; i++ {
		items = append(items, strconv.Itoa(i))
	}
	text := strings.Join(items, blank+sep)
	got := strip.StrTo(text).Strings(sep)
	if sep == "," {
		got = strip.StrTo(text).Strings()
	}
	sym.Assert(len(got) == n, "list-length")
	for i, p := range got {
		sym.Assert(p == items[i], "list-item")
	}
}

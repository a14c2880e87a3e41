package h

import (
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/wujiu2020/strip/params"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds every text of up to 4 (thorough 6) characters of the alphabet of numbers, and the leading digits of the bound of every integer width with two free digits after them; for strings and booleans every text of up to 3 (5) bytes (booleans: of 23 characters, and 18 words that read like one); times in each of the documented layouts with symbolic digits; targets of every width, named types, pointers, struct fields, slice elements and map values; through Bind, Params.Bind, BindValue and BindValuesToStruct; numbers of up to 129 (thorough 1025) digits, most of them zeros
//sym:assume floating point texts are drawn from a table

type myInt int16
type myUint uint8
type myStr string
type myBool bool
type dur = time.Duration

type fields struct {
	A int8   `param:"a"`
	B uint16 `param:"b"`
	C string
	D myInt  `param:"d,x"`
	E *int32 `param:"e"`
	F int64  `param:"-"`
	g int
}

// bind converts the text to the type by one of the entry points.
func bind(s string, typ reflect.Type) interface{} {
	p := &params.Params{Values: url.Values{"k": {s, "7"}, "o": {"5"}}}
	switch sym.Choose("entry", 5) {
	case 0:
		return params.Bind(p, "k", typ).Interface()
	case 1:
		v := reflect.New(typ)
		p.Bind(v.Interface(), "k")
		return v.Elem().Interface()
	case 2:
		return params.BindValue(s, typ).Interface()
	case 3:
		v := params.Bind(&params.Params{Values: url.Values{"k[]": {s}}}, "k", reflect.SliceOf(typ))
		sym.Assert(v.Len() == 1, "slice-length")
		return v.Index(0).Interface()
	}
	v := params.Bind(&params.Params{Values: url.Values{"k[x]": {s}}}, "k", reflect.MapOf(reflect.TypeOf(""), typ))
	sym.Assert(v.Len() == 1, "map-length")
	return v.MapIndex(reflect.ValueOf("x")).Interface()
}

//sym:covers ok bad
func H_ints() { ints(hx.Number("text", sym.Bound(4, 6))) }

// Long texts of a number: many zeros in front, or too many digits.
//
//sym:covers ok bad
func H_long() {
	n := hx.Size("digits", 4, sym.Bound(129, 1025))
	s := []string{"", "-", "+"}[sym.Choose("sign", 3)]
	switch sym.Choose("what", 3) {
	case 0:
		s += strings.Repeat("0", n) + sym.StringOf("last", 1, "07x")
	case 1:
		s += "1" + strings.Repeat("0", n)
	case 2:
		s += strings.Repeat("0", n) + "128"
	}
	ints(s)
}

func ints(s string) {
	k := sym.Choose("type", 14)
	bits := []int{64, 8, 16, 32, 64, 16, 64, 64, 8, 16, 32, 64, 8, 32}[k]
	var got int64
	var gotU uint64
	switch k {
	case 0:
		got = int64(bind(s, reflect.TypeOf(int(0))).(int))
	case 1:
		got = int64(bind(s, reflect.TypeOf(int8(0))).(int8))
	case 2:
		got = int64(bind(s, reflect.TypeOf(int16(0))).(int16))
	case 3:
		got = int64(bind(s, reflect.TypeOf(int32(0))).(int32))
	case 4:
		got = bind(s, reflect.TypeOf(int64(0))).(int64)
	case 5:
		got = int64(bind(s, reflect.TypeOf(myInt(0))).(myInt))
	case 6:
		got = int64(bind(s, reflect.TypeOf(dur(0))).(dur))
	case 7:
		gotU = uint64(bind(s, reflect.TypeOf(uint(0))).(uint))
	case 8:
		gotU = uint64(bind(s, reflect.TypeOf(uint8(0))).(uint8))
	case 9:
		gotU = uint64(bind(s, reflect.TypeOf(uint16(0))).(uint16))
	case 10:
		gotU = uint64(bind(s, reflect.TypeOf(uint32(0))).(uint32))
	case 11:
		gotU = bind(s, reflect.TypeOf(uint64(0))).(uint64)
	case 12:
		gotU = uint64(bind(s, reflect.TypeOf(myUint(0))).(myUint))
	case 13:
		p := bind(s, reflect.TypeOf((*int32)(nil))).(*int32)
		if p != nil {
			got = int64(*p)
		}
	}
	var err error
	if k >= 7 && k != 13 {
		var want uint64
		want, err = strconv.ParseUint(s, 10, bits)
		if err != nil {
			want = 0
		}
		sym.Assert(gotU == want, "wrong-value")
	} else {
		var want int64
		want, err = strconv.ParseInt(s, 10, bits)
		if err != nil {
			want = 0
		}
		sym.Assert(got == want, "wrong-value")
	}
	if err == nil {
		sym.Cover("ok")
	} else {
		sym.Cover("bad")
	}
}

func H_texts() {
	k := sym.Choose("type", 5)
	n := sym.Choose("n", sym.Bound(4, 6))
	s := ""
	if k < 3 {
		s = sym.String("text", n)
	} else {
		s = sym.StringOf("text", n, "tTrRuUeEoOnN01 \t\nfFxyYsS2-")
	}
	switch k {
	case 0:
		sym.Assert(bind(s, reflect.TypeOf("")).(string) == s, "wrong-value")
	case 1:
		sym.Assert(bind(s, reflect.TypeOf(myStr(""))).(myStr) == myStr(s), "wrong-value")
	case 2:
		p := bind(s, reflect.TypeOf((*string)(nil))).(*string)
		sym.Assert(p != nil && *p == s, "wrong-value")
	case 3:
		sym.Assert(bind(s, reflect.TypeOf(true)).(bool) == truth(s), "wrong-value")
	case 4:
		sym.Assert(bool(bind(s, reflect.TypeOf(myBool(true))).(myBool)) == truth(s), "wrong-value")
	}
}

// Words that read like a boolean and are none of the documented ones, and those that are.
func H_words() {
	words := []string{"yes", "YES", "y", "t", "T", "ok", "enabled", "2", "01", "1.0", "-1", "+1", "truex", "true,1", "on\x00", "false", "off", "no", "true", "on", "1", "TRUE", "On", " true\n"}
	s := words[sym.Choose("word", len(words))]
	if sym.Choose("named", 2) == 0 {
		sym.Assert(bind(s, reflect.TypeOf(true)).(bool) == truth(s), "wrong-value")
	} else {
		sym.Assert(bool(bind(s, reflect.TypeOf(myBool(true))).(myBool)) == truth(s), "wrong-value")
	}
}

func truth(s string) bool {
	switch strings.ToLower(strings.TrimSpace(s)) {
	case "true", "on", "1":
		return true
	}
	return false
}

func H_floats() {
	table := []struct {
		s        string
		f64, f32 float64
	}{
		{"0", 0, 0}, {"-0.5", -0.5, -0.5}, {"1e3", 1000, 1000}, {"3.1415926", 3.1415926, float64(float32(3.1415926))},
		{"1e39", 1e39, 0}, {"-1e39", -1e39, 0}, {"1e400", 0, 0}, {"", 0, 0}, {"x", 0, 0}, {"1.5x", 0, 0}, {" 1", 0, 0}, {"0x1p4", 16, 16},
		{"1.00000017881393432617187499", 1.000000178813934326, float64(float32(1.00000011920928955078125))},
		{"340282350000000000000000000000000000000", 340282350000000000000000000000000000000, float64(float32(340282350000000000000000000000000000000))},
	}
	c := table[sym.Choose("text", len(table))]
	if sym.Choose("type", 2) == 0 {
		sym.Assert(bind(c.s, reflect.TypeOf(float64(0))).(float64) == c.f64, "wrong-value")
	} else {
		sym.Assert(float64(bind(c.s, reflect.TypeOf(float32(0))).(float32)) == c.f32, "wrong-value")
	}
}

// Times in the documented layouts.
//
//sym:covers date minutes seconds rfc unix bad own
func H_times() {
	d := "1" + sym.StringOf("d", 1, "0123456789")
	mi, se := sym.StringOf("min", 2, "0123456789"), sym.StringOf("sec", 2, "0123456789")
	sym.Assume(mi[0] <= '5' && se[0] <= '5')
	num := func(s string) int { return int(s[0]-'0')*10 + int(s[1]-'0') }
	typ := reflect.TypeOf(time.Time{})
	get := func(s string) time.Time { return bind(s, typ).(time.Time) }
	same := func(got time.Time, unix int64) {
		sym.Assert(got.Unix() == unix && got.Nanosecond() == 0, "wrong-time")
	}
	local, formats := time.Local, params.TimeFormats
	time.Local = time.FixedZone("here", -5400)
	defer func() { time.Local, params.TimeFormats = local, formats }()
	date := "2021-03-" + d
	day := time.Date(2021, 3, num(d), 0, 0, 0, 0, time.Local)
	switch sym.Choose("layout", 7) {
	case 0:
		sym.Cover("date")
		same(get(date), day.Unix())
	case 1:
		sym.Cover("minutes")
		same(get(date+" 13:"+mi), day.Unix()+13*3600+int64(num(mi))*60)
	case 2:
		sym.Cover("seconds")
		same(get(date+" 13:00:"+se), day.Unix()+13*3600+int64(num(se)))
	case 3:
		sym.Cover("rfc")
		want := time.Date(2021, 3, 15, 13, 0, num(se), 0, time.UTC).Unix() - 2*3600
		same(get("2021-03-15T13:00:"+se+"+02:00"), want)
	case 4:
		sym.Cover("unix")
		s := sym.StringOf("unix", 1+sym.Choose("n", 3), "0123456789-")
		want, err := strconv.ParseInt(s, 10, 64)
		if got := get(s); err != nil {
			sym.Assert(got.IsZero(), "not-zero")
		} else {
			same(got, want)
		}
	case 5:
		sym.Cover("bad")
		s := []string{"", "x", "2021-13-01", "2021-02-30", "2021-03-15 25:00", "2021-03-15T13:00:00", "13:00", "99999999999999999999"}[sym.Choose("bad", 8)]
		sym.Assert(get(s).IsZero(), "not-zero")
	case 6:
		sym.Cover("own")
		own := []string{"", "02/01/2006", "02.01.2006 -0700", "Jan 2 2006 MST"}
		if sym.Choose("last", 2) == 0 {
			params.TimeFormats = append(append([]string{}, formats...), own...)
		} else {
			params.TimeFormats = append(own, formats...)
		}
		utc := time.Date(2021, 3, num(d), 0, 0, 0, 0, time.UTC).Unix()
		same(get(d+"/03/2021"), day.Unix())
		same(get(d+".03.2021 -0330"), utc+3*3600+1800)
		same(get("Mar "+d+" 2021 UTC"), utc)
		same(get(date), day.Unix())
	}
}

// Struct fields by tag and name; a field without a parameter becomes zero.
func H_fields() {
	a, b := hx.Number("a", 2), hx.Number("b", 1)
	v := url.Values{"F": {"3"}, "-": {"4"}, "g": {"5"}, "B": {"6"}, "a,": {"8"}}
	set := sym.Choose("set", 4)
	if set&1 != 0 {
		v["a"], v["C"], v["d"] = []string{a}, []string{a}, []string{a, "1"}
	}
	if set&2 != 0 {
		v["b"], v["e"] = []string{b}, []string{b}
	}
	f := fields{F: 77, g: 66}
	if sym.Choose("entry", 2) == 0 {
		params.BindValuesToStruct(&f, v)
	} else {
		(&params.Params{Values: v}).BindValuesToStruct(&f)
	}
	sym.Assert(f.F == 77 && f.g == 66, "other-field-changed")
	var wa, wd, we int64
	var wb uint64
	if set&1 != 0 {
		if n, err := strconv.ParseInt(a, 10, 8); err == nil {
			wa = n
		}
		if n, err := strconv.ParseInt(a, 10, 16); err == nil {
			wd = n
		}
		sym.Assert(f.C == a, "wrong-value")
	} else {
		sym.Assert(f.C == "", "not-zero")
	}
	if set&2 != 0 {
		if n, err := strconv.ParseUint(b, 10, 16); err == nil {
			wb = n
		}
		if n, err := strconv.ParseInt(b, 10, 32); err == nil {
			we = n
		}
	}
	sym.Assert(int64(f.A) == wa && int64(f.D) == wd && uint64(f.B) == wb, "wrong-value")
	if f.E != nil {
		sym.Assert(int64(*f.E) == we, "wrong-value")
	} else {
		sym.Assert(we == 0, "wrong-value")
	}
}

package h

import (
	"mime/multipart"
	"net/url"
	"reflect"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip/params"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds keys: the parameter's name followed by up to 5 (thorough 6) characters over brackets, dot, digits, sign and letters, one or two of them; structured keys of up to 3 levels of index, field and key over 40 index texts (negative, huge, overflowing, not numbers); 24 target types; fields promoted through two embedded pointers, every subset of five of them sent; JSON texts of a map from a table; up to 5 uploaded files under 4 indexes, the bare name and []; up to 129 (thorough 513) elements, entries, levels of a key, and an index as large
//sym:assume each key has at least one value, as in every parsed request; target types do not embed pointers to themselves

type Leaf struct {
	A  string
	B  []int
	C  map[string]int8
	P  *int
	u  int
	N  []Leaf
	M  map[int]string
	I  interface{}
	F  func()
	R  [2]int
	S  struct{ X int }
	Sp *struct{ X int }
}

type Emb struct{ E int }
type emb struct{ G int }
type Deep struct {
	*Emb
	emb
	Leaf
	H int
}
type Hid struct {
	*emb
	H int
}

type key2 struct{ A string }

var types = []reflect.Type{
	reflect.TypeOf([]int(nil)),
	reflect.TypeOf([]string(nil)),
	reflect.TypeOf([]*int(nil)),
	reflect.TypeOf([][]int(nil)),
	reflect.TypeOf([]Leaf(nil)),
	reflect.TypeOf([]*Leaf(nil)),
	reflect.TypeOf([]map[string]int(nil)),
	reflect.TypeOf([]interface{}(nil)),
	reflect.TypeOf([]bool(nil)),
	reflect.TypeOf([]struct{}(nil)),
	reflect.TypeOf(Leaf{}),
	reflect.TypeOf(Deep{}),
	reflect.TypeOf(Hid{}),
	reflect.TypeOf(map[string]string(nil)),
	reflect.TypeOf(map[int8]int8(nil)),
	reflect.TypeOf(map[bool][]string(nil)),
	reflect.TypeOf(map[string]Leaf(nil)),
	reflect.TypeOf(map[interface{}]int(nil)),
	reflect.TypeOf(map[[1]int]int(nil)),
	reflect.TypeOf(map[key2]*int(nil)),
	reflect.TypeOf((*[]int)(nil)),
	reflect.TypeOf((**int)(nil)),
	reflect.TypeOf((*Leaf)(nil)),
	reflect.TypeOf((func())(nil)),
}

const many = 1 << 17

// size bounds what a bound value holds.
func size(v reflect.Value) int {
	n := 1
	switch v.Kind() {
	case reflect.Slice:
		n += v.Cap()
		if v.Cap() > many {
			return n
		}
		// elements beyond the first few are zero
		for i := 0; i < v.Len() && i < 12; i++ {
			n += size(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			n += size(v.MapIndex(k))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += size(v.Field(i))
		}
	case reflect.Ptr:
		if !v.IsNil() {
			n += size(v.Elem())
		}
	}
	return n
}

func bind(v url.Values, typ reflect.Type) reflect.Value {
	var out reflect.Value
	if sym.Panics(func() {
		out = params.Bind(&params.Params{Values: v}, "k", typ)
	}) {
		sym.Fail("panics")
	}
	sym.Assert(out.Type() == typ, "type")
	sym.Assert(size(out) <= many, "allocates-without-bound")
	return out
}

// Any key: no panic, nothing out of proportion.
func H_keys() {
	typ := types[sym.Choose("type", len(types))]
	v := url.Values{"k" + sym.StringOf("key", sym.Choose("len", sym.Bound(6, 7)), "[].-0198AENP"): {"1", "x"}}
	if sym.Choose("second", 2) == 1 {
		v["k"+[]string{"[1]", "", "[0].A", ".N[0].A", "[]"}[sym.Choose("other", 5)]] = []string{"3"}
	}
	bind(v, typ)
}

var indexes = []string{
	"0", "1", "-1", "x", "99999999999999999999999", "16001", "", "]", "+1", "9", "-0", "00", "01", " 1", "1 ", "0x1", "1e1", "1_0", "A", "[", "[0", "0]", ".", "0.A",
	"99", "100", "65535", "100000", "1000000", "2147483647", "2147483648", "4294967296", "999999999999", "9223372036854775806", "9223372036854775807",
	"9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "\x00",
}

// Indexes of every kind at up to two levels.
func H_indexes() {
	typ := types[sym.Choose("type", len(types))]
	k := "k"
	for i, n := 0, 1+sym.Choose("levels", 2); i < n; i++ {
		m := len(indexes)
		if i > 0 {
			m = sym.Bound(9, m)
		}
		k += []string{"[", ".N[", ".B[", ".M[", ".C["}[sym.Choose("step", 5)] + indexes[sym.Choose("index", m)] + "]"
	}
	bind(url.Values{k + []string{"", ".A", "[]"}[sym.Choose("suffix", 3)]: {"1"}}, typ)
}

func itoa(n int) string { return strconv.Itoa(n) }

// Well-formed slices: every element receives its own value.
//
//sym:covers indexed appended plain
func H_slices() {
	v := url.Values{"other": {"1"}, "kk[0]": {"5"}, "K[0]": {"5"}, "k.A": {"5"}}
	want := map[int]string{}
	max := -1
	n := sym.Choose("n", sym.Bound(3, 4))
	for i := 0; i < n; i++ {
		d := []string{"0", "1", "2", "5", "12", "81"}[sym.Choose("index", 6)]
		x, _ := strconv.Atoi(d)
		sym.Assume(want[x] == "") // each index once
		s := itoa(i*2 + 1)
		v["k["+d+"]"] = []string{s, "9"}
		want[x] = s
		if x > max {
			max = x
		}
		sym.Cover("indexed")
	}
	var tail []string
	switch sym.Choose("rest", 3) {
	case 1:
		sym.Cover("appended")
		tail = []string{"4", "2"}
		v["k[]"] = tail
	case 2:
		sym.Cover("plain")
		tail = []string{"8", "2", "6"}
		v["k"] = tail
	}
	var got []string
	switch sym.Choose("type", 4) {
	case 0:
		got = bind(v, reflect.TypeOf([]string(nil))).Interface().([]string)
	case 1:
		for _, x := range bind(v, reflect.TypeOf([]int(nil))).Interface().([]int) {
			s := itoa(x)
			if x == 0 {
				s = ""
			}
			got = append(got, s)
		}
	case 2:
		for _, x := range bind(v, reflect.TypeOf([]*uint8(nil))).Interface().([]*uint8) {
			s := ""
			if x != nil {
				s = itoa(int(*x))
			}
			got = append(got, s)
		}
	case 3:
		type T struct{ S []string }
		var t T
		w := url.Values{}
		for k, x := range v {
			if strings.HasPrefix(k, "k") {
				w["t.S"+k[1:]] = x
			}
		}
		params.Bind(&params.Params{Values: w}, "t", reflect.TypeOf(t))
		got = params.Bind(&params.Params{Values: w}, "t", reflect.TypeOf(t)).Interface().(T).S
	}
	sym.Assert(len(got) == max+1+len(tail), "length")
	for i, s := range got {
		if i <= max {
			sym.Assert(s == want[i], "element")
		} else {
			sym.Assert(s == tail[i-max-1], "element")
		}
	}
}

// Structs and maps nested in one another.
func H_structs() {
	a, b := sym.StringOf("a", sym.Choose("alen", 3), "01-x"), sym.StringOf("b", 1, "0123456789")
	num := func(s string, bits int) int64 {
		n, err := strconv.ParseInt(s, 10, bits)
		if err != nil {
			return 0
		}
		return n
	}
	v := url.Values{"k.A": {a}, "k.u": {"7"}, "k.I": {"7"}, "k.F": {"7"}, "k.R": {"7"}, "k.R[0]": {"7"}, "k.Zz": {"7"}, "k.": {"7"}, "k..A": {"7"}, "kA": {"7"}}
	on := func(l string) bool { return sym.Choose(l, 2) == 1 }
	var l Leaf
	var d Deep
	deep := on("deep")
	hasC, hasM, hasN, hasE := on("C"), on("M"), on("N"), on("E")
	if hasC {
		v["k.C["+a+"]"] = []string{b}
		v["k.B[1]"] = []string{b}
	}
	if hasM {
		v["k.M["+b+"]"] = []string{a}
		v["k.P"] = []string{b}
	}
	if hasN {
		v["k.N[1].A"] = []string{a}
		v["k.N[1].N[0].A"] = []string{b}
		v["k.S.X"] = []string{b}
	}
	if hasE {
		v["k.E"] = []string{b}
		v["k.G"] = []string{a}
		v["k.H"] = []string{b}
	}
	if deep {
		d = bind(v, reflect.TypeOf(d)).Interface().(Deep)
		l = d.Leaf
	} else {
		l = bind(v, reflect.TypeOf(l)).Interface().(Leaf)
	}
	sym.Assert(l.A == a, "field")
	sym.Assert(l.u == 0 && l.I == nil && l.F == nil && l.R == [2]int{}, "unbound-field")
	if hasC {
		sym.Assert(len(l.C) == 1 && int64(l.C[a]) == num(b, 8), "map-element")
		sym.Assert(len(l.B) == 2 && l.B[0] == 0 && int64(l.B[1]) == num(b, 64), "slice-element")
	} else {
		sym.Assert(len(l.C) == 0 && len(l.B) == 0, "unbound-field")
	}
	if hasM {
		sym.Assert(len(l.M) == 1 && l.M[int(num(b, 64))] == a, "map-element")
		sym.Assert(l.P != nil && int64(*l.P) == num(b, 64), "pointer-field")
	} else {
		sym.Assert(len(l.M) == 0 && l.P == nil, "unbound-field")
	}
	if hasN {
		sym.Assert(len(l.N) == 2 && l.N[0].A == "" && l.N[1].A == a && len(l.N[1].N) == 1 && l.N[1].N[0].A == b, "nested-element")
		sym.Assert(int64(l.S.X) == num(b, 64), "nested-field")
	} else {
		sym.Assert(len(l.N) == 0 && l.S.X == 0, "unbound-field")
	}
	if deep && hasE {
		sym.Assert(int64(d.H) == num(b, 64) && int64(d.G) == num(a, 64), "promoted-field")
		sym.Assert(d.Emb == nil || int64(d.E) == num(b, 64), "promoted-field")
	}
}

type counted int

var binds int

// Many keys under one element: each is bound once, not once per key at every level.
func H_shared() {
	params.TypeBinders[reflect.TypeOf(counted(0))] = params.Binder{Bind: func(p *params.Params, name string, typ reflect.Type) reflect.Value {
		binds++
		return reflect.Zero(typ)
	}}
	type T struct {
		N    []T
		X, Y counted
		Z, W counted
		M    map[string]counted
	}
	binds = 0
	depth := 1 + sym.Choose("depth", sym.Bound(4, 6))
	p := "k"
	for i := 0; i < depth; i++ {
		p += "[" + string(rune('0'+sym.Choose("index", 2))) + "].N"
	}
	p = p[:len(p)-2]
	v := url.Values{p + ".X": {"1"}, p + ".Y": {"1"}, p + ".Z": {"1"}, p + ".W": {"1"}}
	params.Bind(&params.Params{Values: v}, "k", reflect.TypeOf([]T(nil)))
	sym.Assert(binds <= 2*len(v), "work-grows-with-depth")
}

// A map given as JSON text.
func H_json() {
	cases := []struct {
		text string
		key  string
		n    int
	}{
		{`{"a":1}`, "a", 1}, {`{"a":1000000}`, "a", 1000000}, {`{"a":"5"}`, "a", 5}, {`{"a":123456789}`, "a", 123456789},
		{`{"a":-2147483648}`, "a", -2147483648}, {`{"a":9007199254740993}`, "a", 9007199254740993}, {`{"":7}`, "", 7},
		{" {\"a\": 3 }\n", "a", 3}, {`{"a":1,"b":2}`, "b", 2}, {`{"a":null}`, "a", 0}, {`{"a":[1]}`, "a", 0}, {`{"a":{"b":1}}`, "a", 0}, {`{"a":1.5}`, "a", 0},
	}
	if k := sym.Choose("text", len(cases)+9); k >= len(cases) {
		s := []string{"x", "[1]", "1", "null", "{", `{"a":}`, `{"a":1}x`, `{"a":1}{"b":1}`, `{"a":1}}`}[k-len(cases)]
		m := bind(url.Values{"k": {s}}, reflect.TypeOf(map[string]int(nil))).Interface().(map[string]int)
		sym.Assert(len(m) == 0, "malformed-text")
	} else {
		c := cases[k]
		m := bind(url.Values{"k": {c.text}}, reflect.TypeOf(map[string]int(nil))).Interface().(map[string]int)
		n, ok := m[c.key]
		sym.Assert(ok && n == c.n, "element")
	}
}

// Struct fields of BindValuesToStruct, with embedded structs and pointers to them.
func H_values() {
	type In struct {
		Emb
		*Leaf
		H int `param:"h"`
	}
	type Un struct {
		*emb
		emb2
		H int `param:"h"`
	}
	v := url.Values{"h": {"3"}}
	e := sym.Choose("E", 2) == 1
	if e {
		v["E"], v["A"], v["B[1]"], v["G"], v["J"] = []string{"4"}, []string{"x"}, []string{"6"}, []string{"8"}, []string{"9"}
	}
	switch sym.Choose("type", 4) {
	case 0:
		var x In
		params.BindValuesToStruct(&x, v)
		sym.Assert(x.H == 3, "field")
		if e {
			sym.Assert(x.E == 4 && x.Leaf != nil && x.A == "x" && len(x.B) == 2 && x.B[1] == 6, "embedded-field")
		} else {
			sym.Assert(x.E == 0 && x.Leaf == nil, "embedded-field")
		}
	case 1:
		x := In{Leaf: &Leaf{u: 5}}
		l := x.Leaf
		params.BindValuesToStruct(&x, v)
		sym.Assert(x.Leaf == l && l.u == 5, "embedded-pointer")
		if e {
			sym.Assert(l.A == "x", "embedded-field")
		}
	case 2:
		var x Un
		if sym.Panics(func() { params.BindValuesToStruct(&x, v) }) {
			sym.Fail("panics")
		}
		sym.Assert(x.H == 3 && x.emb == nil, "field")
		if e {
			sym.Assert(x.J == 9, "embedded-field")
		}
	case 3:
		x := Un{emb: &emb{}}
		if sym.Panics(func() { params.BindValuesToStruct(&x, v) }) {
			sym.Fail("panics")
		}
		sym.Assert(x.H == 3 && x.emb != nil, "field")
		if e {
			sym.Assert(x.G == 8, "embedded-field")
		}
	}
}

type emb2 struct{ J int }

type Low struct {
	A, B string
	L    []int
}
type Mid struct {
	*Low
	C string
}
type Top struct {
	*Mid
	D string
}

// Fields promoted through two embedded pointers, each sent or not.
//
//sym:covers all some none
func H_promoted() {
	v, n := url.Values{"other": {"1"}}, 0
	want := map[string]string{}
	for _, f := range []string{"A", "B", "L[1]", "C", "D"} {
		if sym.Choose(f, 2) == 1 {
			want[f] = itoa(n + 2)
			v["k."+f], n = []string{want[f]}, n+1
		}
	}
	var x Top
	switch sym.Choose("how", 3) {
	case 0:
		x = bind(v, reflect.TypeOf(x)).Interface().(Top)
	case 1:
		x = *bind(url.Values{"k": {"x"}}, reflect.TypeOf(&x)).Interface().(*Top) // the pointer itself is sent
		sym.Assert(x.Mid == nil && x.D == "", "unbound-field")
		x = bind(v, reflect.TypeOf(x)).Interface().(Top)
	case 2:
		w := url.Values{}
		for k, l := range v {
			if k != "other" {
				k = "k[1]" + k[1:]
			}
			w[k] = l
		}
		l := bind(w, reflect.TypeOf([]Top(nil))).Interface().([]Top)
		if n == 0 {
			sym.Assert(len(l) == 0, "length")
		} else {
			sym.Assert(len(l) == 2 && l[0].Mid == nil && l[0].D == "", "unbound-field")
			x = l[1]
		}
	}
	sym.Assert(x.D == want["D"], "field")
	c, a, b, l := "", "", "", ""
	if x.Mid != nil {
		c = x.C
		if x.Low != nil {
			a, b = x.A, x.B
			if len(x.L) > 0 {
				sym.Assert(len(x.L) == 2 && x.L[0] == 0, "slice-element")
				l = itoa(x.L[1])
			}
		}
	}
	sym.Assert(c == want["C"] && a == want["A"] && b == want["B"] && l == want["L[1]"], "promoted-field")
	switch n {
	case 0:
		sym.Cover("none")
	case 5:
		sym.Cover("all")
	default:
		sym.Cover("some")
	}
}

// Uploaded files, with a binder of the user's own: a target gets the file sent under its own key.
//
//sym:covers single indexed appended plain missing
func H_files() {
	typ := reflect.TypeOf((*multipart.FileHeader)(nil))
	params.TypeBinders[typ] = params.Binder{Bind: func(p *params.Params, name string, typ reflect.Type) reflect.Value {
		if l := p.Files[name]; len(l) > 0 {
			return reflect.ValueOf(l[0])
		}
		return reflect.Zero(typ)
	}}
	defer delete(params.TypeBinders, typ)
	count := 0
	file := func() *multipart.FileHeader {
		count++
		return &multipart.FileHeader{Filename: itoa(count), Size: int64(count)}
	}
	p := &params.Params{Values: url.Values{"x": {"1"}}, Files: map[string][]*multipart.FileHeader{
		"x": {file()}, "kk": {file()}, "k1": {file()}, "kk[0]": {file()}}}
	want := map[int]*multipart.FileHeader{}
	max := -1
	for i, n := 0, sym.Choose("n", 3); i < n; i++ {
		at := sym.Choose("index", 4)
		sym.Assume(want[at] == nil)
		want[at] = file()
		p.Files["k["+itoa(at)+"]"] = []*multipart.FileHeader{want[at], file()}
		if at > max {
			max = at
		}
		sym.Cover("indexed")
	}
	var tail []*multipart.FileHeader
	for i, n := 0, sym.Choose("more", 3); i < n; i++ {
		tail = append(tail, file())
	}
	if len(tail) > 0 {
		if sym.Choose("plain", 2) == 1 {
			sym.Cover("plain")
			p.Files["k"] = tail
		} else {
			sym.Cover("appended")
			p.Files["k[]"] = tail
		}
	}
	var got []*multipart.FileHeader
	p.Bind(&got, "k")
	sym.Assert(len(got) == max+1+len(tail), "files-length")
	for i, f := range got {
		if i <= max {
			sym.Assert(f == want[i], "file-of-its-key")
		} else {
			sym.Assert(f == tail[i-max-1], "file-of-its-key")
		}
	}
	one := file()
	sym.Assert(params.BindFile(one, typ).Interface().(*multipart.FileHeader) == one, "file-itself")
	sym.Cover("single")
	var other *multipart.FileHeader
	p.Bind(&other, "k1")
	sym.Assert(other == p.Files["k1"][0], "file-of-its-key")
	p.Bind(&other, "none")
	sym.Assert(other == nil, "file-never-sent")
	sym.Cover("missing")
}

// Many elements, large indexes and deep keys.
//
//sym:covers indexed map index deep
//sym:depth 5000
func H_large() {
	n := hx.Size("size", 4, sym.Bound(129, 513))
	v := url.Values{"other": {"1"}}
	switch sym.Choose("what", 4) {
	case 0:
		sym.Cover("indexed")
		var want []string
		for i := 0; i < n; i++ {
			v["k["+itoa(i)+"]"] = []string{"i" + itoa(i)}
			want = append(want, "i"+itoa(i))
		}
		if sym.Choose("appended", 2) == 1 {
			for i := 0; i < n; i++ {
				v["k[]"] = append(v["k[]"], "a"+itoa(i))
				want = append(want, "a"+itoa(i))
			}
		}
		got := bind(v, reflect.TypeOf([]string(nil))).Interface().([]string)
		sym.Assert(len(got) == len(want), "length")
		for i := range got {
			sym.Assert(got[i] == want[i], "own-element")
		}
	case 1:
		sym.Cover("map")
		for i := 0; i < n; i++ {
			v["k[x"+itoa(i)+"]"] = []string{itoa(i)}
		}
		got := bind(v, reflect.TypeOf(map[string]int(nil))).Interface().(map[string]int)
		sym.Assert(len(got) == n, "length")
		for i := 0; i < n; i++ {
			sym.Assert(got["x"+itoa(i)] == i, "own-element")
		}
	case 2:
		sym.Cover("index")
		v["k["+itoa(n)+"]"] = []string{"7"}
		got := bind(v, reflect.TypeOf([]int(nil))).Interface().([]int)
		sym.Assert(len(got) == n+1 && got[n] == 7, "length")
		for i := 0; i < n; i++ {
			sym.Assert(got[i] == 0, "empty-element")
		}
	case 3:
		sym.Cover("deep")
		v["k"+strings.Repeat(".N[0]", n)+".A"] = []string{"x"}
		got := bind(v, reflect.TypeOf(Leaf{})).Interface().(Leaf)
		for i := 0; i < n; i++ {
			sym.Assert(len(got.N) == 1 && got.A == "", "nested")
			got = got.N[0]
		}
		sym.Assert(got.A == "x" && got.N == nil, "nested")
	}
}

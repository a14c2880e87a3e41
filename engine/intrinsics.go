package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"path"
	"reflect"
	"strconv"
	"strings"
)

type intrFn = func(m *machine, fr *frame, a []Value) Value

var intrinsics = map[string]intrFn{}

// tries are fast paths that may decline (the real body then runs).
var tries = map[string]func(m *machine, fr *frame, a []Value) (Value, bool){}

// lazy package initialisation
var initHooks = map[string]func(m *machine){}
var skipInit = map[string]bool{
	"runtime": true, "internal/runtime/atomic": true, "internal/cpu": true, "internal/runtime/maps": true, "internal/runtime/sys": true,
	"internal/poll": false, "syscall": false, "internal/godebug": true, "internal/godebugs": true, "runtime/debug": true,
	"crypto/internal/fips140/check": true, "crypto/internal/fips140": true, "crypto/internal/boring": true, "internal/sysinfo": true,
	"crypto/internal/fips140deps/godebug": true, "internal/reflectlite": true, "reflect": true, "internal/bytealg": true, "internal/abi": true,
	"os/signal": true, "net": false,
}
var postInit = map[string]func(m *machine){}

func runtimePure(key string) bool {
	for _, p := range []string{"(runtime.errorString)", "(*runtime.TypeAssertionError)", "(syscall.Errno)", "(*internal/poll.DeadlineExceededError)",
		"internal/poll.errNetClosing", "(internal/poll.errNetClosing)", "internal/poll.init", "syscall.init", "(syscall.Signal)", "syscall.Exit",
		"syscall.copyenv", "(*runtime.Frames)", "runtime/debug.init", "(runtime.errorAddressString)", "(*runtime.PanicNilError)", "syscall.ByteSliceFromString", "syscall.BytePtrFromString", "syscall.UtimesNano"} {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

func in(name string, f intrFn) {
	intrinsics[name] = f
}

const symPkg = repoMod + "/zz_verif/sym."

func nop(m *machine, fr *frame, a []Value) Value { return Value{} }

func errNil() Value { return Value{} }

func (m *machine) errString(msg string) Value {
	fn := m.p.funcOf(m.p.lookupFunc("errors", "New"))
	return m.callFn(nil, fn, Value{P: msg})
}

func (m *machine) fbytes(v Value) []Value { return sliceOf(v) }

// scan: first index i in [0,n) where cond(i) holds, branching per position; -1 if none.
func (m *machine) firstIdx(n int, cond func(i int) *Term) int {
	for i := 0; i < n; i++ {
		c := cond(i)
		if c.op == OConst {
			if c.val == 1 {
				return i
			}
			continue
		}
		if m.branch(c) {
			return i
		}
	}
	return -1
}

func asStr(v Value) Value { // []byte or string -> string value sharing the bytes
	switch s := v.P.(type) {
	case *Slice:
		return mkStr(s.a)
	case nil:
		return emptyStr
	}
	return v
}

func (m *machine) indexStr(s, sub Value) Value {
	a, ok1 := hostStr(s)
	b, ok2 := hostStr(sub)
	if ok1 && ok2 {
		return mkInt(strings.Index(a, b))
	}
	n, k := strLen(s), strLen(sub)
	if k == 0 {
		return mkInt(0)
	}
	return mkInt(m.firstIdx(n-k+1, func(i int) *Term { return m.eqStr(strSlice(s, i, i+k), sub) }))
}

func (m *machine) lastIndexStr(s, sub Value) Value {
	a, ok1 := hostStr(s)
	b, ok2 := hostStr(sub)
	if ok1 && ok2 {
		return mkInt(strings.LastIndex(a, b))
	}
	n, k := strLen(s), strLen(sub)
	if k == 0 {
		return mkInt(n)
	}
	i := m.firstIdx(n-k+1, func(i int) *Term { i = n - k - i; return m.eqStr(strSlice(s, i, i+k), sub) })
	if i >= 0 {
		i = n - k - i
	}
	return mkInt(i)
}

func (m *machine) indexByte(s Value, c Value, last bool) Value {
	n := strLen(s)
	ct := termOf(m, c, 8)
	i := m.firstIdx(n, func(i int) *Term {
		if last {
			i = n - 1 - i
		}
		return m.tc.Eq(termOf(m, strAt(s, i), 8), ct)
	})
	if last && i >= 0 {
		i = n - 1 - i
	}
	return mkInt(i)
}

func (m *machine) count(s Value, c Value) Value {
	n := strLen(s)
	k := 0
	for i := 0; i < n; i++ {
		if m.branch(m.tc.Eq(termOf(m, strAt(s, i), 8), termOf(m, c, 8))) {
			k++
		}
	}
	return mkInt(k)
}

func (m *machine) compareStr(a, b Value) Value {
	x, ok1 := hostStr(a)
	y, ok2 := hostStr(b)
	if ok1 && ok2 {
		return Value{N: uint64(int64(strings.Compare(x, y)))}
	}
	one, neg, z := m.tc.Const(64, 1), m.tc.Const(64, ^uint64(0)), m.tc.Const(64, 0)
	lt := m.strLess(a, b)
	eq := m.eqStr(a, b)
	return fromTerm(m.tc.Ite(eq, z, m.tc.Ite(lt, neg, one)))
}

// asciiOnly: every byte is known to be < 0x80.
func (m *machine) asciiOnly(s Value) bool {
	for i, n := 0, strLen(s); i < n; i++ {
		b := strAt(s, i)
		if b.P == nil {
			if b.N >= 0x80 {
				return false
			}
			continue
		}
		c := m.tc.Ult(b.P.(*Term), m.tc.Const(8, 0x80))
		if v, ok := m.implied(c); !ok || !v {
			return false
		}
	}
	return true
}

func (m *machine) asciiCase(b Value, upper bool) Value {
	if b.P == nil {
		c := byte(b.N)
		if upper && 'a' <= c && c <= 'z' {
			c -= 32
		} else if !upper && 'A' <= c && c <= 'Z' {
			c += 32
		}
		return Value{N: uint64(c)}
	}
	tc := m.tc
	t := b.P.(*Term)
	lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
	if upper {
		lo, hi, d = 'a', 'z', 224
	}
	isL := tc.And(tc.Ule(tc.Const(8, lo), t), tc.Ule(t, tc.Const(8, hi)))
	return fromTerm(tc.Ite(isL, tc.Bin(OAdd, t, tc.Const(8, d)), t))
}

func (m *machine) caseMap(s Value, upper bool) (Value, bool) {
	if x, ok := hostStr(s); ok {
		if upper {
			return Value{P: strings.ToUpper(x)}, true
		}
		return Value{P: strings.ToLower(x)}, true
	}
	if !m.asciiOnly(s) {
		return Value{}, false
	}
	b := strBytes(s)
	r := make([]Value, len(b))
	for i := range b {
		r[i] = m.asciiCase(b[i], upper)
	}
	return mkStr(r), true
}

func (m *machine) symTable(name string) Value { return Value{} }

func strVals(m *machine, v Value) []string {
	var r []string
	for _, x := range sliceOf(v) {
		r = append(r, m.concStr(x))
	}
	return r
}

func (m *machine) concDrawVal(d *draw) Value { return Value{P: d.t} }

// label arguments must be concrete
func lbl(v Value) string { s, _ := hostStr(v); return s }

func (m *machine) noSpec() {
	if m.spec > 0 {
		panic(specAbort{})
	}
}

func (m *machine) newInput(kind, label string, w uint8) *Term {
	m.noSpec()
	if m.inInit > 0 {
		m.unsupported("symbolic input during package initialisation")
	}
	return m.newVar(kind, label, w)
}

func (m *machine) termValue(t *Term) Value { return fromTerm(t) }

func init() {
	// ---- the sym package
	S := func(name string, f intrFn) { in(symPkg+name, f) }
	S("Symbolic", func(m *machine, fr *frame, a []Value) Value { return mkBool(true) })
	S("Thorough", func(m *machine, fr *frame, a []Value) Value { return mkBool(m.ex.thorough) })
	S("Bound", func(m *machine, fr *frame, a []Value) Value {
		if m.ex.thorough {
			return a[1]
		}
		return a[0]
	})
	S("Bool", func(m *machine, fr *frame, a []Value) Value { return fromTerm(m.newInput("bool", lbl(a[0]), 0)) })
	for _, x := range []struct {
		n string
		w uint8
	}{{"Byte", 8}, {"Uint8", 8}, {"Int8", 8}, {"Int16", 16}, {"Uint16", 16}, {"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Int", 64}, {"Uint", 64}} {
		x := x
		S(x.n, func(m *machine, fr *frame, a []Value) Value {
			return fromTerm(m.newInput(strings.ToLower(x.n), lbl(a[0]), x.w))
		})
	}
	S("IntRange", func(m *machine, fr *frame, a []Value) Value {
		lo, hi := int64(a[1].N), int64(a[2].N)
		if lo == hi {
			return a[1]
		}
		if lo >= 0 && hi < 256 {
			t := m.newInput("int", lbl(a[0]), 8)
			m.assume(m.tc.Ule(m.tc.Const(8, uint64(lo)), t))
			m.assume(m.tc.Ule(t, m.tc.Const(8, uint64(hi))))
			return fromTerm(m.tc.Resize(t, 64, false))
		}
		t := m.newInput("int", lbl(a[0]), 64)
		m.assume(m.tc.Sle(m.tc.Const(64, uint64(lo)), t))
		m.assume(m.tc.Sle(t, m.tc.Const(64, uint64(hi))))
		return fromTerm(t)
	})
	S("Choose", func(m *machine, fr *frame, a []Value) Value {
		m.noSpec()
		n := m.concInt(a[1], 64)
		k := m.choose(n)
		m.draws = append(m.draws, draw{kind: "choose", label: lbl(a[0]), n: n, val: k})
		for len(m.vars) < len(m.draws) {
			m.vars = append(m.vars, nil)
			m.dom = append(m.dom, [4]uint64{})
			m.multi = append(m.multi, false)
		}
		for len(m.model) < len(m.draws) {
			m.model = append(m.model, 0)
		}
		return Value{N: k}
	})
	S("Assume", func(m *machine, fr *frame, a []Value) Value {
		m.noSpec()
		m.assume(m.boolTerm(a[0]))
		return Value{}
	})
	S("Assert", func(m *machine, fr *frame, a []Value) Value {
		m.noSpec()
		m.assert(m.boolTerm(a[0]), lbl(a[1]))
		return Value{}
	})
	S("Fail", func(m *machine, fr *frame, a []Value) Value {
		m.noSpec()
		m.assert(m.tc.F, lbl(a[0]))
		return Value{}
	})
	S("Stop", func(m *machine, fr *frame, a []Value) Value { m.noSpec(); panic(pathEnd{"pruned", ""}) })
	S("Cover", func(m *machine, fr *frame, a []Value) Value {
		m.noSpec()
		m.covers[lbl(a[0])] = true
		return Value{}
	})
	S("Observe", func(m *machine, fr *frame, a []Value) Value {
		m.noSpec()
		f, _ := a[1].P.(*Iface)
		if f == nil {
			m.obs = append(m.obs, obsRec{lbl(a[0]), Value{}, nil})
		} else {
			v := f.v
			switch x := v.P.(type) {
			case *Slice:
				v = Value{P: &Slice{append([]Value(nil), x.a...)}}
			}
			m.obs = append(m.obs, obsRec{lbl(a[0]), v, f.t})
		}
		return Value{}
	})
	bytesOf := func(m *machine, label string, n int, f func() *Term) Value {
		b := make([]Value, n)
		for i := range b {
			b[i] = fromTerm(f())
		}
		if n == 0 {
			return emptyStr
		}
		return Value{P: &SymStr{b}}
	}
	S("String", func(m *machine, fr *frame, a []Value) Value {
		l := lbl(a[0])
		return bytesOf(m, l, int(m.concInt(a[1], 64)), func() *Term { return m.newInput("byte", l, 8) })
	})
	S("ASCII", func(m *machine, fr *frame, a []Value) Value {
		l := lbl(a[0])
		return bytesOf(m, l, int(m.concInt(a[1], 64)), func() *Term { return m.tc.Resize(m.newInput("byte", l, 7), 8, false) })
	})
	S("StringOf", func(m *machine, fr *frame, a []Value) Value {
		l, alpha := lbl(a[0]), lbl(a[2])
		var tab [4]uint64
		for i := 0; i < len(alpha); i++ {
			tab[alpha[i]>>6] |= 1 << (alpha[i] & 63)
		}
		return bytesOf(m, l, int(m.concInt(a[1], 64)), func() *Term {
			t := m.newInput("byte", l, 8)
			c := m.tc.F
			for i := 0; i < 256; {
				if tab[i>>6]>>(uint(i)&63)&1 == 0 {
					i++
					continue
				}
				j := i
				for j+1 < 256 && tab[(j+1)>>6]>>(uint(j+1)&63)&1 == 1 {
					j++
				}
				c = m.tc.Or(c, m.tc.And(m.tc.Ule(m.tc.Const(8, uint64(i)), t), m.tc.Ule(t, m.tc.Const(8, uint64(j)))))
				i = j + 1
			}
			m.assume(c)
			return t
		})
	})
	S("And", func(m *machine, fr *frame, a []Value) Value {
		t := m.tc.T
		if sl, _ := a[0].P.(*Slice); sl != nil {
			for _, v := range sl.a {
				t = m.tc.And(t, m.boolTerm(v))
			}
		}
		return fromTerm(t)
	})
	S("Or", func(m *machine, fr *frame, a []Value) Value {
		t := m.tc.F
		if sl, _ := a[0].P.(*Slice); sl != nil {
			for _, v := range sl.a {
				t = m.tc.Or(t, m.boolTerm(v))
			}
		}
		return fromTerm(t)
	})
	S("Implies", func(m *machine, fr *frame, a []Value) Value {
		return fromTerm(m.tc.Or(m.tc.Not(m.boolTerm(a[0])), m.boolTerm(a[1])))
	})
	S("Iff", func(m *machine, fr *frame, a []Value) Value {
		return fromTerm(m.tc.Eq(m.boolTerm(a[0]), m.boolTerm(a[1])))
	})
	S("Ite", func(m *machine, fr *frame, a []Value) Value {
		return fromTerm(m.tc.Ite(m.boolTerm(a[0]), termOf(m, a[1], 64), termOf(m, a[2], 64)))
	})
	S("Concrete", func(m *machine, fr *frame, a []Value) Value { return Value{P: m.concStr(a[0])} })
	S("ConcreteInt", func(m *machine, fr *frame, a []Value) Value { return Value{N: m.concInt(a[0], 64)} })
	S("MapOrder", func(m *machine, fr *frame, a []Value) Value { m.mapPerm = a[0].N != 0; return Value{} })
	S("Race", func(m *machine, fr *frame, a []Value) Value {
		m.race = &raceState{m: m, shadow: map[*Value]*shadow{}}
		return Value{}
	})
	S("AnyRandom", func(m *machine, fr *frame, a []Value) Value { m.hostState["rand.any"] = true; return Value{} })
	// crypto/rand: bytes that never repeat, or (AnyRandom) any bytes at all
	randRead := func(m *machine, fr *frame, b Value) Value {
		m.noSpec()
		var s []Value
		if x, ok := b.P.(*Slice); ok {
			s = x.a
		}
		if m.hostState["rand.any"] == true {
			for i := range s {
				s[i] = fromTerm(m.newVar("aux", "random", 8))
			}
			return mkTuple(mkInt(len(s)), Value{})
		}
		n, _ := m.hostState["rand.n"].(uint64)
		var blk [32]byte
		for i := range s {
			if i%32 == 0 {
				n++
				blk = sha256.Sum256([]byte(fmt.Sprint("random", n)))
			}
			s[i] = Value{N: uint64(blk[i%32])}
		}
		m.hostState["rand.n"] = n
		return mkTuple(mkInt(len(s)), Value{})
	}
	in("crypto/rand.Read", func(m *machine, fr *frame, a []Value) Value { return randRead(m, fr, a[0]) })
	in("(*crypto/rand.reader).Read", func(m *machine, fr *frame, a []Value) Value { return randRead(m, fr, a[1]) })
	S("Yield", func(m *machine, fr *frame, a []Value) Value { m.yield(fr, "yield"); return Value{} })
	for _, n := range []string{"And", "Or", "Implies", "Iff", "Ite", "Symbolic", "Bound", "Thorough"} {
		pureIntrinsics[symPkg+n] = true
	}

	// ---- internal/bytealg, strings, bytes
	for _, p := range []string{"internal/bytealg.", "internal/stringslite.", "strings.", "bytes."} {
		p := p
		in(p+"Index", func(m *machine, fr *frame, a []Value) Value { return m.indexStr(asStr(a[0]), asStr(a[1])) })
		in(p+"IndexString", intrinsics[p+"Index"])
		if p != "bytes." && p != "strings." || true {
			in(p+"IndexByte", func(m *machine, fr *frame, a []Value) Value { return m.indexByte(asStr(a[0]), a[1], false) })
		}
		in(p+"IndexByteString", intrinsics[p+"IndexByte"])
		in(p+"LastIndexByte", func(m *machine, fr *frame, a []Value) Value { return m.indexByte(asStr(a[0]), a[1], true) })
		in(p+"LastIndexByteString", intrinsics[p+"LastIndexByte"])
	}
	delete(intrinsics, "strings.IndexString")
	for _, p := range []string{"strings.", "bytes."} {
		in(p+"LastIndex", func(m *machine, fr *frame, a []Value) Value { return m.lastIndexStr(asStr(a[0]), asStr(a[1])) })
		in(p+"Compare", func(m *machine, fr *frame, a []Value) Value { return m.compareStr(asStr(a[0]), asStr(a[1])) })
	}
	in("bytes.Equal", func(m *machine, fr *frame, a []Value) Value { return fromTerm(m.eqStr(asStr(a[0]), asStr(a[1]))) })
	in("internal/bytealg.Equal", intrinsics["bytes.Equal"])
	in("internal/bytealg.Compare", intrinsics["strings.Compare"])
	in("internal/bytealg.CompareString", intrinsics["strings.Compare"])
	in("internal/bytealg.Count", func(m *machine, fr *frame, a []Value) Value { return m.count(asStr(a[0]), a[1]) })
	in("internal/bytealg.CountString", intrinsics["internal/bytealg.Count"])
	in("internal/bytealg.Cutover", func(m *machine, fr *frame, a []Value) Value { return Value{N: 1 << 30} })
	in("internal/bytealg.MakeNoZero", func(m *machine, fr *frame, a []Value) Value {
		n := m.sizeArg(a[0], rtypeOf(types.Typ[types.Int]), "makeslice: len out of range")
		return Value{P: &Slice{make([]Value, n)}}
	})
	prefix := func(suffix bool) intrFn {
		return func(m *machine, fr *frame, a []Value) Value {
			s, p := asStr(a[0]), asStr(a[1])
			n, k := strLen(s), strLen(p)
			if n < k {
				return mkBool(false)
			}
			if suffix {
				return fromTerm(m.eqStr(strSlice(s, n-k, n), p))
			}
			return fromTerm(m.eqStr(strSlice(s, 0, k), p))
		}
	}
	for _, p := range []string{"strings.", "bytes.", "internal/stringslite."} {
		in(p+"HasPrefix", prefix(false))
		in(p+"HasSuffix", prefix(true))
		pureIntrinsics[p+"HasPrefix"] = true
		pureIntrinsics[p+"HasSuffix"] = true
	}
	pureIntrinsics["bytes.Equal"] = true
	// the interning cache hashes the text; the text itself is the result
	in("encoding/json/v2.makeString", func(m *machine, fr *frame, a []Value) Value {
		return mkStr(append([]Value(nil), sliceOf(a[1])...))
	})
	in("strings.Clone", func(m *machine, fr *frame, a []Value) Value { return a[0] })
	in("internal/stringslite.Clone", intrinsics["strings.Clone"])
	tries["strings.ToLower"] = func(m *machine, fr *frame, a []Value) (Value, bool) { return m.caseMap(a[0], false) }
	tries["strings.ToUpper"] = func(m *machine, fr *frame, a []Value) (Value, bool) { return m.caseMap(a[0], true) }
	tries["strings.EqualFold"] = func(m *machine, fr *frame, a []Value) (Value, bool) {
		x, ok1 := hostStr(a[0])
		y, ok2 := hostStr(a[1])
		if ok1 && ok2 {
			return mkBool(strings.EqualFold(x, y)), true
		}
		if !m.asciiOnly(a[0]) || !m.asciiOnly(a[1]) {
			return Value{}, false
		}
		l, _ := m.caseMap(a[0], false)
		r, _ := m.caseMap(a[1], false)
		return fromTerm(m.eqStr(l, r)), true
	}
	hostOnly := func(name string, f func(s []string) Value) {
		tries[name] = func(m *machine, fr *frame, a []Value) (Value, bool) {
			var s []string
			for _, x := range a {
				h, ok := hostStr(x)
				if !ok {
					return Value{}, false
				}
				s = append(s, h)
			}
			return f(s), true
		}
	}
	hostOnly("strings.TrimSpace", func(s []string) Value { return Value{P: strings.TrimSpace(s[0])} })
	hostOnly("strings.Trim", func(s []string) Value { return Value{P: strings.Trim(s[0], s[1])} })
	hostOnly("strings.Split", func(s []string) Value {
		var r []Value
		for _, x := range strings.Split(s[0], s[1]) {
			r = append(r, Value{P: x})
		}
		return Value{P: &Slice{r}}
	})
	hostOnly("strings.ContainsAny", func(s []string) Value { return mkBool(strings.ContainsAny(s[0], s[1])) })
	hostOnly("path.Clean", func(s []string) Value { return Value{P: pathClean(s[0])} })

	// ---- unsafe helpers
	id0 := func(m *machine, fr *frame, a []Value) Value { return a[0] }
	for _, n := range []string{"internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "reflect.noescape"} {
		in(n, id0)
	}

	// ---- math
	f1 := func(name string, f func(float64) float64) {
		in("math."+name, func(m *machine, fr *frame, a []Value) Value {
			return Value{N: math.Float64bits(f(m.concF(a[0])))}
		})
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Sqrt", math.Sqrt)
	f1("Exp", math.Exp)
	f1("Exp2", math.Exp2)
	f1("Log", math.Log)
	f1("Log2", math.Log2)
	f1("Log10", math.Log10)
	f1("Abs", math.Abs)
	f1("Round", math.Round)
	f2 := func(name string, f func(x, y float64) float64) {
		in("math."+name, func(m *machine, fr *frame, a []Value) Value {
			return Value{N: math.Float64bits(f(m.concF(a[0]), m.concF(a[1])))}
		})
	}
	f2("Pow", math.Pow)
	f2("Mod", math.Mod)
	f2("Max", math.Max)
	f2("Min", math.Min)
	in("math.Float64bits", func(m *machine, fr *frame, a []Value) Value { return Value{N: math.Float64bits(m.concF(a[0]))} })
	in("math.Float64frombits", func(m *machine, fr *frame, a []Value) Value { return Value{N: m.concInt(a[0], 64)} })
	in("math.Float32bits", func(m *machine, fr *frame, a []Value) Value {
		return Value{N: uint64(math.Float32bits(float32(ftof(a[0]))))}
	})
	in("math.Float32frombits", func(m *machine, fr *frame, a []Value) Value {
		return Value{N: math.Float64bits(float64(math.Float32frombits(uint32(m.concInt(a[0], 32)))))}
	})
	for _, f := range []string{"Float64bits", "Float64frombits", "Float32bits", "Float32frombits"} {
		in("internal/strconv.f"+f[1:], intrinsics["math."+f])
	}

	// ---- strconv fast paths on concrete values
	tries["strconv.FormatFloat"] = func(m *machine, fr *frame, a []Value) (Value, bool) {
		if f, ok := a[0].P.(*FInt); ok && a[1].P == nil && a[1].N == 'f' && a[2].P == nil && int64(a[2].N) <= 0 {
			return tries["strconv.FormatInt"](m, fr, []Value{fromTerm(f.t), {N: 10}})
		}
		return Value{P: strconv.FormatFloat(m.concF(a[0]), byte(m.concInt(a[1], 8)), int(int64(m.concInt(a[2], 64))), int(m.concInt(a[3], 64)))}, true
	}
	tries["strconv.AppendFloat"] = func(m *machine, fr *frame, a []Value) (Value, bool) {
		s := strconv.FormatFloat(m.concF(a[1]), byte(m.concInt(a[2], 8)), int(int64(m.concInt(a[3], 64))), int(m.concInt(a[4], 64)))
		return appendVals(rtUint8, 1, a[0], strBytes(Value{P: s})), true
	}
	tries["strconv.FormatInt"] = func(m *machine, fr *frame, a []Value) (Value, bool) {
		if a[1].P != nil || a[1].N < 2 || a[1].N > 36 {
			return Value{}, false
		}
		if a[0].P != nil {
			if a[1].N != 10 {
				return Value{}, false
			}
			return m.formatInt(a[0], true)
		}
		return Value{P: strconv.FormatInt(int64(a[0].N), int(a[1].N))}, true
	}
	tries["strconv.FormatUint"] = func(m *machine, fr *frame, a []Value) (Value, bool) {
		if a[1].P != nil || a[1].N < 2 || a[1].N > 36 {
			return Value{}, false
		}
		if a[0].P != nil {
			if a[1].N != 10 {
				return Value{}, false
			}
			return m.formatInt(a[0], false)
		}
		return Value{P: strconv.FormatUint(a[0].N, int(a[1].N))}, true
	}
	appendInt := func(signed bool) func(m *machine, fr *frame, a []Value) (Value, bool) {
		return func(m *machine, fr *frame, a []Value) (Value, bool) {
			if a[1].P == nil || a[2].P != nil || a[2].N != 10 {
				return Value{}, false
			}
			s, ok := m.formatInt(a[1], signed)
			if !ok {
				return Value{}, false
			}
			return appendVals(rtUint8, 1, a[0], strBytes(s)), true
		}
	}
	tries["strconv.AppendInt"] = appendInt(true)
	tries["strconv.AppendUint"] = appendInt(false)
	tries["strconv.Itoa"] = func(m *machine, fr *frame, a []Value) (Value, bool) {
		if a[0].P != nil {
			return m.formatInt(a[0], true)
		}
		return Value{P: strconv.Itoa(int(int64(a[0].N)))}, true
	}

	// ---- runtime
	in("runtime.Caller", func(m *machine, fr *frame, a []Value) Value {
		at := fr
		for skip := int(int64(m.concInt(a[0], 64))); at != nil && at.fn != nil; at = at.caller {
			// compilers leave no trace of the functions they make up
			if s := at.fn.fn.Synthetic; strings.Contains(s, "wrapper") || strings.Contains(s, "thunk") {
				continue
			}
			if skip == 0 {
				p := m.p.prog.Fset.Position(at.pos)
				return mkTuple(mkInt(1), Value{P: p.Filename}, mkInt(p.Line), mkBool(true))
			}
			skip--
		}
		return mkTuple(Value{}, emptyStr, Value{}, mkBool(false))
	})
	in("runtime.Callers", func(m *machine, fr *frame, a []Value) Value { return Value{} })
	in("runtime.FuncForPC", nop)
	in("(*runtime.Func).Name", func(m *machine, fr *frame, a []Value) Value { return emptyStr })
	in("runtime.Gosched", func(m *machine, fr *frame, a []Value) Value { m.yield(fr, "gosched"); return Value{} })
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime/debug.FreeOSMemory", "runtime.ReadMemStats", "runtime.LockOSThread", "runtime.UnlockOSThread"} {
		in(n, nop)
	}
	in("runtime.AddCleanup", func(m *machine, fr *frame, a []Value) Value { m.unsupported("AddCleanup"); return Value{} })
	in("runtime.NumCPU", func(m *machine, fr *frame, a []Value) Value { return mkInt(4) })
	in("runtime.GOMAXPROCS", func(m *machine, fr *frame, a []Value) Value { return mkInt(4) })
	in("runtime.NumGoroutine", func(m *machine, fr *frame, a []Value) Value { return mkInt(len(m.threads)) })
	in("runtime/debug.Stack", func(m *machine, fr *frame, a []Value) Value { return mkBytes("goroutine stack") })
	in("runtime/debug.PrintStack", nop)
	in("runtime/debug.ReadBuildInfo", func(m *machine, fr *frame, a []Value) Value { return mkTuple(Value{}, mkBool(false)) })
	in("runtime.Stack", func(m *machine, fr *frame, a []Value) Value { return Value{} })
	in("runtime.GOROOT", func(m *machine, fr *frame, a []Value) Value { return Value{P: "/usr/local/go"} })
	in("runtime.Version", func(m *machine, fr *frame, a []Value) Value { return Value{P: "go1.27.3"} })

	// ---- godebug
	in("internal/godebug.New", func(m *machine, fr *frame, a []Value) Value {
		t := rtypeOf(m.p.all["internal/godebug"].Pkg.Scope().Lookup("Setting").Type())
		s := zeroSlot(t)
		return Value{P: s}
	})
	in("(*internal/godebug.Setting).Value", func(m *machine, fr *frame, a []Value) Value { return emptyStr })
	in("(*internal/godebug.Setting).IncNonDefault", nop)
	in("(*internal/godebug.Setting).Name", func(m *machine, fr *frame, a []Value) Value { return emptyStr })
	in("(*internal/godebug.Setting).Undocumented", func(m *machine, fr *frame, a []Value) Value { return mkBool(false) })

	// ---- sync
	lockFn := func(m *machine, fr *frame, a []Value) Value {
		m.yield(fr, "lock")
		l := m.lock(a[0])
		m.block(fr, "mutex", func() bool { return !l.locked && l.readers == 0 })
		l.locked = true
		if m.race != nil {
			m.race.acquire(l.vc, m.th)
			m.race.acquire(l.rvc, m.th)
		}
		return Value{}
	}
	unlockFn := func(m *machine, fr *frame, a []Value) Value {
		l := m.lock(a[0])
		if !l.locked {
			panic(targetPanic{v: m.mkErr("sync: unlock of unlocked mutex"), fatal: false})
		}
		if m.race != nil {
			m.race.release(&l.vc, m.th)
		}
		l.locked = false
		m.yield(fr, "unlock")
		return Value{}
	}
	tryLock := func(m *machine, fr *frame, a []Value) Value {
		m.yield(fr, "trylock")
		l := m.lock(a[0])
		if l.locked || l.readers > 0 {
			return mkBool(false)
		}
		l.locked = true
		return mkBool(true)
	}
	for _, t := range []string{"(*sync.Mutex)", "(*internal/sync.Mutex)", "(*sync.RWMutex)"} {
		in(t+".Lock", lockFn)
		in(t+".Unlock", unlockFn)
		in(t+".TryLock", tryLock)
	}
	in("(*sync.RWMutex).RLock", func(m *machine, fr *frame, a []Value) Value {
		m.yield(fr, "rlock")
		l := m.lock(a[0])
		m.block(fr, "rlock", func() bool { return !l.locked })
		l.readers++
		if m.race != nil {
			m.race.acquire(l.vc, m.th)
		}
		return Value{}
	})
	in("(*sync.RWMutex).RUnlock", func(m *machine, fr *frame, a []Value) Value {
		l := m.lock(a[0])
		if l.readers == 0 {
			panic(targetPanic{v: m.mkErr("sync: RUnlock of unlocked RWMutex")})
		}
		if m.race != nil {
			m.race.release(&l.rvc, m.th)
		}
		l.readers--
		m.yield(fr, "runlock")
		return Value{}
	})
	in("(*sync.WaitGroup).Add", func(m *machine, fr *frame, a []Value) Value {
		m.yield(fr, "wg.Add")
		l := m.lock(a[0])
		if m.race != nil {
			m.race.release(&l.vc, m.th)
		}
		l.wg += int64(m.concInt(a[1], 64))
		if l.wg < 0 {
			m.strPanic("sync: negative WaitGroup counter")
		}
		return Value{}
	})
	in("(*sync.WaitGroup).Done", func(m *machine, fr *frame, a []Value) Value {
		return intrinsics["(*sync.WaitGroup).Add"](m, fr, []Value{a[0], {N: ^uint64(0)}})
	})
	in("(*sync.WaitGroup).Wait", func(m *machine, fr *frame, a []Value) Value {
		m.yield(fr, "wg.Wait")
		l := m.lock(a[0])
		m.block(fr, "WaitGroup", func() bool { return l.wg == 0 })
		if m.race != nil {
			m.race.acquire(l.vc, m.th)
		}
		return Value{}
	})
	in("(*sync.Pool).Get", func(m *machine, fr *frame, a []Value) Value {
		p := m.pool(a[0])
		for i := len(p.items) - 1; i >= 0; i-- {
			if p.items[i].th == m.th.id {
				v := p.items[i].v
				p.items = append(p.items[:i:i], p.items[i+1:]...)
				return v
			}
		}
		s := m.ptrSlot(a[0]).P.(*Agg)
		cl, _ := s.e[len(s.e)-1].P.(*Closure)
		if cl == nil {
			return Value{}
		}
		return m.call(fr, cl, nil)
	})
	in("(*sync.Pool).Put", func(m *machine, fr *frame, a []Value) Value {
		if a[1].P != nil {
			p := m.pool(a[0])
			p.items = append(p.items, pooled{m.th.id, a[1]})
		}
		return Value{}
	})
	in("sync.runtime_registerPoolCleanup", nop)
	symMap := func(m *machine, p Value) *Map {
		s := m.ptrSlot(p).P.(*Agg)
		k := len(s.e) - 1
		mp, _ := s.e[k].P.(*Map)
		if mp == nil {
			mp = newMap(rtypeOf(types.Universe.Lookup("any").Type()))
			s.e[k] = Value{P: mp}
		}
		return mp
	}
	in("(*sync.Map).Load", func(m *machine, fr *frame, a []Value) Value {
		m.yield(fr, "map.Load")
		mp := symMap(m, a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 {
			return mkTuple(mp.vals[i], mkBool(true))
		}
		return mkTuple(Value{}, mkBool(false))
	})
	in("(*sync.Map).Store", func(m *machine, fr *frame, a []Value) Value {
		m.yield(fr, "map.Store")
		m.mapSet(symMap(m, a[0]), a[1], a[2])
		return Value{}
	})
	in("(*sync.Map).LoadOrStore", func(m *machine, fr *frame, a []Value) Value {
		m.yield(fr, "map.LoadOrStore")
		mp := symMap(m, a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 {
			return mkTuple(mp.vals[i], mkBool(true))
		}
		m.mapSet(mp, a[1], a[2])
		return mkTuple(a[2], mkBool(false))
	})
	in("(*sync.Map).LoadAndDelete", func(m *machine, fr *frame, a []Value) Value {
		mp := symMap(m, a[0])
		if i := m.mapFind(mp, a[1]); i >= 0 {
			v := mp.vals[i]
			m.mapDelete(mp, a[1])
			return mkTuple(v, mkBool(true))
		}
		return mkTuple(Value{}, mkBool(false))
	})
	in("(*sync.Map).Delete", func(m *machine, fr *frame, a []Value) Value {
		m.mapDelete(symMap(m, a[0]), a[1])
		return Value{}
	})
	in("(*sync.Map).Clear", func(m *machine, fr *frame, a []Value) Value {
		s := m.ptrSlot(a[0]).P.(*Agg)
		s.e[len(s.e)-1] = Value{}
		return Value{}
	})
	in("(*sync.Map).Swap", func(m *machine, fr *frame, a []Value) Value {
		mp := symMap(m, a[0])
		old := mkTuple(Value{}, mkBool(false))
		if i := m.mapFind(mp, a[1]); i >= 0 {
			old = mkTuple(mp.vals[i], mkBool(true))
		}
		m.mapSet(mp, a[1], a[2])
		return old
	})
	in("(*sync.Map).Range", func(m *machine, fr *frame, a []Value) Value {
		mp := symMap(m, a[0])
		for i := 0; i < len(mp.keys); i++ {
			if mp.live[i] {
				if r := m.call(fr, a[1].P.(*Closure), []Value{mp.keys[i], mp.vals[i]}); !m.branch(m.boolTerm(r)) {
					break
				}
			}
		}
		return Value{}
	})

	// ---- sync/atomic
	for _, p := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, x := range []struct {
			n string
			t *RType
		}{{"Int32", rtypeOf(types.Typ[types.Int32])}, {"Int64", rtypeOf(types.Typ[types.Int64])}, {"Uint32", rtypeOf(types.Typ[types.Uint32])},
			{"Uint64", rtypeOf(types.Typ[types.Uint64])}, {"Uintptr", rtypeOf(types.Typ[types.Uintptr])}, {"Pointer", rtypeOf(types.Typ[types.UnsafePointer])}} {
			t := x.t
			acq := func(m *machine, s Value) {
				if m.race != nil {
					m.race.acquire(m.lock(s).vc, m.th)
				}
			}
			rel := func(m *machine, s Value) {
				if m.race != nil {
					m.race.release(&m.lock(s).vc, m.th)
				}
			}
			in(p+"Load"+x.n, func(m *machine, fr *frame, a []Value) Value {
				m.yield(fr, "atomic")
				acq(m, a[0])
				return *m.ptrSlot(a[0])
			})
			in(p+"Store"+x.n, func(m *machine, fr *frame, a []Value) Value {
				m.yield(fr, "atomic")
				rel(m, a[0])
				*m.ptrSlot(a[0]) = a[1]
				return Value{}
			})
			in(p+"Swap"+x.n, func(m *machine, fr *frame, a []Value) Value {
				m.yield(fr, "atomic")
				acq(m, a[0])
				rel(m, a[0])
				s := m.ptrSlot(a[0])
				o := *s
				*s = a[1]
				return o
			})
			in(p+"CompareAndSwap"+x.n, func(m *machine, fr *frame, a []Value) Value {
				m.yield(fr, "atomic")
				acq(m, a[0])
				s := m.ptrSlot(a[0])
				if m.branch(m.eqVal(t, *s, a[1])) {
					rel(m, a[0])
					*s = a[2]
					return mkBool(true)
				}
				return mkBool(false)
			})
			if x.n != "Pointer" {
				in(p+"Add"+x.n, func(m *machine, fr *frame, a []Value) Value {
					m.yield(fr, "atomic")
					acq(m, a[0])
					rel(m, a[0])
					s := m.ptrSlot(a[0])
					*s = fromTerm(m.tc.Bin(OAdd, termOf(m, *s, t.w), termOf(m, a[1], t.w)))
					return *s
				})
				in(p+"And"+x.n, func(m *machine, fr *frame, a []Value) Value {
					s := m.ptrSlot(a[0])
					o := *s
					*s = Value{N: o.N & a[1].N}
					return o
				})
				in(p+"Or"+x.n, func(m *machine, fr *frame, a []Value) Value {
					s := m.ptrSlot(a[0])
					o := *s
					*s = Value{N: o.N | a[1].N}
					return o
				})
			}
		}
	}
	in("(*sync/atomic.Value).Load", func(m *machine, fr *frame, a []Value) Value {
		m.yield(fr, "atomic")
		return m.ptrSlot(a[0]).P.(*Agg).e[0]
	})
	in("(*sync/atomic.Value).Store", func(m *machine, fr *frame, a []Value) Value {
		m.yield(fr, "atomic")
		m.ptrSlot(a[0]).P.(*Agg).e[0] = a[1]
		return Value{}
	})

	// ---- time
	in("time.initLocal", func(m *machine, fr *frame, a []Value) Value {
		s := m.globalSlot("time", "localLoc")
		s.P.(*Agg).e[0] = Value{P: "UTC"}
		return Value{}
	})
	in("time.Sleep", func(m *machine, fr *frame, a []Value) Value { m.yield(fr, "sleep"); return Value{} })
	in("time.runtimeNano", func(m *machine, fr *frame, a []Value) Value { return Value{N: 1 << 40} })
	in("time.Now", func(m *machine, fr *frame, a []Value) Value {
		// a fixed instant without monotonic reading: 2026-11-19 12:00:00 UTC
		n, _ := m.hostState["now"].(int64)
		st := zero(rtypeOf(m.p.all["time"].Pkg.Scope().Lookup("Time").Type()))
		sec := uint64(63930686400 + n) // seconds since year 1
		st.P.(*Agg).e[0] = Value{N: 0}
		st.P.(*Agg).e[1] = Value{N: sec}
		st.P.(*Agg).e[2] = Value{P: m.globalSlot("time", "localLoc")}
		return st
	})
	in("time.now", func(m *machine, fr *frame, a []Value) Value {
		return mkTuple(Value{N: 63930686400 - 62135596800}, Value{}, Value{N: 1 << 40})
	})

	// ---- os
	getenv := func(m *machine, k string) (Value, bool) {
		v, ok := m.env[k]
		return v, ok
	}
	in("os.Getenv", func(m *machine, fr *frame, a []Value) Value {
		if v, ok := getenv(m, m.concStr(a[0])); ok {
			return v
		}
		return emptyStr
	})
	in("os.LookupEnv", func(m *machine, fr *frame, a []Value) Value {
		if v, ok := getenv(m, m.concStr(a[0])); ok {
			return mkTuple(v, mkBool(true))
		}
		return mkTuple(emptyStr, mkBool(false))
	})
	// stacks show the lines of the sources where these are there, which they are not here
	in("syscall.Open", func(m *machine, fr *frame, a []Value) Value {
		if s, ok := hostStr(a[0]); !ok || !strings.HasSuffix(s, ".go") {
			m.unsupported("syscall.Open")
		}
		return mkTuple(Value{}, m.mkErr("no such file or directory"))
	})
	in("syscall.Getenv", intrinsics["os.LookupEnv"])
	in("os.Setenv", func(m *machine, fr *frame, a []Value) Value { m.env[m.concStr(a[0])] = a[1]; return errNil() })
	in("os.Unsetenv", func(m *machine, fr *frame, a []Value) Value { delete(m.env, m.concStr(a[0])); return errNil() })
	in("os.Environ", func(m *machine, fr *frame, a []Value) Value {
		r := []Value{}
		for _, k := range sortedKeys(m.env) {
			r = append(r, strConcat(Value{P: k + "="}, m.env[k]))
		}
		return Value{P: &Slice{r}}
	})
	in("os.Getwd", func(m *machine, fr *frame, a []Value) Value { return mkTuple(Value{P: "/scratch"}, errNil()) })
	in("syscall.Getrlimit", func(m *machine, fr *frame, a []Value) Value { return errNil() })
	in("syscall.setrlimit", func(m *machine, fr *frame, a []Value) Value { return errNil() })
	in("os.Getpid", func(m *machine, fr *frame, a []Value) Value { return mkInt(4242) })
	in("os.Hostname", func(m *machine, fr *frame, a []Value) Value { return mkTuple(Value{P: "host"}, errNil()) })
	in("os.runtime_args", func(m *machine, fr *frame, a []Value) Value { return Value{P: &Slice{[]Value{{P: "prog"}}}} })
	in("syscall.runtime_envs", func(m *machine, fr *frame, a []Value) Value { return Value{P: &Slice{[]Value{}}} })
	in("os.NewFile", func(m *machine, fr *frame, a []Value) Value {
		return Value{P: zeroSlot(rtypeOf(m.p.all["os"].Pkg.Scope().Lookup("File").Type()))}
	})
	in("(*os.File).Write", func(m *machine, fr *frame, a []Value) Value {
		return mkTuple(mkInt(len(sliceOf(a[1]))), errNil())
	})
	in("(*os.File).WriteString", func(m *machine, fr *frame, a []Value) Value {
		return mkTuple(mkInt(strLen(a[1])), errNil())
	})
	in("(*os.File).Close", func(m *machine, fr *frame, a []Value) Value { return errNil() })
	in("(*os.File).Sync", func(m *machine, fr *frame, a []Value) Value { return errNil() })
	in("os.Exit", func(m *machine, fr *frame, a []Value) Value {
		m.noSpec()
		panic(targetPanic{v: m.mkErr(fmt.Sprintf("os.Exit(%d)", m.concInt(a[0], 64))), fatal: false})
	})
	in("os.runtime_beforeExit", nop)
	in("os.runtime_rand", func(m *machine, fr *frame, a []Value) Value {
		n, _ := m.hostState["os.rand"].(int)
		m.hostState["os.rand"] = n + 1
		return Value{N: uint64(n + 1)}
	})
	in("os.checkPidfdOnce", nop)

	// ---- misc runtime links
	in("internal/race.Acquire", nop)
	in("syscall.runtime_BeforeFork", nop)
	in("unique.runtime_registerUniqueMapCleanup", nop)
	in("internal/sync.runtime_rand", func(m *machine, fr *frame, a []Value) Value { return Value{N: 1} })
	in("maps.rand", func(m *machine, fr *frame, a []Value) Value { return Value{N: 1} })
	in("hash/maphash.runtime_rand", func(m *machine, fr *frame, a []Value) Value { return Value{N: 1} })
	in("internal/godebug.registerMetric", nop)
	in("mime.initMimeUnix", nop)
	in("mime.initMime", func(m *machine, fr *frame, a []Value) Value {
		return m.callFn(fr, m.p.funcOf(m.p.lookupFunc("mime", "setMimeTypes")), Value{P: m.globalSlot("mime", "builtinTypesLower").P}, Value{P: m.globalSlot("mime", "builtinTypesLower").P})
	})
	delete(intrinsics, "mime.initMime")
	for _, n := range []string{"sync.runtime_notifyListCheck", "sync.fatal", "sync.throw", "internal/sync.throw", "internal/sync.fatal"} {
		in(n, func(m *machine, fr *frame, a []Value) Value {
			if len(a) > 0 {
				if s, ok := hostStr(a[0]); ok && s != "" {
					m.strPanic(s)
				}
			}
			return Value{}
		})
	}
	in("crypto/internal/fips140only.Enforced", func(m *machine, fr *frame, a []Value) Value { return mkBool(false) })
	in("crypto/internal/fips140.RecordApproved", nop)
	in("crypto/internal/fips140.RecordNonApproved", nop)
	in("crypto/internal/fips140.CAST", nop)
	in("crypto/internal/fips140.PCT", nop)
	in("crypto/internal/boring.Unreachable", nop)
	in("crypto/internal/boring.UnreachableExceptTests", nop)
	in("crypto/internal/boring/sig.StandardCrypto", nop)
	in("crypto/subtle.ConstantTimeCompare", func(m *machine, fr *frame, a []Value) Value {
		t := m.eqStr(asStr(a[0]), asStr(a[1]))
		return fromTerm(m.tc.Ite(t, m.tc.Const(64, 1), m.tc.Const(64, 0)))
	})
	in("crypto/internal/fips140/subtle.ConstantTimeCompare", intrinsics["crypto/subtle.ConstantTimeCompare"])
}

func (m *machine) concF(v Value) float64 {
	if f, ok := v.P.(*FInt); ok {
		return float64(int64(m.concInt(fromTerm(f.t), 64)))
	}
	return math.Float64frombits(v.N)
}

func pathClean(s string) string {
	// path.Clean on a concrete string
	return path.Clean(s)
}

// showConc renders a value under the path's model in the notation of sym.Observe.
func (m *machine) showConc(v Value, t *RType) string {
	if t == nil {
		return "nil"
	}
	ev := func(x Value, w uint8) uint64 {
		if tm, ok := x.P.(*Term); ok {
			return m.tc.eval(tm, m.model)
		}
		return x.N
	}
	str := func(x Value) string {
		b := strBytes(x)
		r := make([]byte, len(b))
		for i := range b {
			r[i] = byte(ev(b[i], 8))
		}
		return strconv.Quote(string(r))
	}
	switch t.kind {
	case reflect.Bool:
		return strconv.FormatBool(ev(v, 0) != 0)
	case reflect.String:
		return str(v)
	case reflect.Slice:
		if t.elem.kind == reflect.Uint8 {
			return str(asStr(v))
		}
		var sb bytes.Buffer
		sb.WriteByte('[')
		for i, x := range sliceOf(v) {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(m.showConc(x, t.elem))
		}
		sb.WriteByte(']')
		return sb.String()
	case reflect.Interface:
		f, _ := v.P.(*Iface)
		if f == nil {
			return "nil"
		}
		return m.showConc(f.v, f.t)
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(ftof(v), 'g', -1, 64)
	case reflect.Pointer, reflect.Map, reflect.Func, reflect.Chan:
		if v.P == nil {
			return "nil"
		}
		return t.kind.String()
	}
	if t.isInt() {
		x := ev(v, t.w)
		if t.signed {
			return strconv.FormatInt(sext(x, t.w), 10)
		}
		return strconv.FormatUint(x, 10)
	}
	return t.kind.String()
}

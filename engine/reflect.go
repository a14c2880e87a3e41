package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"
)

const (
	flRO     = 1<<5 | 1<<6
	flSticky = 1 << 5
	flEmbed  = 1 << 6
	flIndir  = 1 << 7
	flAddr   = 1 << 8
)

type rv struct {
	t *RType
	p any
	f uint64
}

func toRV(v Value) rv {
	a := v.P.(*Agg)
	t, _ := a.e[0].P.(*RType)
	return rv{t, a.e[1].P, a.e[2].N}
}

func (r rv) value() Value {
	if r.t == nil {
		return Value{P: &Agg{make([]Value, 3)}}
	}
	return Value{P: &Agg{[]Value{{P: r.t}, {P: r.p}, {N: r.f}}}}
}

func kindFlag(t *RType) uint64 { return uint64(t.kind) }

func mkRV(t *RType, v Value) rv {
	if t.direct() {
		return rv{t, v.P, kindFlag(t)}
	}
	return rv{t, newSlot(v), kindFlag(t) | flIndir}
}

func (r rv) val() Value {
	if r.f&flIndir != 0 {
		return copyOut(*r.p.(*Value))
	}
	return Value{P: r.p}
}

func (r rv) slot() *Value { return r.p.(*Value) }

// raceReads are the methods of reflect.Value that read the value.
var raceReads = map[string]bool{"Interface": true, "Int": true, "Uint": true, "Float": true, "String": true, "Bool": true, "Len": true,
	"IsNil": true, "IsZero": true, "Elem": true, "MapIndex": true, "MapKeys": true, "MapRange": true, "Bytes": true, "Call": true, "Convert": true}

func (r rv) raceRead(m *machine, fr *frame) {
	if r.f&flIndir == 0 || r.t == nil {
		return
	}
	if s, ok := r.p.(*Value); ok {
		switch r.t.kind {
		case reflect.Array, reflect.Struct:
			if r.f&flAddr == 0 {
				return // a copy of its own
			}
		}
		m.race.access(fr, s, false)
	}
}

func (m *machine) rtypeVal(t *RType) Value {
	if t == nil {
		return Value{}
	}
	return Value{P: &Iface{m.p.rtypePtr, Value{P: t}}}
}

func argType(v Value) *RType { // a reflect.Type interface value
	f, _ := v.P.(*Iface)
	if f == nil {
		return nil
	}
	t, _ := f.v.P.(*RType)
	return t
}

func (m *machine) reflPanic(s string) { m.strPanic("reflect: " + s) }

func (m *machine) mustBe(r rv, name string, ks ...reflect.Kind) {
	if r.t == nil {
		m.valueErr(name, reflect.Invalid)
	}
	for _, k := range ks {
		if r.t.kind == k {
			return
		}
	}
	m.valueErr(name, r.t.kind)
}

func (m *machine) valueErr(name string, k reflect.Kind) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	t := m.p.all["reflect"].Pkg.Scope().Lookup("ValueError").Type()
	st := zero(rtypeOf(t))
	a := st.P.(*Agg)
	a.e[0] = Value{P: "reflect.Value." + name}
	a.e[1] = Value{N: uint64(k)}
	panic(targetPanic{v: Value{P: &Iface{rtypeOf(types.NewPointer(t)), Value{P: newSlot(st)}}}})
}

func (m *machine) mustAssignable(r rv) {
	if r.t == nil {
		m.valueErr("Set", reflect.Invalid)
	}
	if r.f&flRO != 0 {
		m.reflPanic("reflect.Value.Set using value obtained using unexported field")
	}
	if r.f&flAddr == 0 {
		m.reflPanic("reflect.Value.Set using unaddressable value")
	}
}

func (m *machine) mustExported(r rv, name string) {
	if r.t == nil {
		m.valueErr(name, reflect.Invalid)
	}
	if r.f&flRO != 0 {
		m.reflPanic("reflect.Value." + name + " using value obtained using unexported field")
	}
}

// packIface is Value.Interface / assignment to an interface type.
func (r rv) iface() Value {
	if r.t.kind == reflect.Interface {
		return r.val()
	}
	return Value{P: &Iface{r.t, r.val()}}
}

func (m *machine) assignTo(r rv, dst *RType, ctx string) Value {
	if r.t == nil {
		m.reflPanic("call of " + ctx + " on zero Value")
	}
	if dst.kind == reflect.Interface && r.t.kind == reflect.Interface {
		v := r.val()
		if v.P == nil {
			return v
		}
		f := v.P.(*Iface)
		if it := dst.u.(*types.Interface); m.implements(f.t, dst, it) {
			return v
		}
	} else if dst.kind == reflect.Interface {
		if m.implements(r.t, dst, dst.u.(*types.Interface)) {
			return r.iface()
		}
	} else if r.t == dst || types.AssignableTo(r.t.t, dst.t) {
		return r.val()
	}
	m.strPanic(ctx + ": value of type " + typeString(r.t.t) + " is not assignable to type " + typeString(dst.t))
	return Value{}
}

func (m *machine) setRV(r rv, x rv) {
	m.mustAssignable(r)
	m.mustExported(x, "Set")
	v := m.assignTo(x, r.t, "reflect.Set")
	m.rstore(r.slot(), v)
}

// rstore is a store through reflection.
func (m *machine) rstore(s *Value, v Value) {
	if m.race != nil && m.th != nil && m.th.top != nil {
		m.race.access(m.th.top, s, true)
	}
	store(s, v)
}

// raceMap notes an access to a map.
func (m *machine) raceMap(mp *Map, write bool) {
	if m.race != nil && mp != nil && m.th != nil && m.th.top != nil {
		m.race.access(m.th.top, &mp.rs, write)
	}
}

func fieldRV(r rv, i int) rv {
	ft := r.t.fields[i]
	sf := r.t.u.(*types.Struct).Field(i)
	fl := kindFlag(ft) | flIndir | r.f&(flAddr|flSticky)
	if !sf.Exported() {
		if sf.Embedded() {
			fl |= flEmbed
		} else {
			fl |= flSticky
		}
	}
	fl |= r.f & flSticky
	s := r.slot()
	return rv{ft, &s.P.(*Agg).e[i], fl}
}

func (m *machine) structField(t *RType, i int, index []int) Value {
	sft := rtypeOf(m.p.all["reflect"].Pkg.Scope().Lookup("StructField").Type())
	st := t.u.(*types.Struct)
	f := st.Field(i)
	if index == nil {
		index = []int{i}
	}
	v := zero(sft)
	a := v.P.(*Agg)
	a.e[0] = Value{P: f.Name()}
	if !f.Exported() {
		a.e[1] = Value{P: f.Pkg().Path()}
	}
	a.e[2] = m.rtypeVal(t.fields[i])
	a.e[3] = Value{P: st.Tag(i)}
	a.e[4] = Value{N: uint64(8 * i)}
	ix := make([]Value, len(index))
	for k, x := range index {
		ix[k] = mkInt(x)
	}
	a.e[5] = Value{P: &Slice{ix}}
	a.e[6] = mkBool(f.Embedded())
	return v
}

func structType(t *RType) *RType {
	if t.kind == reflect.Pointer {
		return t.elem
	}
	return t
}

// fieldByName follows reflect's breadth-first promotion rules.
func fieldByName(t *RType, match func(string) bool) ([]int, *RType, bool) {
	type ent struct {
		t   *RType
		idx []int
	}
	cur := []ent{{t, nil}}
	seen := map[*RType]bool{}
	for len(cur) > 0 {
		var next []ent
		var found []int
		var ft *RType
		n := 0
		cnt := map[*RType]int{}
		for _, e := range cur {
			cnt[e.t]++
		}
		for _, e := range cur {
			if seen[e.t] {
				continue
			}
			seen[e.t] = true
			if e.t.kind != reflect.Struct {
				continue
			}
			st := e.t.u.(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				ix := append(append([]int(nil), e.idx...), i)
				if match(f.Name()) {
					n += cnt[e.t]
					found, ft = ix, e.t.fields[i]
					continue
				}
				if f.Embedded() {
					next = append(next, ent{structType(e.t.fields[i]), ix})
				}
			}
		}
		if n == 1 {
			return found, ft, true
		}
		if n > 1 {
			return nil, nil, false
		}
		cur = next
	}
	return nil, nil, false
}

func (m *machine) boundMethod(r rv, mi *methodInfo) rv {
	fn := m.p.methodFunc(r.t, mi.sel.Obj().Id())
	recv := r.val()
	sig := mi.sel.Obj().Type().(*types.Signature)
	sig = types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	var cl *Closure
	if r.t.kind == reflect.Interface {
		f, _ := recv.P.(*Iface)
		if f == nil {
			m.reflPanic("Method on nil interface value")
		}
		fn = m.findMethod(f.t, mi.sel.Obj().Id())
		recv = f.v
	}
	cl = &Closure{name: mi.name, sig: sig, host: func(m *machine, fr *frame, args []Value) Value {
		return m.call(fr, fn.clo, append([]Value{recv}, args...))
	}}
	return rv{rtypeOf(sig), cl, uint64(reflect.Func) | r.f&flRO}
}

func (m *machine) methodVal(t *RType, i int, mi *methodInfo) Value {
	mt := rtypeOf(m.p.all["reflect"].Pkg.Scope().Lookup("Method").Type())
	v := zero(mt)
	a := v.P.(*Agg)
	a.e[0] = Value{P: mi.name}
	sig := mi.sel.Obj().Type().(*types.Signature)
	if t.kind != reflect.Interface {
		vars := []*types.Var{types.NewParam(0, nil, "", t.t)}
		for k := 0; k < sig.Params().Len(); k++ {
			vars = append(vars, sig.Params().At(k))
		}
		sig = types.NewSignatureType(nil, nil, nil, types.NewTuple(vars...), sig.Results(), sig.Variadic())
	}
	ft := rtypeOf(sig)
	a.e[2] = m.rtypeVal(ft)
	if t.kind != reflect.Interface {
		fn := m.p.methodFunc(t, mi.sel.Obj().Id())
		a.e[3] = mkRV(ft, Value{P: fn.clo}).value()
	}
	a.e[4] = mkInt(i)
	return v
}

func (m *machine) exportedMethods(t *RType) []*methodInfo {
	t.methodSet(m.p)
	return t.sorted
}

func (m *machine) reflCall(fr *frame, r rv, args []rv, slice bool) []Value {
	m.mustBe(r, "Call", reflect.Func)
	m.mustExported(r, "Call")
	sig := r.t.u.(*types.Signature)
	cl, _ := r.val().P.(*Closure)
	if cl == nil {
		m.strPanic("reflect: call of nil function")
	}
	n := sig.Params().Len()
	var in []Value
	conv := func(x rv, t types.Type) Value {
		if x.t == nil {
			m.strPanic("reflect: Call using zero Value argument")
		}
		m.mustExported(x, "Call")
		dst := rtypeOf(t)
		if x.t != dst && !(dst.kind == reflect.Interface && (x.t.kind == reflect.Interface || m.implements(x.t, dst, dst.u.(*types.Interface)))) && !types.AssignableTo(x.t.t, dst.t) {
			m.strPanic("reflect: Call using " + typeString(x.t.t) + " as type " + typeString(dst.t))
		}
		return m.assignTo(x, dst, "reflect.Value.Call")
	}
	if sig.Variadic() && !slice {
		if len(args) < n-1 {
			m.strPanic("reflect: Call with too few input arguments")
		}
		for i := 0; i < n-1; i++ {
			in = append(in, conv(args[i], sig.Params().At(i).Type()))
		}
		st := sig.Params().At(n - 1).Type().(*types.Slice)
		var rest []Value
		for _, x := range args[n-1:] {
			rest = append(rest, conv(x, st.Elem()))
		}
		if rest == nil {
			rest = []Value{}
		}
		in = append(in, Value{P: &Slice{rest}})
	} else {
		if len(args) < n {
			m.strPanic("reflect: Call with too few input arguments")
		}
		if len(args) > n {
			m.strPanic("reflect: Call with too many input arguments")
		}
		for i := range args {
			in = append(in, conv(args[i], sig.Params().At(i).Type()))
		}
	}
	res := m.call(fr, cl, in)
	var out []Value
	switch sig.Results().Len() {
	case 0:
	case 1:
		out = []Value{mkRV(rtypeOf(sig.Results().At(0).Type()), res).value()}
	default:
		for i, v := range res.P.(*Agg).e {
			out = append(out, mkRV(rtypeOf(sig.Results().At(i).Type()), v).value())
		}
	}
	return out
}

func (m *machine) convertRV(r rv, dst *RType) rv {
	v := r.val()
	ro := r.f & flRO
	var out Value
	switch {
	case dst.kind == reflect.Interface:
		if r.t.kind == reflect.Interface {
			out = v
		} else {
			out = r.iface()
		}
	case types.ConvertibleTo(r.t.t, dst.t):
		out = m.conv(r.t, dst, v)
	default:
		m.strPanic("reflect.Value.Convert: value of type " + typeString(r.t.t) + " cannot be converted to type " + typeString(dst.t))
	}
	x := mkRV(dst, out)
	x.f |= ro
	return x
}

func reflectPure(key string) bool {
	for _, p := range []string{"(reflect.StructTag)", "reflect.TypeFor", "(reflect.Kind)", "(*reflect.ValueError)", "(reflect.Method)", "(reflect.StructField)", "(reflect.ChanDir)", "reflect.init", "internal/reflectlite.init", "(*reflect.rtype).IsExported", "(*reflect.ValueError)"} {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

type mapRange struct {
	mp *Map
	it *mapIter
	k  Value
	v  Value
}

func init() {
	in := func(name string, f func(m *machine, fr *frame, a []Value) Value) { intrinsics[name] = f }
	for _, rl := range []string{"reflect", "internal/reflectlite"} {
		rl := rl
		lite := rl == "internal/reflectlite"
		in(rl+".TypeOf", func(m *machine, fr *frame, a []Value) Value {
			f, _ := a[0].P.(*Iface)
			if f == nil {
				return Value{}
			}
			if lite {
				return Value{P: &Iface{m.p.rlRtype, Value{P: f.t}}}
			}
			return m.rtypeVal(f.t)
		})
		in(rl+".ValueOf", func(m *machine, fr *frame, a []Value) Value {
			f, _ := a[0].P.(*Iface)
			if f == nil {
				return rv{}.value()
			}
			if f.t.direct() {
				return rv{f.t, f.v.P, kindFlag(f.t)}.value()
			}
			// one box per interface value: reflect.ValueOf twice on the same interface shares the data word
			return rv{f.t, m.boxOf(f), kindFlag(f.t) | flIndir}.value()
		})
		in(rl+".Swapper", func(m *machine, fr *frame, a []Value) Value {
			f, _ := a[0].P.(*Iface)
			s := sliceOf(f.v)
			return Value{P: &Closure{name: "swapper", host: func(m *machine, fr *frame, b []Value) Value {
				i, j := b[0].N, b[1].N
				if i >= uint64(len(s)) || j >= uint64(len(s)) {
					m.strPanic("reflect: slice index out of range")
				}
				x, y := copyOut(s[i]), copyOut(s[j])
				store(&s[i], y)
				store(&s[j], x)
				return Value{}
			}}}
		})
		in("("+rl+".Value).Len", func(m *machine, fr *frame, a []Value) Value {
			r := toRV(a[0])
			m.mustBe(r, "Len", reflect.String, reflect.Slice, reflect.Map, reflect.Array, reflect.Chan, reflect.Pointer)
			return m.reflLen(r)
		})
	}
	for _, rt := range []string{"(internal/reflectlite.rtype)", "(*reflect.rtype)"} {
		rt := rt
		T := func(name string, f func(m *machine, t *RType, a []Value) Value) {
			in(rt+"."+name, func(m *machine, fr *frame, a []Value) Value {
				t, _ := a[0].P.(*RType)
				if t == nil {
					m.nilPanic()
				}
				return f(m, t, a[1:])
			})
		}
		T("String", func(m *machine, t *RType, a []Value) Value { return Value{P: typeString(t.t)} })
		T("Comparable", func(m *machine, t *RType, a []Value) Value { return mkBool(types.Comparable(t.t)) })
		T("Kind", func(m *machine, t *RType, a []Value) Value { return Value{N: uint64(t.kind)} })
		T("Name", func(m *machine, t *RType, a []Value) Value { return Value{P: typeName(t)} })
		T("PkgPath", func(m *machine, t *RType, a []Value) Value { return Value{P: typePkgPath(t)} })
		T("Elem", func(m *machine, t *RType, a []Value) Value {
			if t.elem == nil {
				m.strPanic("reflect: Elem of invalid type " + typeString(t.t))
			}
			if rt == "(*reflect.rtype)" {
				return m.rtypeVal(t.elem)
			}
			return Value{P: &Iface{m.p.rlRtype, Value{P: t.elem}}}
		})
		T("Implements", func(m *machine, t *RType, a []Value) Value {
			u := argType(a[0])
			if u == nil {
				m.strPanic("reflect: nil type passed to Type.Implements")
			}
			if u.kind != reflect.Interface {
				m.strPanic("reflect: non-interface type passed to Type.Implements")
			}
			return mkBool(m.implements(t, u, u.u.(*types.Interface)))
		})
		T("AssignableTo", func(m *machine, t *RType, a []Value) Value {
			u := argType(a[0])
			return mkBool(t == u || types.AssignableTo(t.t, u.t))
		})
		T("ConvertibleTo", func(m *machine, t *RType, a []Value) Value {
			return mkBool(types.ConvertibleTo(t.t, argType(a[0]).t))
		})
		T("Key", func(m *machine, t *RType, a []Value) Value {
			if t.key == nil {
				m.strPanic("reflect: Key of non-map type " + typeString(t.t))
			}
			return m.rtypeVal(t.key)
		})
		T("Len", func(m *machine, t *RType, a []Value) Value { return mkInt(t.length) })
		T("NumField", func(m *machine, t *RType, a []Value) Value {
			if t.kind != reflect.Struct {
				m.strPanic("reflect: NumField of non-struct type " + typeString(t.t))
			}
			return mkInt(len(t.fields))
		})
		T("Field", func(m *machine, t *RType, a []Value) Value {
			if t.kind != reflect.Struct {
				m.strPanic("reflect: Field of non-struct type " + typeString(t.t))
			}
			i := int(m.concInt(a[0], 64))
			if i < 0 || i >= len(t.fields) {
				m.strPanic("reflect: Field index out of bounds")
			}
			return m.structField(t, i, nil)
		})
		T("FieldByName", func(m *machine, t *RType, a []Value) Value {
			if t.kind != reflect.Struct {
				m.strPanic("reflect: FieldByName of non-struct type " + typeString(t.t))
			}
			idx, _, ok := m.findField(t, a[0])
			sft := rtypeOf(m.p.all["reflect"].Pkg.Scope().Lookup("StructField").Type())
			if !ok {
				return mkTuple(zero(sft), mkBool(false))
			}
			ot := t
			for _, i := range idx[:len(idx)-1] {
				ot = structType(ot.fields[i])
			}
			return mkTuple(m.structField(ot, idx[len(idx)-1], idx), mkBool(true))
		})
		T("NumMethod", func(m *machine, t *RType, a []Value) Value { return mkInt(len(m.exportedMethods(t))) })
		T("Method", func(m *machine, t *RType, a []Value) Value {
			i := int(a[0].N)
			ms := m.exportedMethods(t)
			if i < 0 || i >= len(ms) {
				m.strPanic("reflect: Method index out of range")
			}
			return m.methodVal(t, i, ms[i])
		})
		T("MethodByName", func(m *machine, t *RType, a []Value) Value {
			for i, mi := range m.exportedMethods(t) {
				if m.branch(m.eqStr(a[0], Value{P: mi.name})) {
					return mkTuple(m.methodVal(t, i, mi), mkBool(true))
				}
			}
			return mkTuple(zero(rtypeOf(m.p.all["reflect"].Pkg.Scope().Lookup("Method").Type())), mkBool(false))
		})
		T("NumIn", func(m *machine, t *RType, a []Value) Value { return mkInt(m.sigOf(t).Params().Len()) })
		T("NumOut", func(m *machine, t *RType, a []Value) Value { return mkInt(m.sigOf(t).Results().Len()) })
		T("IsVariadic", func(m *machine, t *RType, a []Value) Value { return mkBool(m.sigOf(t).Variadic()) })
		T("In", func(m *machine, t *RType, a []Value) Value {
			s := m.sigOf(t)
			i := int(a[0].N)
			if i >= s.Params().Len() || i < 0 {
				m.rtPanic("index out of range")
			}
			return m.rtypeVal(rtypeOf(s.Params().At(i).Type()))
		})
		T("Out", func(m *machine, t *RType, a []Value) Value {
			s := m.sigOf(t)
			i := int(a[0].N)
			if i >= s.Results().Len() || i < 0 {
				m.rtPanic("index out of range")
			}
			return m.rtypeVal(rtypeOf(s.Results().At(i).Type()))
		})
		T("Size", func(m *machine, t *RType, a []Value) Value { return Value{N: uint64(t.sizeof())} })
		T("Bits", func(m *machine, t *RType, a []Value) Value {
			if t.w == 0 && !t.isFloat() && t.kind != reflect.Complex64 && t.kind != reflect.Complex128 {
				m.strPanic("reflect: Bits of non-arithmetic Type " + typeString(t.t))
			}
			return Value{N: uint64(t.sizeof() * 8)}
		})
		T("Align", func(m *machine, t *RType, a []Value) Value { return mkInt(8) })
		T("OverflowInt", func(m *machine, t *RType, a []Value) Value { return m.overflowInt(t, a[0]) })
		T("OverflowUint", func(m *machine, t *RType, a []Value) Value { return m.overflowUint(t, a[0]) })
	}
	in("(*reflect.rtype).common", func(m *machine, fr *frame, a []Value) Value { return a[0] })
	in("(*reflect.rtype).uncommon", func(m *machine, fr *frame, a []Value) Value { return a[0] })
	in("reflect.TypeFor", func(m *machine, fr *frame, a []Value) Value { m.unsupported("reflect.TypeFor"); return Value{} })
	mkT := func(name string, f func(m *machine, a []Value) *RType) {
		in("reflect."+name, func(m *machine, fr *frame, a []Value) Value { return m.rtypeVal(f(m, a)) })
	}
	mkT("PointerTo", func(m *machine, a []Value) *RType { return ptrTo(argType(a[0])) })
	mkT("PtrTo", func(m *machine, a []Value) *RType { return ptrTo(argType(a[0])) })
	mkT("SliceOf", func(m *machine, a []Value) *RType { return rtypeOf(types.NewSlice(argType(a[0]).t)) })
	mkT("MapOf", func(m *machine, a []Value) *RType { return rtypeOf(types.NewMap(argType(a[0]).t, argType(a[1]).t)) })
	in("reflect.New", func(m *machine, fr *frame, a []Value) Value {
		t := argType(a[0])
		if t == nil {
			m.strPanic("reflect: New(nil)")
		}
		return rv{ptrTo(t), zeroSlot(t), uint64(reflect.Pointer)}.value()
	})
	in("reflect.Zero", func(m *machine, fr *frame, a []Value) Value {
		t := argType(a[0])
		if t == nil {
			m.strPanic("reflect: Zero(nil)")
		}
		return mkRV(t, zero(t)).value()
	})
	in("reflect.Indirect", func(m *machine, fr *frame, a []Value) Value {
		r := toRV(a[0])
		if r.t == nil || r.t.kind != reflect.Pointer {
			return a[0]
		}
		return m.reflElem(r).value()
	})
	in("reflect.MakeSlice", func(m *machine, fr *frame, a []Value) Value {
		t := argType(a[0])
		if t.kind != reflect.Slice {
			m.strPanic("reflect.MakeSlice of non-slice type")
		}
		chk := func(v Value, what string) int {
			n := int64(m.concInt(v, 64))
			if n < 0 {
				m.strPanic("reflect.MakeSlice: negative " + what)
			}
			return m.sizeArg(Value{N: uint64(n)}, rtypeOf(types.Typ[types.Int]), "reflect.MakeSlice: len out of range")
		}
		n := chk(a[1], "len")
		c := chk(a[2], "cap")
		if n > c {
			m.strPanic("reflect.MakeSlice: len > cap")
		}
		return mkRV(t, Value{P: &Slice{makeElems(t.elem, n, c)}}).value()
	})
	mkMap := func(m *machine, fr *frame, a []Value) Value {
		t := argType(a[0])
		if t.kind != reflect.Map {
			m.strPanic("reflect.MakeMapWithSize of non-map type")
		}
		return mkRV(t, Value{P: newMap(t.key)}).value()
	}
	in("reflect.MakeMap", mkMap)
	in("reflect.MakeMapWithSize", mkMap)
	in("reflect.Append", func(m *machine, fr *frame, a []Value) Value {
		r := toRV(a[0])
		m.mustBe(r, "Append", reflect.Slice)
		var add []Value
		for _, x := range sliceOf(a[1]) {
			add = append(add, m.assignTo(toRV(x), r.t.elem, "reflect.Append"))
		}
		return mkRV(r.t, appendVals(r.t.elem, r.t.elem.sizeof(), r.val(), add)).value()
	})
	in("reflect.AppendSlice", func(m *machine, fr *frame, a []Value) Value {
		r, s := toRV(a[0]), toRV(a[1])
		m.mustBe(r, "AppendSlice", reflect.Slice)
		return mkRV(r.t, appendVals(r.t.elem, r.t.elem.sizeof(), r.val(), sliceOf(s.val()))).value()
	})
	in("reflect.Copy", func(m *machine, fr *frame, a []Value) Value {
		d, s := m.elemsOf(toRV(a[0])), m.elemsOf(toRV(a[1]))
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		copyVals(d[:n], s[:n])
		return mkInt(n)
	})
	in("reflect.DeepEqual", func(m *machine, fr *frame, a []Value) Value {
		return fromTerm(m.deepEqual(rtypeOf(types.Universe.Lookup("any").Type()), a[0], a[1], 0))
	})
	in("reflect.Swapper", intrinsics["internal/reflectlite.Swapper"])

	V := func(name string, f func(m *machine, fr *frame, r rv, a []Value) Value) {
		for _, p := range []string{"(reflect.Value).", "(internal/reflectlite.Value)."} {
			if _, dup := intrinsics[p+name]; dup {
				continue
			}
			reads, set, length := raceReads[name], name == "Set", name == "Len"
			in(p+name, func(m *machine, fr *frame, a []Value) Value {
				r := toRV(a[0])
				if m.race != nil {
					if reads && !(length && r.t != nil && r.t.kind == reflect.Array) {
						r.raceRead(m, fr)
					} else if set {
						toRV(a[1]).raceRead(m, fr)
					}
				}
				return f(m, fr, r, a[1:])
			})
		}
	}
	V("Kind", func(m *machine, fr *frame, r rv, a []Value) Value {
		if r.t == nil {
			return Value{}
		}
		return Value{N: uint64(r.t.kind)}
	})
	V("IsValid", func(m *machine, fr *frame, r rv, a []Value) Value { return mkBool(r.t != nil) })
	V("Type", func(m *machine, fr *frame, r rv, a []Value) Value {
		if r.t == nil {
			m.valueErr("Type", reflect.Invalid)
		}
		return m.rtypeVal(r.t)
	})
	V("Interface", func(m *machine, fr *frame, r rv, a []Value) Value {
		if r.t == nil {
			m.valueErr("Interface", reflect.Invalid)
		}
		if r.f&flRO != 0 {
			m.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return r.iface()
	})
	V("CanInterface", func(m *machine, fr *frame, r rv, a []Value) Value {
		if r.t == nil {
			m.valueErr("CanInterface", reflect.Invalid)
		}
		return mkBool(r.f&flRO == 0)
	})
	V("IsNil", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "IsNil", reflect.Chan, reflect.Func, reflect.Map, reflect.Pointer, reflect.UnsafePointer, reflect.Interface, reflect.Slice)
		return mkBool(r.val().P == nil)
	})
	V("IsZero", func(m *machine, fr *frame, r rv, a []Value) Value {
		if r.t == nil {
			m.valueErr("IsZero", reflect.Invalid)
		}
		return fromTerm(m.isZero(r.t, r.val()))
	})
	V("Elem", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "Elem", reflect.Interface, reflect.Pointer)
		return m.reflElem(r).value()
	})
	V("NumField", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "NumField", reflect.Struct)
		return mkInt(len(r.t.fields))
	})
	V("Field", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "Field", reflect.Struct)
		i := int(a[0].N)
		if i < 0 || i >= len(r.t.fields) {
			m.strPanic("reflect: Field index out of range")
		}
		return fieldRV(r, i).value()
	})
	byIndex := func(m *machine, r rv, idx []int) rv {
		for k, i := range idx {
			if k > 0 && r.t.kind == reflect.Pointer && r.t.elem.kind == reflect.Struct {
				if r.val().P == nil {
					m.strPanic("reflect: indirection through nil pointer to embedded struct field " + typeName(r.t.elem))
				}
				r = m.reflElem(r)
			}
			r = fieldRV(r, i)
		}
		return r
	}
	V("FieldByIndex", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "FieldByIndex", reflect.Struct)
		var idx []int
		for _, x := range sliceOf(a[0]) {
			idx = append(idx, int(x.N))
		}
		return byIndex(m, r, idx).value()
	})
	V("FieldByName", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "FieldByName", reflect.Struct)
		idx, _, ok := m.findField(r.t, a[0])
		if !ok {
			return rv{}.value()
		}
		return byIndex(m, r, idx).value()
	})
	V("NumMethod", func(m *machine, fr *frame, r rv, a []Value) Value {
		if r.t == nil {
			m.valueErr("NumMethod", reflect.Invalid)
		}
		return mkInt(len(m.exportedMethods(r.t)))
	})
	V("Method", func(m *machine, fr *frame, r rv, a []Value) Value {
		ms := m.exportedMethods(r.t)
		i := int(a[0].N)
		if i < 0 || i >= len(ms) {
			m.strPanic("reflect: Method index out of range")
		}
		return m.boundMethod(r, ms[i]).value()
	})
	V("MethodByName", func(m *machine, fr *frame, r rv, a []Value) Value {
		if r.t == nil {
			m.valueErr("MethodByName", reflect.Invalid)
		}
		for _, mi := range m.exportedMethods(r.t) {
			if m.branch(m.eqStr(a[0], Value{P: mi.name})) {
				return m.boundMethod(r, mi).value()
			}
		}
		return rv{}.value()
	})
	V("Call", func(m *machine, fr *frame, r rv, a []Value) Value {
		var args []rv
		for _, x := range sliceOf(a[0]) {
			args = append(args, toRV(x))
		}
		return Value{P: &Slice{m.reflCall(fr, r, args, false)}}
	})
	V("CallSlice", func(m *machine, fr *frame, r rv, a []Value) Value {
		var args []rv
		for _, x := range sliceOf(a[0]) {
			args = append(args, toRV(x))
		}
		return Value{P: &Slice{m.reflCall(fr, r, args, true)}}
	})
	V("Cap", func(m *machine, fr *frame, r rv, a []Value) Value { return mkInt(cap(sliceOf(r.val()))) })
	V("Index", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "Index", reflect.Slice, reflect.Array, reflect.String)
		i := int(int64(m.concInt(a[0], 64)))
		switch r.t.kind {
		case reflect.String:
			v := r.val()
			if i < 0 || i >= strLen(v) {
				m.strPanic("reflect: string index out of range")
			}
			return mkRV(rtUint8, strAt(v, i)).value()
		case reflect.Slice:
			s := sliceOf(r.val())
			if i < 0 || i >= len(s) {
				m.strPanic("reflect: slice index out of range")
			}
			return rv{r.t.elem, &s[i], kindFlag(r.t.elem) | flIndir | flAddr | r.f&flRO}.value()
		default:
			e := r.slot().P.(*Agg).e
			if i < 0 || i >= len(e) {
				m.strPanic("reflect: array index out of range")
			}
			return rv{r.t.elem, &e[i], kindFlag(r.t.elem) | flIndir | r.f&(flAddr|flRO)}.value()
		}
	})
	V("Slice", func(m *machine, fr *frame, r rv, a []Value) Value {
		i, j := int(int64(m.concInt(a[0], 64))), int(int64(m.concInt(a[1], 64)))
		m.mustBe(r, "Slice", reflect.Slice, reflect.String)
		if r.t.kind == reflect.String {
			v := r.val()
			if i < 0 || j < i || j > strLen(v) {
				m.strPanic("reflect.Value.Slice: string slice index out of bounds")
			}
			return mkRV(r.t, strSlice(v, i, j)).value()
		}
		s := sliceOf(r.val())
		if i < 0 || j < i || j > cap(s) {
			m.strPanic("reflect.Value.Slice: slice index out of bounds")
		}
		return mkRV(r.t, Value{P: &Slice{s[i:j]}}).value()
	})
	V("MapKeys", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "MapKeys", reflect.Map)
		res := []Value{}
		if mp, ok := r.val().P.(*Map); ok {
			for i := range mp.keys {
				if mp.live[i] {
					res = append(res, mkRV(r.t.key, mp.keys[i]).value())
				}
			}
		}
		return Value{P: &Slice{res}}
	})
	V("MapIndex", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "MapIndex", reflect.Map)
		mp, _ := r.val().P.(*Map)
		k := m.assignTo(toRV(a[0]), r.t.key, "reflect.Value.MapIndex")
		i := m.mapFind(mp, k)
		if i < 0 {
			return rv{}.value()
		}
		x := mkRV(r.t.elem, mp.vals[i])
		x.f |= (r.f | toRV(a[0]).f) & flRO
		return x.value()
	})
	V("SetMapIndex", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "SetMapIndex", reflect.Map)
		m.mustExported(r, "SetMapIndex")
		mp, _ := r.val().P.(*Map)
		k := m.assignTo(toRV(a[0]), r.t.key, "reflect.Value.SetMapIndex")
		e := toRV(a[1])
		if e.t == nil {
			if mp != nil {
				m.mapDelete(mp, k)
			}
			return Value{}
		}
		if mp == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		m.raceMap(mp, true)
		m.mapSet(mp, k, m.assignTo(e, r.t.elem, "reflect.Value.SetMapIndex"))
		return Value{}
	})
	V("MapRange", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "MapRange", reflect.Map)
		mp, _ := r.val().P.(*Map)
		// *MapIter: opaque host object behind the pointer
		return Value{P: newSlot(Value{P: &mapRange{mp: mp, it: &mapIter{mp: mp}, k: Value{P: r.t}}})}
	})
	in("(*reflect.MapIter).Next", func(m *machine, fr *frame, a []Value) Value {
		mr := a[0].P.(*Value).P.(*mapRange)
		t := mr.it.next(m, nil, nil).P.(*Agg)
		if t.e[0].N == 0 {
			return mkBool(false)
		}
		mr.k = Value{P: &Agg{[]Value{{P: mr.rt()}, t.e[1]}}}
		mr.v = t.e[2]
		return mkBool(true)
	})
	in("(*reflect.MapIter).Key", func(m *machine, fr *frame, a []Value) Value {
		mr := a[0].P.(*Value).P.(*mapRange)
		return mkRV(mr.rt().key, mr.k.P.(*Agg).e[1]).value()
	})
	in("(*reflect.MapIter).Value", func(m *machine, fr *frame, a []Value) Value {
		mr := a[0].P.(*Value).P.(*mapRange)
		return mkRV(mr.rt().elem, mr.v).value()
	})
	V("SetIterKey", func(m *machine, fr *frame, r rv, a []Value) Value {
		mr := a[0].P.(*Value).P.(*mapRange)
		m.setRV(r, mkRV(mr.rt().key, mr.k.P.(*Agg).e[1]))
		return Value{}
	})
	V("SetIterValue", func(m *machine, fr *frame, r rv, a []Value) Value {
		mr := a[0].P.(*Value).P.(*mapRange)
		m.setRV(r, mkRV(mr.rt().elem, mr.v))
		return Value{}
	})
	V("Set", func(m *machine, fr *frame, r rv, a []Value) Value { m.setRV(r, toRV(a[0])); return Value{} })
	V("SetZero", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustAssignable(r)
		m.rstore(r.slot(), zero(r.t))
		return Value{}
	})
	ints := []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
	uints := []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
	floats := []reflect.Kind{reflect.Float32, reflect.Float64}
	resize := func(m *machine, v Value, from, to uint8, signed bool) Value {
		if t, ok := v.P.(*Term); ok {
			return fromTerm(m.tc.Resize(t, to, signed))
		}
		if signed {
			return Value{N: uint64(sext(v.N, from)) & mask(to)}
		}
		return Value{N: v.N & mask(to)}
	}
	V("SetInt", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustAssignable(r)
		m.mustBe(r, "SetInt", ints...)
		m.rstore(r.slot(), resize(m, a[0], 64, r.t.w, true))
		return Value{}
	})
	V("SetUint", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustAssignable(r)
		m.mustBe(r, "SetUint", uints...)
		m.rstore(r.slot(), resize(m, a[0], 64, r.t.w, false))
		return Value{}
	})
	V("SetFloat", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustAssignable(r)
		m.mustBe(r, "SetFloat", floats...)
		m.rstore(r.slot(), mkFloat(ftof(a[0]), r.t))
		return Value{}
	})
	V("SetBool", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustAssignable(r)
		m.mustBe(r, "SetBool", reflect.Bool)
		m.rstore(r.slot(), a[0])
		return Value{}
	})
	V("SetString", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustAssignable(r)
		m.mustBe(r, "SetString", reflect.String)
		m.rstore(r.slot(), a[0])
		return Value{}
	})
	V("SetBytes", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustAssignable(r)
		m.mustBe(r, "SetBytes", reflect.Slice)
		m.rstore(r.slot(), a[0])
		return Value{}
	})
	V("SetLen", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustAssignable(r)
		s := sliceOf(r.val())
		n := int(int64(m.concInt(a[0], 64)))
		if n < 0 || n > cap(s) {
			m.strPanic("reflect: slice length out of range in SetLen")
		}
		m.rstore(r.slot(), Value{P: &Slice{s[:n]}})
		return Value{}
	})
	V("Grow", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustAssignable(r)
		s := sliceOf(r.val())
		n := int(a[0].N)
		if len(s)+n > cap(s) {
			b := makeElems(r.t.elem, len(s), growCap(cap(s), len(s)+n, r.t.elem.sizeof()))
			copyVals(b, s)
			m.rstore(r.slot(), Value{P: &Slice{b}})
		}
		return Value{}
	})
	V("Int", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "Int", ints...)
		return resize(m, r.val(), r.t.w, 64, true)
	})
	V("Uint", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "Uint", uints...)
		return resize(m, r.val(), r.t.w, 64, false)
	})
	V("Float", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "Float", floats...)
		return Value{N: r.val().N}
	})
	V("Complex", func(m *machine, fr *frame, r rv, a []Value) Value { return r.val() })
	V("Bool", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "Bool", reflect.Bool)
		return r.val()
	})
	V("String", func(m *machine, fr *frame, r rv, a []Value) Value {
		if r.t == nil {
			return Value{P: "<invalid Value>"}
		}
		if r.t.kind == reflect.String {
			return r.val()
		}
		return Value{P: "<" + typeString(r.t.t) + " Value>"}
	})
	V("Bytes", func(m *machine, fr *frame, r rv, a []Value) Value {
		if r.t != nil && r.t.kind == reflect.Slice && r.t.elem.kind == reflect.Uint8 {
			return r.val()
		}
		if r.t != nil && r.t.kind == reflect.Array && r.t.elem.kind == reflect.Uint8 {
			if r.f&flAddr == 0 {
				m.strPanic("reflect.Value.Bytes of unaddressable byte array")
			}
			e := r.slot().P.(*Agg).e
			return Value{P: &Slice{e[:len(e):len(e)]}}
		}
		k := reflect.Invalid
		if r.t != nil {
			k = r.t.kind
			if k == reflect.Slice {
				m.strPanic("reflect.Value.Bytes of non-byte slice")
			}
			if k == reflect.Array {
				m.strPanic("reflect.Value.Bytes of non-byte array")
			}
		}
		m.valueErr("Bytes", k)
		return Value{}
	})
	V("CanSet", func(m *machine, fr *frame, r rv, a []Value) Value { return mkBool(r.f&(flAddr|flRO) == flAddr) })
	V("CanAddr", func(m *machine, fr *frame, r rv, a []Value) Value { return mkBool(r.f&flAddr != 0) })
	V("Addr", func(m *machine, fr *frame, r rv, a []Value) Value {
		if r.f&flAddr == 0 {
			m.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return rv{ptrTo(r.t), r.p, uint64(reflect.Pointer) | r.f&flRO}.value()
	})
	V("Convert", func(m *machine, fr *frame, r rv, a []Value) Value {
		return m.convertRV(r, argType(a[0])).value()
	})
	V("CanConvert", func(m *machine, fr *frame, r rv, a []Value) Value {
		return mkBool(types.ConvertibleTo(r.t.t, argType(a[0]).t))
	})
	V("Comparable", func(m *machine, fr *frame, r rv, a []Value) Value {
		if r.t == nil {
			return mkBool(true)
		}
		if r.t.kind == reflect.Interface {
			f, _ := r.val().P.(*Iface)
			return mkBool(f == nil || types.Comparable(f.t.t))
		}
		return mkBool(types.Comparable(r.t.t))
	})
	V("Equal", func(m *machine, fr *frame, r rv, a []Value) Value {
		u := toRV(a[0])
		if r.t == nil || u.t == nil {
			return mkBool(r.t == u.t)
		}
		return fromTerm(m.eqVal(rtypeOf(types.Universe.Lookup("any").Type()), r.iface(), u.iface()))
	})
	V("OverflowInt", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "OverflowInt", ints...)
		return m.overflowInt(r.t, a[0])
	})
	V("OverflowUint", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "OverflowUint", uints...)
		return m.overflowUint(r.t, a[0])
	})
	V("OverflowFloat", func(m *machine, fr *frame, r rv, a []Value) Value {
		m.mustBe(r, "OverflowFloat", floats...)
		if r.t.kind == reflect.Float32 {
			x := math.Abs(ftof(a[0]))
			return mkBool(math.MaxFloat32 < x && x <= math.MaxFloat64)
		}
		return mkBool(false)
	})
	for name, ks := range map[string][]reflect.Kind{"CanInt": ints, "CanUint": uints, "CanFloat": floats} {
		ks := ks
		V(name, func(m *machine, fr *frame, r rv, a []Value) Value {
			for _, k := range ks {
				if r.t != nil && r.t.kind == k {
					return mkBool(true)
				}
			}
			return mkBool(false)
		})
	}
	ptr := func(m *machine, fr *frame, r rv, a []Value) Value {
		v := r.val()
		if s, ok := v.P.(*Slice); ok {
			if cap(s.a) == 0 {
				return Value{N: 1}
			}
			return Value{N: m.addrOf(&s.a[:1][0])}
		}
		if v.P == nil {
			return Value{}
		}
		return Value{N: m.addrOf(v.P)}
	}
	V("Pointer", ptr)
	V("UnsafePointer", func(m *machine, fr *frame, r rv, a []Value) Value { return Value{P: r.val().P} })
	V("UnsafeAddr", func(m *machine, fr *frame, r rv, a []Value) Value { return Value{N: m.addrOf(r.p)} })
	V("abiType", func(m *machine, fr *frame, r rv, a []Value) Value { return Value{P: r.t} })
	V("typ", func(m *machine, fr *frame, r rv, a []Value) Value { return Value{P: r.t} })
}

func (mr *mapRange) rt() *RType {
	switch x := mr.k.P.(type) {
	case *RType:
		return x
	case *Agg:
		return x.e[0].P.(*RType)
	}
	return nil
}

func (m *machine) sigOf(t *RType) *types.Signature {
	s, ok := t.u.(*types.Signature)
	if !ok {
		m.strPanic("reflect: In/Out of non-func type " + typeString(t.t))
	}
	return s
}

func (m *machine) findField(t *RType, name Value) ([]int, *RType, bool) {
	if s, ok := hostStr(name); ok {
		return fieldByName(t, func(n string) bool { return n == s })
	}
	// symbolic name: decide against every candidate name
	seen := map[string]bool{}
	var names []string
	var walk func(t *RType, d int)
	walk = func(t *RType, d int) {
		if t.kind != reflect.Struct || d > 4 {
			return
		}
		st := t.u.(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if n := st.Field(i).Name(); !seen[n] {
				seen[n] = true
				names = append(names, n)
			}
			if st.Field(i).Embedded() {
				walk(structType(t.fields[i]), d+1)
			}
		}
	}
	walk(t, 0)
	for _, n := range names {
		if m.branch(m.eqStr(name, Value{P: n})) {
			return fieldByName(t, func(x string) bool { return x == n })
		}
	}
	return nil, nil, false
}

func (m *machine) reflElem(r rv) rv {
	switch r.t.kind {
	case reflect.Interface:
		f, _ := r.val().P.(*Iface)
		if f == nil {
			return rv{}
		}
		x := mkRV(f.t, f.v)
		x.f |= r.f & flRO
		return x
	case reflect.Pointer:
		p := r.val()
		if p.P == nil {
			return rv{}
		}
		s, ok := p.P.(*Value)
		if !ok {
			m.unsupported(fmt.Sprintf("reflect Elem of opaque pointer %s", r.t.t))
		}
		return rv{r.t.elem, s, kindFlag(r.t.elem) | flIndir | flAddr | r.f&flRO}
	}
	m.valueErr("Elem", r.t.kind)
	return rv{}
}

func (m *machine) reflLen(r rv) Value {
	v := r.val()
	switch r.t.kind {
	case reflect.String:
		return mkInt(strLen(v))
	case reflect.Slice:
		return mkInt(len(sliceOf(v)))
	case reflect.Map:
		if mp, ok := v.P.(*Map); ok {
			return mkInt(mp.n)
		}
		return mkInt(0)
	case reflect.Array:
		return mkInt(r.t.length)
	case reflect.Chan:
		if c, ok := v.P.(*Chan); ok {
			return mkInt(len(c.buf))
		}
		return mkInt(0)
	case reflect.Pointer:
		return mkInt(r.t.elem.length)
	}
	return Value{}
}

func (m *machine) elemsOf(r rv) []Value {
	switch r.t.kind {
	case reflect.Slice:
		return sliceOf(r.val())
	case reflect.Array:
		return r.slot().P.(*Agg).e
	case reflect.String:
		return strBytes(r.val())
	}
	m.unsupported("elemsOf")
	return nil
}

func (m *machine) overflowInt(t *RType, x Value) Value {
	if t.w == 64 {
		return mkBool(false)
	}
	tc := m.tc
	a := termOf(m, x, 64)
	b := tc.Resize(tc.Resize(a, t.w, true), 64, true)
	return fromTerm(tc.Not(tc.Eq(a, b)))
}

func (m *machine) overflowUint(t *RType, x Value) Value {
	if t.w == 64 {
		return mkBool(false)
	}
	tc := m.tc
	a := termOf(m, x, 64)
	return fromTerm(tc.Ult(tc.Const(64, mask(t.w)), a))
}

func (m *machine) isZero(t *RType, v Value) *Term {
	switch t.kind {
	case reflect.Slice, reflect.Map, reflect.Chan, reflect.Func, reflect.Pointer, reflect.UnsafePointer, reflect.Interface:
		return m.tc.Bool(v.P == nil)
	case reflect.String:
		return m.tc.Bool(strLen(v) == 0)
	case reflect.Struct:
		r := m.tc.T
		for i, f := range t.fields {
			r = m.tc.And(r, m.isZero(f, v.P.(*Agg).e[i]))
		}
		return r
	case reflect.Array:
		r := m.tc.T
		for i := range v.P.(*Agg).e {
			r = m.tc.And(r, m.isZero(t.elem, v.P.(*Agg).e[i]))
		}
		return r
	case reflect.Float32, reflect.Float64:
		if v.P != nil {
			return m.tc.Eq(m.whole(v), m.tc.Const(64, 0))
		}
		return m.tc.Bool(ftof(v) == 0)
	}
	return m.eqVal(t, v, zero(t))
}

func (m *machine) deepEqual(t *RType, a, b Value, d int) *Term {
	if d > 200 {
		m.unsupported("deepEqual depth")
	}
	tc := m.tc
	switch t.kind {
	case reflect.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return tc.Bool(x == nil && y == nil)
		}
		if x.t != y.t {
			return tc.F
		}
		return m.deepEqual(x.t, x.v, y.v, d+1)
	case reflect.Slice:
		if (a.P == nil) != (b.P == nil) {
			return tc.F
		}
		x, y := sliceOf(a), sliceOf(b)
		if len(x) != len(y) {
			return tc.F
		}
		r := tc.T
		for i := range x {
			r = tc.And(r, m.deepEqual(t.elem, x[i], y[i], d+1))
		}
		return r
	case reflect.Array, reflect.Struct:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := tc.T
		for i := range x.e {
			ft := t.elem
			if t.kind == reflect.Struct {
				ft = t.fields[i]
			}
			r = tc.And(r, m.deepEqual(ft, x.e[i], y.e[i], d+1))
		}
		return r
	case reflect.Map:
		x, _ := a.P.(*Map)
		y, _ := b.P.(*Map)
		if (x == nil) != (y == nil) {
			return tc.F
		}
		if x == nil || x == y {
			return tc.T
		}
		if x.n != y.n {
			return tc.F
		}
		r := tc.T
		for i := range x.keys {
			if !x.live[i] {
				continue
			}
			j := m.mapFind(y, x.keys[i])
			if j < 0 {
				return tc.F
			}
			r = tc.And(r, m.deepEqual(t.elem, x.vals[i], y.vals[j], d+1))
		}
		return r
	case reflect.Pointer:
		if a.P == b.P {
			return tc.T
		}
		if a.P == nil || b.P == nil {
			return tc.F
		}
		x, ok1 := a.P.(*Value)
		y, ok2 := b.P.(*Value)
		if !ok1 || !ok2 {
			return tc.F
		}
		return m.deepEqual(t.elem, *x, *y, d+1)
	case reflect.Func:
		return tc.Bool(a.P == nil && b.P == nil)
	}
	return m.eqVal(t, a, b)
}

func typeName(t *RType) string {
	switch u := t.t.(type) {
	case *types.Named:
		n := u.Obj().Name()
		if ta := u.TypeArgs(); ta != nil && ta.Len() > 0 {
			var s []string
			for i := 0; i < ta.Len(); i++ {
				s = append(s, types.TypeString(ta.At(i), nil))
			}
			n += "[" + strings.Join(s, ",") + "]"
		}
		return n
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "Pointer"
		}
		return u.Name()
	}
	return ""
}

func typePkgPath(t *RType) string {
	if u, ok := t.t.(*types.Named); ok && u.Obj().Pkg() != nil {
		return u.Obj().Pkg().Path()
	}
	return ""
}

func (m *machine) boxOf(f *Iface) *Value {
	tab, _ := m.hostState["boxes"].(map[*Iface]*Value)
	if tab == nil {
		tab = map[*Iface]*Value{}
		if m.hostState == nil {
			m.hostState = map[string]any{}
		}
		m.hostState["boxes"] = tab
	}
	s := tab[f]
	if s == nil {
		s = newSlot(f.v)
		tab[f] = s
	}
	return s
}

func (m *machine) addrOf(p any) uint64 {
	tab, _ := m.hostState["addrs"].(map[any]uint64)
	if tab == nil {
		tab = map[any]uint64{}
		if m.hostState == nil {
			m.hostState = map[string]any{}
		}
		m.hostState["addrs"] = tab
	}
	a := tab[p]
	if a == 0 {
		a = 0xc000010000 + uint64(len(tab))*64
		tab[p] = a
	}
	return a
}

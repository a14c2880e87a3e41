package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one symbolic-interpreter value.
//
//	ints, bools, uintptr: N (zero extended) or P=*Term
//	floats: N = math.Float64bits
//	string: P = string | *SymStr
//	pointer, unsafe.Pointer: P = *Value (slot) | *SymAddr | opaque host pointer | nil
//	struct, array, tuple: P = *Agg
//	slice: P = *Slice | nil;  map: *Map | nil;  chan: *Chan | nil
//	interface: P = *Iface | nil;  func: *Closure | nil
type Value struct {
	N uint64
	P any
}

type SymStr struct{ b []Value }
type Agg struct{ e []Value }
type Slice struct{ a []Value }
type Iface struct {
	t *RType
	v Value
}
type SymAddr struct {
	a   []Value
	idx *Term
	et  *RType
}
type Closure struct {
	fn   *Func
	env  []Value
	host func(m *machine, fr *frame, args []Value) Value // engine-made function (reflect method values, ...)
	name string
	sig  *types.Signature
}

type Map struct {
	idx  map[any]int
	keys []Value
	vals []Value
	live []bool
	n    int
	sym  int // number of live entries whose key is not concrete
	kt   *RType
	rs   Value // stands for the whole map in race detection
}

var emptyStr = Value{P: ""}

// ---- types

type RType struct {
	t      types.Type
	u      types.Type // underlying
	id     int
	kind   reflect.Kind
	w      uint8 // integer/bool width (0 for bool)
	signed bool
	fields []*RType // struct
	elem   *RType   // array, slice, ptr, chan, map value
	key    *RType
	length int
	size   int64

	mu      sync.Mutex
	methods map[string]*methodInfo // method set by id
	sorted  []*methodInfo          // exported methods
	ptrTo   *RType
}

type methodInfo struct {
	name string
	sel  *types.Selection
	fn   *Func
}

var (
	rtMu    sync.RWMutex
	rtFast  = map[types.Type]*RType{}
	rtMap   typeutil.Map
	rtCount int
	sizes   types.Sizes = types.SizesFor("gc", "amd64")
)

func rtypeOf(t types.Type) *RType {
	rtMu.RLock()
	r := rtFast[t]
	rtMu.RUnlock()
	if r != nil {
		return r
	}
	rtMu.Lock()
	defer rtMu.Unlock()
	return rtypeLocked(t)
}

func rtypeLocked(t types.Type) *RType {
	if r := rtFast[t]; r != nil {
		return r
	}
	t0 := t
	t = types.Unalias(t)
	if r, ok := rtMap.At(t).(*RType); ok {
		rtFast[t0] = r
		return r
	}
	r := &RType{t: t, u: t.Underlying(), id: rtCount}
	rtCount++
	rtFast[t0] = r
	rtMap.Set(t, r)
	switch u := r.u.(type) {
	case *types.Basic:
		r.kind, r.w, r.signed = basicKind(u.Kind())
		if r.kind == reflect.Invalid {
			r.kind = reflect.Invalid
		}
	case *types.Pointer:
		r.kind = reflect.Pointer
		r.elem = rtypeLocked(u.Elem())
	case *types.Slice:
		r.kind = reflect.Slice
		r.elem = rtypeLocked(u.Elem())
	case *types.Array:
		r.kind = reflect.Array
		r.elem = rtypeLocked(u.Elem())
		r.length = int(u.Len())
	case *types.Map:
		r.kind = reflect.Map
		r.key = rtypeLocked(u.Key())
		r.elem = rtypeLocked(u.Elem())
	case *types.Chan:
		r.kind = reflect.Chan
		r.elem = rtypeLocked(u.Elem())
	case *types.Struct:
		r.kind = reflect.Struct
		for i := 0; i < u.NumFields(); i++ {
			r.fields = append(r.fields, rtypeLocked(u.Field(i).Type()))
		}
	case *types.Signature:
		r.kind = reflect.Func
	case *types.Interface:
		r.kind = reflect.Interface
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, rtypeLocked(u.At(i).Type()))
		}
	}
	return r
}

func (r *RType) sizeof() int64 {
	defer func() { recover() }()
	return sizes.Sizeof(r.t)
}

func basicKind(k types.BasicKind) (reflect.Kind, uint8, bool) {
	switch k {
	case types.Bool, types.UntypedBool:
		return reflect.Bool, 0, false
	case types.Int, types.UntypedInt:
		return reflect.Int, 64, true
	case types.Int8:
		return reflect.Int8, 8, true
	case types.Int16:
		return reflect.Int16, 16, true
	case types.Int32, types.UntypedRune:
		return reflect.Int32, 32, true
	case types.Int64:
		return reflect.Int64, 64, true
	case types.Uint:
		return reflect.Uint, 64, false
	case types.Uint8:
		return reflect.Uint8, 8, false
	case types.Uint16:
		return reflect.Uint16, 16, false
	case types.Uint32:
		return reflect.Uint32, 32, false
	case types.Uint64:
		return reflect.Uint64, 64, false
	case types.Uintptr:
		return reflect.Uintptr, 64, false
	case types.Float32:
		return reflect.Float32, 0, false
	case types.Float64, types.UntypedFloat:
		return reflect.Float64, 0, false
	case types.Complex64:
		return reflect.Complex64, 0, false
	case types.Complex128, types.UntypedComplex:
		return reflect.Complex128, 0, false
	case types.String, types.UntypedString:
		return reflect.String, 0, false
	case types.UnsafePointer:
		return reflect.UnsafePointer, 0, false
	}
	return reflect.Invalid, 0, false
}

func (r *RType) isInt() bool { return r.w != 0 || r.kind == reflect.Bool }
func (r *RType) isScalar() bool {
	return r.w != 0 || r.kind == reflect.Bool
}
func (r *RType) isFloat() bool { return r.kind == reflect.Float32 || r.kind == reflect.Float64 }

// pointer-shaped: stored directly in an interface word
func (r *RType) direct() bool {
	switch r.kind {
	case reflect.Pointer, reflect.Func, reflect.Map, reflect.Chan, reflect.UnsafePointer:
		return true
	}
	return false
}

func ptrTo(r *RType) *RType {
	r.mu.Lock()
	p := r.ptrTo
	r.mu.Unlock()
	if p == nil {
		p = rtypeOf(types.NewPointer(r.t))
		r.mu.Lock()
		r.ptrTo = p
		r.mu.Unlock()
	}
	return p
}

func zero(r *RType) Value {
	switch r.kind {
	case reflect.String:
		return emptyStr
	case reflect.Struct:
		e := make([]Value, len(r.fields))
		for i, f := range r.fields {
			switch f.kind {
			case reflect.Struct, reflect.Array, reflect.String:
				e[i] = zero(f)
			}
		}
		return Value{P: &Agg{e}}
	case reflect.Array:
		e := make([]Value, r.length)
		switch r.elem.kind {
		case reflect.Struct, reflect.Array, reflect.String:
			for i := range e {
				e[i] = zero(r.elem)
			}
		}
		return Value{P: &Agg{e}}
	}
	if r.fields != nil { // tuple
		e := make([]Value, len(r.fields))
		for i, f := range r.fields {
			e[i] = zero(f)
		}
		return Value{P: &Agg{e}}
	}
	return Value{}
}

func newSlot(v Value) *Value {
	s := new(Value)
	*s = v
	return s
}

func zeroSlot(r *RType) *Value { return newSlot(zero(r)) }

// copyOut returns an immutable snapshot of a stored value.
func copyOut(v Value) Value {
	if a, ok := v.P.(*Agg); ok {
		e := make([]Value, len(a.e))
		copy(e, a.e)
		for i := range e {
			if _, ok := e[i].P.(*Agg); ok {
				e[i] = copyOut(e[i])
			}
		}
		return Value{P: &Agg{e}}
	}
	return v
}

// store writes v into the slot, keeping the identity of nested slots.
func store(s *Value, v Value) {
	if a, ok := v.P.(*Agg); ok {
		if d, ok := s.P.(*Agg); ok && len(d.e) == len(a.e) {
			if d == a {
				return
			}
			for i := range a.e {
				if _, ok := a.e[i].P.(*Agg); ok {
					store(&d.e[i], a.e[i])
				} else {
					d.e[i] = a.e[i]
				}
			}
			return
		}
		*s = copyOut(v)
		return
	}
	*s = v
}

func mkStr(b []Value) Value {
	for i := range b {
		if b[i].P != nil {
			return Value{P: &SymStr{b}}
		}
	}
	if len(b) == 0 {
		return emptyStr
	}
	h := make([]byte, len(b))
	for i := range b {
		h[i] = byte(b[i].N)
	}
	return Value{P: string(h)}
}

func strLen(v Value) int {
	switch s := v.P.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	return 0
}

func strBytes(v Value) []Value {
	switch s := v.P.(type) {
	case string:
		b := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			b[i].N = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	return nil
}

func strAt(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{P: s[lo:hi]}
	case *SymStr:
		return mkStr(s.b[lo:hi:hi])
	}
	return emptyStr
}

func strConcat(a, b Value) Value {
	x, ok1 := a.P.(string)
	y, ok2 := b.P.(string)
	if a.P == nil {
		x, ok1 = "", true
	}
	if b.P == nil {
		y, ok2 = "", true
	}
	if ok1 && ok2 {
		return Value{P: x + y}
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	ab, bb := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(ab)+len(bb))
	r = append(append(r, ab...), bb...)
	return Value{P: &SymStr{r}}
}

func hostStr(v Value) (string, bool) {
	switch s := v.P.(type) {
	case string:
		return s, true
	case nil:
		return "", true
	}
	return "", false
}

func mkBytes(s string) Value {
	b := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		b[i].N = uint64(s[i])
	}
	return Value{P: &Slice{b}}
}

func sliceOf(v Value) []Value {
	if s, ok := v.P.(*Slice); ok {
		return s.a
	}
	return nil
}

func mkBool(b bool) Value { return Value{N: b2u(b)} }
func mkInt(i int) Value   { return Value{N: uint64(i)} }
func mkTuple(vs ...Value) Value {
	return Value{P: &Agg{vs}}
}

func termOf(m *machine, v Value, w uint8) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	return m.tc.Const(w, v.N)
}

func fromTerm(t *Term) Value {
	if t.op == OConst {
		return Value{N: t.val}
	}
	return Value{P: t}
}

// ---- equality

func (m *machine) boolTerm(v Value) *Term { return termOf(m, v, 0) }

// eqStr as a term
func (m *machine) eqStr(a, b Value) *Term {
	x, ok1 := hostStr(a)
	y, ok2 := hostStr(b)
	if ok1 && ok2 {
		return m.tc.Bool(x == y)
	}
	if strLen(a) != strLen(b) {
		return m.tc.F
	}
	n := strLen(a)
	r := m.tc.T
	for i := 0; i < n; i++ {
		p, q := strAt(a, i), strAt(b, i)
		r = m.tc.And(r, m.tc.Eq(termOf(m, p, 8), termOf(m, q, 8)))
		if r == m.tc.F {
			return r
		}
	}
	return r
}

// eqVal compares two values of static type t.
func (m *machine) eqVal(t *RType, a, b Value) *Term {
	switch t.kind {
	case reflect.String:
		return m.eqStr(a, b)
	case reflect.Struct:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := m.tc.T
		st := t.u.(*types.Struct)
		for i, f := range t.fields {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = m.tc.And(r, m.eqVal(f, x.e[i], y.e[i]))
			if r == m.tc.F {
				return r
			}
		}
		return r
	case reflect.Array:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := m.tc.T
		for i := range x.e {
			r = m.tc.And(r, m.eqVal(t.elem, x.e[i], y.e[i]))
			if r == m.tc.F {
				return r
			}
		}
		return r
	case reflect.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return m.tc.Bool(x == nil && y == nil)
		}
		if x.t != y.t {
			return m.tc.F
		}
		if !types.Comparable(x.t.t) {
			m.rtPanic("comparing uncomparable type " + typeString(x.t.t))
		}
		return m.eqVal(x.t, x.v, y.v)
	case reflect.Float32, reflect.Float64:
		if a.P != nil || b.P != nil {
			return m.tc.Eq(m.whole(a), m.whole(b))
		}
		return m.tc.Bool(ftof(a) == ftof(b))
	case reflect.Complex64, reflect.Complex128:
		return m.tc.Bool(a.P == b.P)
	case reflect.Slice:
		return m.tc.Bool(a.P == nil && b.P == nil) // comparison with nil only
	}
	if t.isInt() {
		if a.P == nil && b.P == nil {
			return m.tc.Bool(a.N == b.N)
		}
		return m.tc.Eq(termOf(m, a, t.w), termOf(m, b, t.w))
	}
	return m.tc.Bool(ptrEq(a.P, b.P))
}

func ptrEq(a, b any) bool {
	if x, ok := a.(*Closure); ok {
		if y, ok := b.(*Closure); ok {
			return x == y
		}
	}
	return a == b
}

// hostKey gives a comparable host value identifying a concrete key.
func hostKey(t *RType, v Value) (any, bool) {
	switch t.kind {
	case reflect.String:
		s, ok := hostStr(v)
		return s, ok
	case reflect.Struct:
		a := v.P.(*Agg)
		r := make([]any, len(a.e))
		for i := range a.e {
			k, ok := hostKey(t.fields[i], a.e[i])
			if !ok {
				return nil, false
			}
			r[i] = k
		}
		return arrKey(r), true
	case reflect.Array:
		a := v.P.(*Agg)
		r := make([]any, len(a.e))
		for i := range a.e {
			k, ok := hostKey(t.elem, a.e[i])
			if !ok {
				return nil, false
			}
			r[i] = k
		}
		return arrKey(r), true
	case reflect.Interface:
		if v.P == nil {
			return nil, true
		}
		f := v.P.(*Iface)
		k, ok := hostKey(f.t, f.v)
		return ifaceKey{f.t, k}, ok
	}
	if t.isInt() || t.isFloat() {
		if v.P != nil {
			return nil, false
		}
		return v.N, true
	}
	return v.P, true
}

type ifaceKey struct {
	t *RType
	k any
}
type pairKey struct{ a, b any }

func arrKey(r []any) any {
	var k any
	for _, x := range r {
		k = pairKey{k, x}
	}
	return k
}

func newMap(kt *RType) *Map { return &Map{idx: map[any]int{}, kt: kt} }

// find returns the entry index or -1 (branching on symbolic keys).
func (m *machine) mapFind(mp *Map, k Value) int {
	if mp == nil {
		return -1
	}
	if mp.kt.kind == reflect.Interface {
		if f, ok := k.P.(*Iface); ok && !types.Comparable(f.t.t) {
			m.rtPanic("hash of unhashable type " + typeString(f.t.t))
		}
	}
	hk, conc := hostKey(mp.kt, k)
	if conc {
		if i, ok := mp.idx[hk]; ok {
			return i
		}
		if mp.sym == 0 {
			return -1
		}
	}
	for i := range mp.keys {
		if !mp.live[i] {
			continue
		}
		if conc {
			if _, c := hostKey(mp.kt, mp.keys[i]); c {
				continue
			}
		}
		if m.branch(m.eqVal(mp.kt, k, mp.keys[i])) {
			return i
		}
	}
	return -1
}

func (m *machine) mapSet(mp *Map, k, v Value) {
	i := m.mapFind(mp, k)
	if i >= 0 {
		mp.vals[i] = v
		return
	}
	mp.keys = append(mp.keys, k)
	mp.vals = append(mp.vals, v)
	mp.live = append(mp.live, true)
	mp.n++
	if hk, ok := hostKey(mp.kt, k); ok {
		mp.idx[hk] = len(mp.keys) - 1
	} else {
		mp.sym++
	}
}

func (m *machine) mapDelete(mp *Map, k Value) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	mp.live[i] = false
	mp.n--
	if hk, ok := hostKey(mp.kt, mp.keys[i]); ok {
		delete(mp.idx, hk)
	} else {
		mp.sym--
	}
}

// ---- type strings in reflect's notation

func typeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return reflTypeStr(t, s)
}

func reflTypeStr(t types.Type, s string) string {
	switch u := types.Unalias(t).(type) {
	case *types.Interface:
		if u.NumMethods() == 0 && u.IsMethodSet() {
			return "interface {}"
		}
		var sb []string
		for i := 0; i < u.NumMethods(); i++ {
			sb = append(sb, u.Method(i).Name()+strings.TrimPrefix(typeString(u.Method(i).Type()), "func"))
		}
		return "interface { " + strings.Join(sb, "; ") + " }"
	case *types.Pointer:
		return "*" + typeString(u.Elem())
	case *types.Slice:
		return "[]" + typeString(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeString(u.Elem()))
	case *types.Map:
		return "map[" + typeString(u.Key()) + "]" + typeString(u.Elem())
	case *types.Struct:
		if u.NumFields() == 0 {
			return "struct {}"
		}
		var sb []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			x := typeString(f.Type())
			if !f.Embedded() {
				x = f.Name() + " " + x
			}
			if u.Tag(i) != "" {
				x += fmt.Sprintf(" %q", u.Tag(i))
			}
			sb = append(sb, x)
		}
		return "struct { " + strings.Join(sb, "; ") + " }"
	case *types.Signature:
		var in, out []string
		for i := 0; i < u.Params().Len(); i++ {
			x := typeString(u.Params().At(i).Type())
			if u.Variadic() && i == u.Params().Len()-1 {
				x = "..." + strings.TrimPrefix(x, "[]")
			}
			in = append(in, x)
		}
		for i := 0; i < u.Results().Len(); i++ {
			out = append(out, typeString(u.Results().At(i).Type()))
		}
		r := "func(" + strings.Join(in, ", ") + ")"
		if len(out) == 1 {
			r += " " + out[0]
		} else if len(out) > 1 {
			r += " (" + strings.Join(out, ", ") + ")"
		}
		return r
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
		return u.Name()
	}
	return s
}

// ---- method sets

func (r *RType) methodSet(p *program) map[string]*methodInfo {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.methods != nil {
		return r.methods
	}
	ms := p.prog.MethodSets.MethodSet(r.t)
	res := map[string]*methodInfo{}
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		mi := &methodInfo{name: sel.Obj().Name(), sel: sel}
		res[sel.Obj().Id()] = mi
		if sel.Obj().Exported() {
			r.sorted = append(r.sorted, mi)
		}
	}
	sort.Slice(r.sorted, func(i, j int) bool { return r.sorted[i].name < r.sorted[j].name })
	r.methods = res
	return res
}

func (p *program) methodFunc(r *RType, id string) *Func {
	mi := r.methodSet(p)[id]
	if mi == nil {
		return nil
	}
	r.mu.Lock()
	f := mi.fn
	r.mu.Unlock()
	if f != nil {
		return f
	}
	var sf *ssa.Function
	p.ssaMu.Lock()
	sf = p.prog.MethodValue(mi.sel)
	p.ssaMu.Unlock()
	if sf == nil {
		return nil
	}
	f = p.funcOf(sf)
	r.mu.Lock()
	mi.fn = f
	r.mu.Unlock()
	return f
}

func implements(t *RType, it *types.Interface) bool {
	return types.Implements(t.t, it)
}

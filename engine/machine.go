package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	m         *machine
	th        *thread
	fn        *Func
	regs      []Value
	caller    *frame
	defers    *deferred
	panicking bool
	panicVal  any
	blk, prev int
	phisDone  bool
	result    Value
	depth     int
	pos       token.Pos // of the call in progress
}

type deferred struct {
	fn   *Closure
	args []Value
	next *deferred
}

func (fr *frame) get(o *opnd) Value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	}
	return fr.m.globalAddr(o.i)
}

// host panics used for unwinding
type targetPanic struct {
	v     Value // *Iface
	fatal bool  // not recoverable
}
type pathEnd struct {
	status string
	msg    string
}
type specAbort struct{}
type threadKill struct{}

type machine struct {
	p   *program
	tc  *TermCtx
	sol *Solver
	sl2 *Solver
	ex  *explorer
	wid int

	gl     []*Value
	inited []uint8 // per package: 0 no, 1 initialising, 2 done
	dirty  map[int]bool

	spec int

	// path state
	item    *workItem
	trail   []decision
	pos     int
	pc      []*Term
	known   map[*Term]bool
	dec     map[*Term][]*Term // decimal digits of numbers
	defs    []*digitDef
	cmp     map[*Term]rng // bounds by comparisons on the path
	dom     [][4]uint64
	multi   []bool
	vars    []*Term
	model   []uint64
	draws   []draw
	obs     []obsRec
	covers  map[string]bool
	steps   int64
	inInit  int
	mapPerm bool

	th      *thread
	threads []*thread
	race    *raceState
	sched   *schedState

	implCache map[implKey]bool
	methCache map[methKey]*Func
	env       map[string]Value
	addrs     map[any]uint64
	natural   int
	st        *stats
	hostState map[string]any
	brCount   map[string]int
	qcache    map[string]qres
}

type implKey struct {
	a *RType
	b *RType
}
type methKey struct {
	t  *RType
	id string
}

type draw struct {
	kind  string // byte,bool,int,...,choose
	label string
	w     uint8
	t     *Term // nil for choose
	n     uint64
	val   uint64
}

type obsRec struct {
	label string
	v     Value
	t     *RType
}

type decision struct {
	kind uint8 // 0 branch, 1 concretize-eq, 2 choose
	val  uint64
	sig  uint32
}

// thread of the program under test
type thread struct {
	id    int
	m     *machine
	arena []Value
	sp    int
	depth int
	top   *frame
	// scheduling
	resume  chan bool
	done    bool
	blocked func() bool // nil: runnable; otherwise runnable when it returns true
	why     string
	vc      []int
}

func (th *thread) alloc(n int) []Value {
	if th.sp+n > len(th.arena) {
		if n > 1<<16 {
			return make([]Value, n)
		}
		th.arena = make([]Value, 1<<16)
		th.sp = 0
	}
	r := th.arena[th.sp : th.sp+n : th.sp+n]
	th.sp += n
	return r
}

func (f *Func) frameSize(nargs int) int {
	if f.intr != nil {
		return nargs
	}
	if f.repl != nil {
		return f.p.funcOf(f.repl).frameSize(nargs)
	}
	if !f.ready {
		f.compile()
	}
	if f.nregs < nargs {
		return nargs
	}
	return f.nregs
}

func (m *machine) call(caller *frame, cl *Closure, args []Value) Value {
	if cl == nil {
		m.nilPanic()
	}
	if cl.host != nil {
		return cl.host(m, caller, args)
	}
	th := m.th
	if caller != nil {
		th = caller.th
	}
	regs := th.alloc(cl.fn.frameSize(len(args)))
	copy(regs, args)
	if caller == nil {
		caller = &frame{m: m, th: th}
	}
	return m.invokeRegs(caller, cl.fn, regs, len(args), cl.env)
}

func (m *machine) callFn(caller *frame, f *Func, args ...Value) Value {
	return m.call(caller, f.clo, args)
}

// invokeRegs runs fn with its register window regs (args in front).
func (m *machine) invokeRegs(caller *frame, fn *Func, regs []Value, nargs int, env []Value) Value {
	th := caller.th
	if fn.repl != nil {
		fn = m.p.funcOf(fn.repl)
	}
	if fn.intr != nil {
		a := make([]Value, nargs)
		copy(a, regs)
		th.free(regs)
		return fn.intr(m, caller, a)
	}
	if fn.try != nil {
		a := make([]Value, nargs)
		copy(a, regs)
		if v, ok := fn.try(m, caller, a); ok {
			th.free(regs)
			return v
		}
	}
	if fn.unsupported {
		m.unsupported(fn.name)
	}
	if len(fn.blocks) == 0 {
		if !fn.ready {
			fn.compile()
		}
		if len(fn.blocks) == 0 {
			m.unsupported("no body: " + fn.name)
		}
	}
	if caller.depth > m.ex.maxDepth {
		panic(targetPanic{v: m.mkErr("stack overflow"), fatal: true})
	}
	copy(regs[fn.npar:], env)
	fr := &frame{m: m, th: th, fn: fn, regs: regs, caller: caller, depth: caller.depth + 1, blk: 0, prev: -1}
	th.top = fr
	if fn.isRepo && m.st != nil {
		m.st.funcs[fn] = true
	}
	if fn.hasDefer {
		fr.runProtected()
	} else {
		fr.run()
	}
	th.top = caller
	th.free(regs)
	return fr.result
}

func (th *thread) free(regs []Value) {
	clear(regs)
	n := len(regs)
	if th.sp >= n && n > 0 && &th.arena[th.sp-n] == &regs[0] {
		th.sp -= n
	}
}

func (fr *frame) runProtected() {
	th, sp, arena := fr.th, fr.th.sp, fr.th.arena
	for {
		done := func() (ok bool) {
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, is := r.(targetPanic)
				if !is || tp.fatal {
					panic(r)
				}
				th.top = fr
				if &th.arena[0] == &arena[0] {
					th.sp = sp
				}
				fr.panicking = true
				fr.panicVal = tp
				fr.runDefers() // re-panics unless recovered
				// recovered
				if fr.fn.recoverBlk >= 0 {
					fr.blk = fr.fn.recoverBlk
					fr.prev = -1
					fr.phisDone = false
				} else {
					fr.blk = -1
					fr.zeroResult()
				}
				ok = false
			}()
			if fr.blk >= 0 {
				fr.run()
			}
			return true
		}()
		if done {
			return
		}
	}
}

func (fr *frame) zeroResult() {
	switch fr.fn.nres {
	case 0:
	case 1:
		fr.result = zero(fr.fn.resT[0])
	default:
		vs := make([]Value, fr.fn.nres)
		for i := range vs {
			vs[i] = zero(fr.fn.resT[i])
		}
		fr.result = mkTuple(vs...)
	}
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, is := r.(targetPanic)
		if !is || tp.fatal {
			panic(r)
		}
		fr.th.top = fr
		fr.panicking = true
		fr.panicVal = tp
	}()
	fr.m.call(fr, d.fn, d.args)
	ok = true
}

// doRecover implements the recover builtin called in frame fr.
func (fr *frame) doRecover() Value {
	c := fr.caller
	if c != nil && c.panicking {
		c.panicking = false
		v := c.panicVal.(targetPanic).v
		c.panicVal = nil
		return v
	}
	return Value{}
}

const stepBudgetDefault = 30_000_000

func (fr *frame) run() {
	m := fr.m
	fn := fr.fn
	for {
		b := fn.blocks[fr.blk]
		if !b.hit {
			b.hit = true
		}
		if len(b.phis) > 0 && !fr.phisDone {
			fr.doPhis(b)
		}
		fr.phisDone = false
		m.steps += int64(b.n)
		if m.steps > m.ex.maxSteps {
			m.budget(fr)
		}
		for _, in := range b.ins {
			in(fr)
		}
		switch b.term {
		case tJump:
			fr.prev, fr.blk = fr.blk, b.succ[0]
		case tIf:
			c := fr.get(&b.cond)
			var t bool
			if c.P == nil {
				t = c.N != 0
			} else {
				cond := c.P.(*Term)
				if v, ok := m.implied(cond); ok {
					t = v
				} else if b.region != nil && m.tryMerge(fr, b, cond) {
					if fr.blk == -1 {
						return
					}
					continue
				} else {
					if m.ex.profile {
						m.brCount[fn.name]++
					}
					t = m.branch(cond)
				}
			}
			fr.prev = fr.blk
			if t {
				fr.blk = b.succ[0]
			} else {
				fr.blk = b.succ[1]
			}
		case tReturn:
			switch len(b.res) {
			case 0:
			case 1:
				fr.result = fr.get(&b.res[0])
			default:
				vs := make([]Value, len(b.res))
				for i := range b.res {
					vs[i] = fr.get(&b.res[i])
				}
				fr.result = Value{P: &Agg{vs}}
			}
			return
		case tPanic:
			v := fr.get(&b.cond)
			if v.P == nil {
				v = m.mkErr("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(targetPanic{v: v})
		default:
			panic("block without terminator in " + fn.name)
		}
	}
}

func (fr *frame) doPhis(b *Block) {
	pi := fr.fn.predIndex(b, fr.prev)
	if len(b.phis) == 1 {
		fr.regs[b.phis[0].dst] = fr.get(&b.phis[0].edges[pi])
		return
	}
	tmp := make([]Value, len(b.phis))
	for i := range b.phis {
		tmp[i] = fr.get(&b.phis[i].edges[pi])
	}
	for i := range b.phis {
		fr.regs[b.phis[i].dst] = tmp[i]
	}
}

func (f *Func) predIndex(b *Block, prev int) int {
	for i, p := range b.fnBlk.Preds {
		if p.Index == prev {
			return i
		}
	}
	panic("predIndex")
}

// ---- region merging

type outcome struct {
	g    *Term
	vals []Value
}

func (m *machine) tryMerge(fr *frame, b *Block, cond *Term) (ok bool) {
	if m.ex.noMerge {
		return false
	}
	blk, prev := fr.blk, fr.prev
	th := fr.th
	sp := th.sp
	arena := th.arena
	m.spec++
	defer func() {
		m.spec--
		if !ok {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case specAbort:
				case targetPanic:
					if x.fatal {
						panic(r)
					}
				default:
					panic(r)
				}
			}
			fr.blk, fr.prev = blk, prev
			th.top = fr
			if &th.arena[0] == &arena[0] {
				clear(th.arena[sp:th.sp])
				th.sp = sp
			}
		}
	}()
	var outs []outcome
	fr.enumerate(blk, b.region.join, b, cond, m.tc.T, &outs)
	// merge
	nv := len(outs[0].vals)
	merged := make([]Value, nv)
	var ts []*RType
	if b.region.join >= 0 {
		for _, p := range fr.fn.blocks[b.region.join].phis {
			ts = append(ts, p.t)
		}
	} else {
		ts = fr.fn.resT
	}
	for k := 0; k < nv; k++ {
		v := outs[len(outs)-1].vals[k]
		for i := len(outs) - 2; i >= 0; i-- {
			v = m.iteVal(ts[k], outs[i].g, outs[i].vals[k], v)
		}
		merged[k] = v
	}
	if m.st != nil {
		m.st.merges++
	}
	if b.region.join < 0 {
		switch nv {
		case 0:
		case 1:
			fr.result = merged[0]
		default:
			fr.result = mkTuple(merged...)
		}
		fr.blk = -1
		return true
	}
	j := fr.fn.blocks[b.region.join]
	for i := range j.phis {
		fr.regs[j.phis[i].dst] = merged[i]
	}
	fr.blk = b.region.join
	fr.phisDone = true
	return true
}

func (m *machine) iteVal(t *RType, g *Term, a, b Value) Value {
	if t.isScalar() {
		if a.P == nil && b.P == nil && a.N == b.N {
			return a
		}
		if _, ok := a.P.(*Term); a.P != nil && !ok {
			panic(specAbort{})
		}
		if _, ok := b.P.(*Term); b.P != nil && !ok {
			panic(specAbort{})
		}
		return fromTerm(m.tc.Ite(g, termOf(m, a, t.w), termOf(m, b, t.w)))
	}
	switch t.kind {
	case reflect.Struct, reflect.Array:
		x, y := a.P.(*Agg), b.P.(*Agg)
		if x == y {
			return a
		}
		r := make([]Value, len(x.e))
		for i := range x.e {
			ft := t.elem
			if t.kind == reflect.Struct {
				ft = t.fields[i]
			}
			r[i] = m.iteVal(ft, g, x.e[i], y.e[i])
		}
		return Value{P: &Agg{r}}
	case reflect.Slice:
		if a.P == b.P {
			return a
		}
		panic(specAbort{})
	case reflect.String:
		if a.P == b.P {
			return a
		}
		if m.eqStr(a, b) == m.tc.T {
			return a
		}
		panic(specAbort{})
	case reflect.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == y {
			return a
		}
		if x != nil && y != nil && x.t == y.t && !x.t.isScalar() {
			return Value{P: &Iface{x.t, m.iteVal(x.t, g, x.v, y.v)}}
		}
		panic(specAbort{})
	case reflect.Complex64, reflect.Complex128, reflect.Float32, reflect.Float64:
		if a == b {
			return a
		}
		panic(specAbort{})
	}
	if ptrEq(a.P, b.P) {
		return a
	}
	panic(specAbort{})
}

// enumerate runs all paths of the region from the If of block b.
func (fr *frame) enumerate(bi, join int, b *Block, cond *Term, g *Term, outs *[]outcome) {
	m := fr.m
	for side := 0; side < 2; side++ {
		c := cond
		if side == 1 {
			c = m.tc.Not(cond)
		}
		gg := m.tc.And(g, c)
		if gg == m.tc.F {
			continue
		}
		fr.specFrom(b.succ[side], bi, join, gg, outs)
	}
}

func (fr *frame) specFrom(bi, prev, join int, g *Term, outs *[]outcome) {
	m := fr.m
	fn := fr.fn
	for {
		if bi == join {
			if len(*outs) > 40 {
				panic(specAbort{})
			}
			j := fn.blocks[join]
			vals := make([]Value, len(j.phis))
			if len(j.phis) > 0 {
				pi := fn.predIndex(j, prev)
				for i := range j.phis {
					vals[i] = fr.get(&j.phis[i].edges[pi])
				}
			}
			*outs = append(*outs, outcome{g, vals})
			return
		}
		b := fn.blocks[bi]
		b.hit = true
		fr.blk, fr.prev = bi, prev
		if len(b.phis) > 0 {
			fr.doPhis(b)
		}
		m.steps += int64(b.n)
		for _, in := range b.ins {
			in(fr)
		}
		switch b.term {
		case tJump:
			prev, bi = bi, b.succ[0]
		case tIf:
			c := fr.get(&b.cond)
			if c.P == nil {
				prev = bi
				if c.N != 0 {
					bi = b.succ[0]
				} else {
					bi = b.succ[1]
				}
				continue
			}
			cond := c.P.(*Term)
			if v, ok := m.implied(cond); ok {
				prev = bi
				if v {
					bi = b.succ[0]
				} else {
					bi = b.succ[1]
				}
				continue
			}
			fr.enumerate(bi, join, b, cond, g, outs)
			return
		case tReturn:
			if join != -1 || len(*outs) > 40 {
				panic(specAbort{})
			}
			vals := make([]Value, len(b.res))
			for i := range b.res {
				vals[i] = fr.get(&b.res[i])
			}
			*outs = append(*outs, outcome{g, vals})
			return
		default:
			panic(specAbort{})
		}
	}
}

// ---- globals and lazy package initialisation

func (m *machine) globalAddr(i int) Value {
	s := m.gl[i]
	if s == nil {
		m.initPkg(m.p.gpkg[i])
		s = m.gl[i]
	} else if m.inited[m.p.gpkg[i].idx] == 0 {
		m.initPkg(m.p.gpkg[i])
	}
	return Value{P: s}
}

func (m *machine) initPkg(inf *pkgInfo) {
	if m.inited[inf.idx] != 0 {
		return
	}
	m.inited[inf.idx] = 1
	for _, g := range inf.globals {
		m.gl[g] = zeroSlot(m.p.gtype[g])
	}
	if inf.initFn != nil && inf.initFn.Blocks != nil {
		sp, steps := m.spec, m.steps
		m.spec = 0
		m.inInit++
		if hook := initHooks[inf.pkg.Pkg.Path()]; hook != nil {
			hook(m)
		}
		if !skipInit[inf.pkg.Pkg.Path()] {
			th := m.th
			m.call(&frame{m: m, th: th}, m.p.funcOf(inf.initFn).clo, nil)
		}
		if hook := postInit[inf.pkg.Pkg.Path()]; hook != nil {
			hook(m)
		}
		m.inInit--
		m.spec = sp
		m.steps = steps
	}
	m.inited[inf.idx] = 2
	for _, o := range inf.injectors {
		m.initPkg(o)
	}
}

func (m *machine) globalSlot(pkg, name string) *Value {
	sp := m.p.all[pkg]
	if sp == nil {
		return nil
	}
	g := sp.Var(name)
	if g == nil {
		return nil
	}
	return m.globalAddr(m.p.gidx[g]).P.(*Value)
}

// ---- panics

func (m *machine) mkErr(msg string) Value {
	return Value{P: &Iface{m.p.rtErrStr, Value{P: msg}}}
}

func (m *machine) rtPanic(msg string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(targetPanic{v: m.mkErr(msg)})
}

func (m *machine) plainPanic(msg string) { m.rtPanic(msg) }

func (m *machine) nilPanic() {
	m.rtPanic("invalid memory address or nil pointer dereference")
}

// hostPanic raises a Go panic whose value is a plain string
func (m *machine) strPanic(msg string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(targetPanic{v: Value{P: &Iface{rtypeOf(types.Typ[types.String]), Value{P: msg}}}})
}

func (m *machine) unsupported(what string) {
	if m.spec > 0 {
		panic(specAbort{})
	}
	panic(pathEnd{"unsupported", what + m.where()})
}

func (m *machine) where() string {
	var sb strings.Builder
	n := 0
	for f := m.th.top; f != nil && n < 14; f = f.caller {
		if f.fn != nil {
			sb.WriteString(" < ")
			sb.WriteString(f.fn.name)
			n++
		}
	}
	return sb.String()
}

func (m *machine) budget(fr *frame) {
	if m.inInit > 0 {
		return
	}
	panic(pathEnd{"budget", "step budget exceeded" + m.where()})
}

func (m *machine) typeAssertPanic(f *Iface, at *RType, isIface bool) {
	if f == nil {
		m.rtPanic("interface conversion: interface is nil, not " + typeString(at.t))
	}
	if isIface {
		m.rtPanic("interface conversion: " + typeString(f.t.t) + " is not " + typeString(at.t) + ": missing method")
	}
	m.rtPanic("interface conversion: interface {} is " + typeString(f.t.t) + ", not " + typeString(at.t))
}

// ptrSlot resolves a pointer value to its slot (nil -> panic, symbolic address -> concretised).
func (m *machine) ptrSlot(v Value) *Value {
	switch p := v.P.(type) {
	case *Value:
		return p
	case nil:
		m.nilPanic()
	case *SymAddr:
		return &p.a[m.concretize(p.idx)]
	}
	m.unsupported(fmt.Sprintf("pointer %T", v.P))
	return nil
}

func (m *machine) implements(t, at *RType, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	k := implKey{t, at}
	if r, ok := m.implCache[k]; ok {
		return r
	}
	ms := t.methodSet(m.p)
	r := true
	for i := 0; i < it.NumMethods(); i++ {
		im := it.Method(i)
		mi := ms[im.Id()]
		if mi == nil || !types.Identical(mi.sel.Type(), im.Type()) {
			r = false
			break
		}
	}
	m.implCache[k] = r
	return r
}

func (m *machine) findMethod(t *RType, id string) *Func {
	k := methKey{t, id}
	if f := m.methCache[k]; f != nil {
		return f
	}
	f := m.p.methodFunc(t, id)
	if f == nil {
		m.unsupported("method " + id + " of " + t.t.String())
	}
	m.methCache[k] = f
	return f
}

// ---- indexing

func (m *machine) boundsIdx(iv Value, it *RType, n int) int {
	var k int64
	if it.signed {
		k = sext(iv.N, it.w)
	} else {
		k = int64(iv.N)
	}
	if k < 0 || k >= int64(n) {
		m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
	}
	return int(k)
}

// symIdx checks bounds of a symbolic index.
func (m *machine) symIdx(iv Value, it *RType, n int) *Term {
	t := iv.P.(*Term)
	w := m.tc.Resize(t, 64, it.signed)
	if !m.branch(m.tc.Ult(w, m.tc.Const(64, uint64(n)))) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return w
}

func (m *machine) strIndex(v, iv Value, it *RType) Value {
	n := strLen(v)
	if iv.P == nil {
		return strAt(v, m.boundsIdx(iv, it, n))
	}
	t := m.symIdx(iv, it, n)
	if s, ok := hostStr(v); ok {
		return m.symLoad(strBytes(Value{P: s}), t, rtUint8)
	}
	return m.symLoad(strBytes(v), t, rtUint8)
}

// symLoad reads a[idx] for an in-bounds symbolic index; et is the element type.
func (m *machine) symLoad(a []Value, idx *Term, et *RType) Value {
	if !et.isScalar() || len(a) > 4096 {
		return copyOut(a[m.concretize(idx)])
	}
	for i := range a {
		if _, ok := a[i].P.(*Term); !ok && a[i].P != nil {
			return copyOut(a[m.concretize(idx)])
		}
	}
	w := et.w
	lo, hi := idx.lo, idx.hi
	if hi >= uint64(len(a)) {
		hi = uint64(len(a)) - 1
	}
	type seg struct {
		lo, hi uint64
		v      Value
	}
	// a table that mostly maps an index to itself plus a constant (letter
	// case, replacers) is read as that sum
	if hi-lo > 16 && w > 0 {
		runs, sums := 0, 0
		mask := ^uint64(0) >> (64 - uint(w))
		delta := make([]Value, len(a))
		conc := true
		for i := lo; i <= hi && conc; i++ {
			if a[i].P != nil {
				conc = false
				break
			}
			delta[i] = Value{N: (a[i].N - i) & mask}
			if i == lo || a[i] != a[i-1] {
				runs++
			}
			if i == lo || delta[i] != delta[i-1] {
				sums++
			}
		}
		if conc && sums*2 < runs {
			d := m.symLoad(delta, idx, et)
			return fromTerm(m.tc.Bin(OAdd, m.tc.Resize(idx, w, false), termOf(m, d, w)))
		}
	}
	var segs []seg
	for i := lo; i <= hi; i++ {
		v := a[i]
		if n := len(segs); n > 0 && segs[n-1].v == v {
			segs[n-1].hi = i
			continue
		}
		segs = append(segs, seg{i, i, v})
	}
	if len(segs) == 1 {
		return segs[0].v
	}
	count := map[Value]int{}
	for _, s := range segs {
		count[s.v]++
	}
	best := segs[0].v
	for _, s := range segs {
		if count[s.v] > count[best] {
			best = s.v
		}
	}
	conds := map[Value]*Term{}
	var order []Value
	tc := m.tc
	for _, s := range segs {
		if s.v == best {
			continue
		}
		var c *Term
		if s.lo == s.hi {
			c = tc.Eq(idx, tc.Const(64, s.lo))
		} else {
			c = tc.And(tc.Ule(tc.Const(64, s.lo), idx), tc.Ule(idx, tc.Const(64, s.hi)))
		}
		if o := conds[s.v]; o != nil {
			conds[s.v] = tc.Or(o, c)
		} else {
			conds[s.v] = c
			order = append(order, s.v)
		}
	}
	r := termOf(m, best, w)
	for _, v := range order {
		r = tc.Ite(conds[v], termOf(m, v, w), r)
	}
	return fromTerm(r)
}

var rtUint8 = rtypeOf(types.Typ[types.Uint8])

// concInt concretises a possibly symbolic integer.
func (m *machine) concInt(v Value, w uint8) uint64 {
	if v.P == nil {
		return v.N
	}
	if t, ok := v.P.(*Term); ok {
		return m.concretize(t)
	}
	m.unsupported("concInt of pointer")
	return 0
}

func (m *machine) concStr(v Value) string {
	if s, ok := hostStr(v); ok {
		return s
	}
	b := strBytes(v)
	r := make([]byte, len(b))
	for i := range b {
		r[i] = byte(m.concInt(b[i], 8))
	}
	return string(r)
}

func (m *machine) sizeArg(v Value, t *RType, msg string) int {
	n := m.concInt(v, t.w)
	var k int64
	if t.signed {
		k = sext(n, t.w)
	} else {
		k = int64(n)
	}
	if k < 0 || k > 1<<40 {
		m.rtPanic(msg)
	}
	if k > 1<<22 {
		// allocation far beyond anything a bounded input should cause
		panic(pathEnd{"hugealloc", fmt.Sprintf("allocation of %d elements%s", k, m.where())})
	}
	return int(k)
}

func makeElems(et *RType, n, k int) []Value {
	a := make([]Value, n, k)
	switch et.kind {
	case reflect.Struct, reflect.Array, reflect.String:
		full := a[:k]
		for i := range full {
			full[i] = zero(et)
		}
	}
	return a
}

// ---- rune decoding

func (m *machine) decodeRune(s Value, i int) (Value, int) {
	b := strAt(s, i)
	if b.P == nil && b.N < 0x80 {
		return Value{N: b.N}, 1
	}
	if t, ok := b.P.(*Term); ok {
		if m.branch(m.tc.Ult(t, m.tc.Const(8, 0x80))) {
			return fromTerm(m.tc.Resize(t, 32, false)), 1
		}
	}
	hi := i + 4
	if n := strLen(s); hi > n {
		hi = n
	}
	sub := strSlice(s, i, hi)
	fn := m.p.funcOf(m.p.lookupFunc("unicode/utf8", "DecodeRuneInString"))
	r := m.call(nil, fn.clo, []Value{sub}).P.(*Agg)
	n := int(m.concInt(r.e[1], 64))
	return r.e[0], n
}

func (m *machine) encodeRune(r Value) []Value {
	tc := m.tc
	if r.P == nil {
		s := string(rune(int32(r.N)))
		return strBytes(Value{P: s})
	}
	t := r.P.(*Term)
	if m.branch(tc.Ult(t, tc.Const(32, 0x80))) {
		return []Value{fromTerm(tc.Resize(t, 8, false))}
	}
	fn := m.p.funcOf(m.p.lookupFunc("unicode/utf8", "AppendRune"))
	v := m.call(nil, fn.clo, []Value{{}, r})
	return sliceOf(v)
}

type strIter struct {
	s Value
	i int
}

func (it *strIter) next(fr *frame) Value {
	if it.i >= strLen(it.s) {
		return mkTuple(mkBool(false), Value{}, Value{})
	}
	i := it.i
	r, n := fr.m.decodeRune(it.s, i)
	it.i += n
	return mkTuple(mkBool(true), mkInt(i), r)
}

type mapIter struct {
	mp    *Map
	i     int
	order []int
}

func (m *machine) newMapIter(mp *Map, repo bool) *mapIter {
	it := &mapIter{mp: mp}
	if mp != nil && repo && m.mapPerm && mp.n > 1 && mp.n <= 4 {
		var live []int
		for i := range mp.keys {
			if mp.live[i] {
				live = append(live, i)
			}
		}
		for len(live) > 1 {
			k := m.choose(uint64(len(live)))
			it.order = append(it.order, live[k])
			live = append(live[:k:k], live[k+1:]...)
		}
		it.order = append(it.order, live...)
	}
	return it
}

func (it *mapIter) next(m *machine, kt, vt *RType) Value {
	if it.mp != nil {
		for {
			var k int
			if it.order != nil && it.i < len(it.order) {
				k = it.order[it.i]
			} else if it.i < len(it.mp.keys) {
				k = it.i
			} else {
				break
			}
			it.i++
			if it.mp.live[k] {
				return mkTuple(mkBool(true), it.mp.keys[k], it.mp.vals[k])
			}
		}
	}
	var a, b Value
	if kt != nil {
		a = zero(kt)
	}
	if vt != nil {
		b = zero(vt)
	}
	return mkTuple(mkBool(false), a, b)
}

// ---- builtins

func (c *compiler) builtin(bi *ssa.Builtin, cc *ssa.CallCommon) func(fr *frame, a []Value) Value {
	var at []*RType
	for _, x := range cc.Args {
		at = append(at, rtypeOf(x.Type()))
	}
	var rt *RType
	if sig, ok := bi.Type().(*types.Signature); ok && sig.Results().Len() == 1 {
		rt = rtypeOf(sig.Results().At(0).Type())
	}
	switch bi.Name() {
	case "append":
		et := at[0].elem
		esz := et.sizeof()
		return func(fr *frame, a []Value) Value {
			var add []Value
			if s, ok := a[1].P.(*Slice); ok {
				add = s.a
			} else if a[1].P != nil {
				add = strBytes(a[1])
			}
			if r := fr.m.race; r != nil {
				s := sliceOf(a[0])
				if _, ok := a[1].P.(*Slice); ok {
					r.all(fr, add, false)
				}
				if n := len(s) + len(add); n <= cap(s) {
					r.all(fr, s[:n][len(s):], true)
				} else {
					r.all(fr, s, false)
				}
			}
			return appendVals(et, esz, a[0], add)
		}
	case "copy":
		return func(fr *frame, a []Value) Value {
			dst := sliceOf(a[0])
			var src []Value
			if s, ok := a[1].P.(*Slice); ok {
				src = s.a
			} else if a[1].P != nil {
				src = strBytes(a[1])
			}
			n := len(dst)
			if len(src) < n {
				n = len(src)
			}
			if r := fr.m.race; r != nil {
				r.all(fr, dst[:n], true)
				if _, ok := a[1].P.(*Slice); ok {
					r.all(fr, src[:n], false)
				}
			}
			copyVals(dst[:n], src[:n])
			return mkInt(n)
		}
	case "len":
		switch at[0].kind {
		case reflect.String:
			return func(fr *frame, a []Value) Value { return mkInt(strLen(a[0])) }
		case reflect.Slice:
			return func(fr *frame, a []Value) Value { return mkInt(len(sliceOf(a[0]))) }
		case reflect.Map:
			return func(fr *frame, a []Value) Value {
				if mp, ok := a[0].P.(*Map); ok {
					return mkInt(mp.n)
				}
				return Value{}
			}
		case reflect.Chan:
			return func(fr *frame, a []Value) Value {
				if ch, ok := a[0].P.(*Chan); ok {
					return mkInt(len(ch.buf))
				}
				return Value{}
			}
		case reflect.Array:
			n := at[0].length
			return func(fr *frame, a []Value) Value { return mkInt(n) }
		case reflect.Pointer:
			n := at[0].elem.length
			return func(fr *frame, a []Value) Value { return mkInt(n) }
		}
	case "cap":
		switch at[0].kind {
		case reflect.Slice:
			return func(fr *frame, a []Value) Value { return mkInt(cap(sliceOf(a[0]))) }
		case reflect.Chan:
			return func(fr *frame, a []Value) Value {
				if ch, ok := a[0].P.(*Chan); ok {
					return mkInt(ch.cap)
				}
				return Value{}
			}
		case reflect.Array:
			n := at[0].length
			return func(fr *frame, a []Value) Value { return mkInt(n) }
		case reflect.Pointer:
			n := at[0].elem.length
			return func(fr *frame, a []Value) Value { return mkInt(n) }
		}
	case "delete":
		return func(fr *frame, a []Value) Value {
			if mp, ok := a[0].P.(*Map); ok {
				fr.m.raceMap(mp, true)
				fr.m.mapDelete(mp, a[1])
			}
			return Value{}
		}
	case "clear":
		return func(fr *frame, a []Value) Value {
			switch x := a[0].P.(type) {
			case *Map:
				*x = *newMap(x.kt)
			case *Slice:
				for i := range x.a {
					store(&x.a[i], zero(at[0].elem))
				}
			}
			return Value{}
		}
	case "close":
		return func(fr *frame, a []Value) Value {
			h, _ := a[0].P.(*Chan)
			fr.m.chanClose(fr, h)
			return Value{}
		}
	case "panic":
		return func(fr *frame, a []Value) Value { panic(targetPanic{v: a[0]}) }
	case "print", "println":
		return func(fr *frame, a []Value) Value { return Value{} }
	case "recover":
		return func(fr *frame, a []Value) Value { return fr.doRecover() }
	case "min", "max":
		isMin := bi.Name() == "min"
		t := at[0]
		return func(fr *frame, a []Value) Value {
			r := a[0]
			for _, v := range a[1:] {
				r = fr.m.minmax(t, isMin, r, v)
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *frame, a []Value) Value {
			if a[0].P == nil {
				fr.m.nilPanic()
			}
			return a[0]
		}
	case "String":
		return func(fr *frame, a []Value) Value {
			n := int(fr.m.concInt(a[1], 64))
			if n == 0 {
				return emptyStr
			}
			b := make([]Value, n)
			copy(b, unsafeElems(fr.m, a[0], n))
			return mkStr(b)
		}
	case "StringData":
		return func(fr *frame, a []Value) Value {
			b := strBytes(a[0])
			if len(b) == 0 {
				return Value{}
			}
			return Value{P: &b[0]}
		}
	case "Slice":
		return func(fr *frame, a []Value) Value {
			n := int(fr.m.concInt(a[1], 64))
			if a[0].P == nil && n == 0 {
				return Value{}
			}
			if n == 0 {
				return Value{P: &Slice{[]Value{}}}
			}
			return Value{P: &Slice{unsafeElems(fr.m, a[0], n)}}
		}
	case "SliceData":
		return func(fr *frame, a []Value) Value {
			s := sliceOf(a[0])
			if cap(s) == 0 {
				if a[0].P == nil {
					return Value{}
				}
				return Value{P: new(Value)}
			}
			return Value{P: &s[:1][0]}
		}
	case "Add":
		return func(fr *frame, a []Value) Value {
			if a[1].P == nil && a[1].N == 0 {
				return a[0]
			}
			fr.m.unsupported("unsafe.Add")
			return Value{}
		}
	case "real", "imag", "complex":
		nm := bi.Name()
		return func(fr *frame, a []Value) Value {
			if nm == "complex" {
				return Value{P: complex(ftof(a[0]), ftof(a[1]))}
			}
			cx, _ := a[0].P.(complex128)
			if nm == "real" {
				return mkFloat(real(cx), rt)
			}
			return mkFloat(imag(cx), rt)
		}
	}
	nm := bi.Name()
	return func(fr *frame, a []Value) Value { fr.m.unsupported("builtin " + nm); return Value{} }
}

func (m *machine) minmax(t *RType, isMin bool, a, b Value) Value {
	if t.isInt() {
		op := token.LSS
		c := m.symOrConc(op, a, b, t)
		if c.P == nil {
			if (c.N == 1) == isMin {
				return a
			}
			return b
		}
		g := c.P.(*Term)
		if !isMin {
			g = m.tc.Not(g)
		}
		return fromTerm(m.tc.Ite(g, termOf(m, a, t.w), termOf(m, b, t.w)))
	}
	if t.isFloat() {
		x, y := ftof(a), ftof(b)
		if (x < y) == isMin {
			return a
		}
		return b
	}
	lt := m.branch(m.strLess(a, b))
	if lt == isMin {
		return a
	}
	return b
}

func (m *machine) symOrConc(op token.Token, a, b Value, t *RType) Value {
	if a.P == nil && b.P == nil {
		return concBin(m, op, a.N, b.N, t.w, t.signed, t)
	}
	return m.symBin(op, a, b, t.w, t.signed, t)
}

// copyVals copies with overlap handling; aggregates are copied in place.
func copyVals(dst, src []Value) {
	if len(dst) == 0 {
		return
	}
	agg := false
	for i := range src {
		if _, ok := src[i].P.(*Agg); ok {
			agg = true
			break
		}
	}
	if !agg {
		copy(dst, src)
		return
	}
	tmp := make([]Value, len(src))
	for i := range src {
		tmp[i] = copyOut(src[i])
	}
	for i := range tmp {
		store(&dst[i], tmp[i])
	}
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int64) int64 {
	if n <= 32768 {
		i := sort.Search(len(sizeClasses), func(i int) bool { return sizeClasses[i] >= n })
		return sizeClasses[i]
	}
	return (n + 8191) &^ 8191
}

func growCap(old, need int, esz int64) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz <= 0 {
		return nc
	}
	return int(roundup(int64(nc)*esz) / esz)
}

func appendVals(et *RType, esz int64, s Value, add []Value) Value {
	old, _ := s.P.(*Slice)
	if len(add) == 0 {
		return s
	}
	var a []Value
	if old != nil {
		a = old.a
	}
	n := len(a) + len(add)
	if n <= cap(a) {
		r := a[:n]
		copyVals(r[len(a):], add)
		return Value{P: &Slice{r}}
	}
	nc := growCap(cap(a), n, esz)
	r := makeElems(et, n, nc)
	switch et.kind {
	case reflect.Struct, reflect.Array:
		for i := range a {
			r[i] = copyOut(a[i])
		}
		for i := range add {
			r[len(a)+i] = copyOut(add[i])
		}
	default:
		copy(r, a)
		copy(r[len(a):], add)
	}
	return Value{P: &Slice{r}}
}

func unsafeElems(m *machine, p Value, n int) []Value {
	s := m.ptrSlot(p)
	return unsafe.Slice(s, n)
}

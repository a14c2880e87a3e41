package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type instr func(fr *frame)

const (
	tJump = iota
	tIf
	tReturn
	tPanic
	tNone
)

type Block struct {
	ins    []instr
	n      int
	phis   []phi
	term   int
	cond   opnd
	succ   [2]int
	res    []opnd
	hit    bool
	region *region // for tIf: mergeable region, nil if none
	fnBlk  *ssa.BasicBlock
	pure   bool // all instructions allowed in speculative execution
}

type phi struct {
	dst   int
	edges []opnd
	t     *RType
}

type region struct {
	join int // block index, or -1 for function exit
}

type opnd struct {
	k uint8 // 0 reg, 1 const, 2 global
	i int
	v Value
}

type Func struct {
	fn          *ssa.Function
	p           *program
	name, key   string
	intr        func(m *machine, fr *frame, args []Value) Value
	repl        *ssa.Function
	try         func(m *machine, fr *frame, a []Value) (Value, bool)
	unsupported bool
	clo         *Closure
	isRepo      bool
	hasDefer    bool
	recoverBlk  int

	once   sync.Once
	ready  bool
	blocks []*Block
	nregs  int
	npar   int
	nres   int
	regOf  map[ssa.Value]int
	resT   []*RType
	pureFn int // 0 unknown, 1 pure, 2 not
}

type compiler struct {
	f   *Func
	p   *program
	cur *Block
}

func (f *Func) compile() {
	f.once.Do(func() {
		if len(f.fn.Blocks) == 0 {
			f.ready = true
			return
		}
		c := &compiler{f: f, p: f.p}
		c.run()
		f.ready = true
	})
}

func (c *compiler) run() {
	f := c.f
	fn := f.fn
	f.regOf = map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		f.regOf[p] = n
		n++
	}
	f.npar = n
	for _, p := range fn.FreeVars {
		f.regOf[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				f.regOf[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				f.hasDefer = true
			}
		}
	}
	f.nregs = n
	f.nres = fn.Signature.Results().Len()
	for i := 0; i < f.nres; i++ {
		f.resT = append(f.resT, rtypeOf(fn.Signature.Results().At(i).Type()))
	}
	f.recoverBlk = -1
	if fn.Recover != nil {
		f.recoverBlk = fn.Recover.Index
	}
	for _, b := range fn.Blocks {
		blk := &Block{fnBlk: b, term: tNone, pure: true}
		c.cur = blk
		f.blocks = append(f.blocks, blk)
		for _, in := range b.Instrs {
			c.instr(blk, in)
		}
		blk.n = len(b.Instrs)
	}
	for i, b := range f.blocks {
		if b.term == tIf {
			b.region = c.findRegion(i)
		}
	}
}

// findRegion: nearest join of an acyclic, pure region below block i.
func (c *compiler) findRegion(i int) *region {
	f := c.f
	// reach sets through pure acyclic blocks
	type st struct{ seen map[int]bool }
	const limit = 24
	// candidate joins: blocks reachable from both successors; choose the first such that every path from i reaches it.
	var try func(join int) bool
	try = func(join int) bool {
		seen := map[int]int{} // 1 on stack, 2 done
		count := 0
		var visit func(b int) bool
		visit = func(b int) bool {
			if b == join {
				return true
			}
			if b == i || seen[b] == 1 {
				return false
			}
			if seen[b] == 2 {
				return true
			}
			seen[b] = 1
			count++
			if count > limit {
				return false
			}
			blk := f.blocks[b]
			if !blk.pure {
				return false
			}
			switch blk.term {
			case tJump:
				if !visit(blk.succ[0]) {
					return false
				}
			case tIf:
				if !visit(blk.succ[0]) || !visit(blk.succ[1]) {
					return false
				}
			case tReturn:
				if join != -1 {
					return false
				}
			default:
				return false
			}
			seen[b] = 2
			return true
		}
		return visit(f.blocks[i].succ[0]) && visit(f.blocks[i].succ[1])
	}
	// breadth first over candidates
	var order []int
	seen := map[int]bool{}
	q := []int{f.blocks[i].succ[0], f.blocks[i].succ[1]}
	for len(q) > 0 && len(order) < 2*limit {
		b := q[0]
		q = q[1:]
		if seen[b] {
			continue
		}
		seen[b] = true
		order = append(order, b)
		blk := f.blocks[b]
		if blk.term == tJump {
			q = append(q, blk.succ[0])
		} else if blk.term == tIf {
			q = append(q, blk.succ[0], blk.succ[1])
		}
	}
	for _, j := range order {
		if j != i && try(j) {
			// values crossing the join must be mergeable scalars; checked dynamically
			return &region{join: j}
		}
	}
	if !f.hasDefer && f.recoverBlk < 0 && try(-1) {
		return &region{join: -1}
	}
	return nil
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{k: 1, v: constVal(v)}
	case *ssa.Global:
		return opnd{k: 2, i: c.p.gidx[v]}
	case *ssa.Function:
		return opnd{k: 1, v: Value{P: c.p.funcOf(v).clo}}
	case *ssa.Builtin:
		return opnd{k: 1}
	}
	r, ok := c.f.regOf[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v, c.f.name))
	}
	return opnd{k: 0, i: r}
}

func constVal(c *ssa.Const) Value {
	rt := rtypeOf(c.Type())
	if c.Value == nil {
		return zero(rt)
	}
	if _, ok := c.Type().Underlying().(*types.Interface); ok {
		panic("interface constant")
	}
	switch rt.kind {
	case reflect.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case reflect.String:
		if c.Value.Kind() == constant.String {
			return Value{P: constant.StringVal(c.Value)}
		}
		panic("string const")
	case reflect.Float32, reflect.Float64:
		x, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if rt.kind == reflect.Float32 {
			x = float64(float32(x))
		}
		return Value{N: math.Float64bits(x)}
	case reflect.Complex64, reflect.Complex128:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Value{P: complex(re, im)}
	case reflect.UnsafePointer:
		return Value{}
	}
	if rt.w != 0 {
		v := constant.ToInt(c.Value)
		if x, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(x) & mask(rt.w)}
		}
		x, _ := constant.Uint64Val(v)
		return Value{N: x & mask(rt.w)}
	}
	panic("constVal " + c.String())
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (c *compiler) emit(b *Block, pure bool, in instr) {
	if !pure {
		b.pure = false
	}
	b.ins = append(b.ins, in)
}

func (c *compiler) instr(b *Block, in ssa.Instruction) {
	f := c.f
	d := -1
	if v, ok := in.(ssa.Value); ok {
		d = f.regOf[v]
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		ph := phi{dst: d, t: rtypeOf(in.Type())}
		for _, e := range in.Edges {
			ph.edges = append(ph.edges, c.op(e))
		}
		b.phis = append(b.phis, ph)
	case *ssa.Alloc:
		rt := rtypeOf(deref(in.Type()))
		c.emit(b, false, func(fr *frame) { fr.regs[d] = Value{P: zeroSlot(rt)} })
	case *ssa.BinOp:
		c.binop(b, in, d)
	case *ssa.UnOp:
		c.unop(b, in, d)
	case *ssa.ChangeType:
		x := c.op(in.X)
		c.emit(b, true, func(fr *frame) { fr.regs[d] = fr.get(&x) })
	case *ssa.ChangeInterface:
		x := c.op(in.X)
		c.emit(b, true, func(fr *frame) { fr.regs[d] = fr.get(&x) })
	case *ssa.Convert:
		c.convert(b, in, d)
	case *ssa.MakeInterface:
		x := c.op(in.X)
		rt := rtypeOf(in.X.Type())
		c.emit(b, true, func(fr *frame) { fr.regs[d] = Value{P: &Iface{rt, fr.get(&x)}} })
	case *ssa.MakeClosure:
		fn := c.p.funcOf(in.Fn.(*ssa.Function))
		var bs []opnd
		for _, x := range in.Bindings {
			bs = append(bs, c.op(x))
		}
		c.emit(b, false, func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = fr.get(&bs[i])
			}
			fr.regs[d] = Value{P: &Closure{fn: fn, env: env}}
		})
	case *ssa.MakeMap:
		rt := rtypeOf(in.Type())
		c.emit(b, false, func(fr *frame) { fr.regs[d] = Value{P: newMap(rt.key)} })
	case *ssa.MakeChan:
		x := c.op(in.Size)
		rt := rtypeOf(in.Type())
		c.emit(b, false, func(fr *frame) {
			n := fr.m.concInt(fr.get(&x), 64)
			fr.regs[d] = Value{P: &Chan{cap: int(n), et: rt.elem}}
		})
	case *ssa.MakeSlice:
		l, cp := c.op(in.Len), c.op(in.Cap)
		rt := rtypeOf(in.Type())
		lw := rtypeOf(in.Len.Type())
		cw := rtypeOf(in.Cap.Type())
		c.emit(b, false, func(fr *frame) {
			m := fr.m
			lv, cv := fr.get(&l), fr.get(&cp)
			n := m.sizeArg(lv, lw, "makeslice: len out of range")
			k := m.sizeArg(cv, cw, "makeslice: cap out of range")
			if k < n {
				m.rtPanic("makeslice: cap out of range")
			}
			fr.regs[d] = Value{P: &Slice{makeElems(rt.elem, n, k)}}
		})
	case *ssa.Slice:
		c.slice(b, in, d)
	case *ssa.Field:
		x := c.op(in.X)
		i := in.Field
		c.emit(b, true, func(fr *frame) { fr.regs[d] = fr.get(&x).P.(*Agg).e[i] })
	case *ssa.FieldAddr:
		x := c.op(in.X)
		i := in.Field
		c.emit(b, true, func(fr *frame) {
			v := fr.get(&x)
			p, ok := v.P.(*Value)
			if !ok {
				p = fr.m.ptrSlot(v)
			}
			fr.regs[d] = Value{P: &p.P.(*Agg).e[i]}
		})
	case *ssa.Index:
		x, ix := c.op(in.X), c.op(in.Index)
		it := rtypeOf(in.Index.Type())
		xt := rtypeOf(in.X.Type())
		c.emit(b, true, func(fr *frame) {
			m := fr.m
			v := fr.get(&x)
			iv := fr.get(&ix)
			if xt.kind == reflect.String {
				fr.regs[d] = m.strIndex(v, iv, it)
				return
			}
			e := v.P.(*Agg).e
			if iv.P == nil {
				k := m.boundsIdx(iv, it, len(e))
				fr.regs[d] = e[k]
				return
			}
			fr.regs[d] = m.symLoad(e, m.symIdx(iv, it, len(e)), xt.elem)
		})
	case *ssa.IndexAddr:
		x, ix := c.op(in.X), c.op(in.Index)
		it := rtypeOf(in.Index.Type())
		ptrArr := false
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			ptrArr = true
		}
		onlyLoads := true
		for _, r := range *in.Referrers() {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				continue
			}
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			onlyLoads = false
		}
		et := rtypeOf(deref(in.Type()))
		symOK := onlyLoads && et.isScalar()
		c.emit(b, true, func(fr *frame) {
			m := fr.m
			v := fr.get(&x)
			var e []Value
			if ptrArr {
				p, ok := v.P.(*Value)
				if !ok {
					p = m.ptrSlot(v)
				}
				e = p.P.(*Agg).e
			} else if s, ok := v.P.(*Slice); ok {
				e = s.a
			}
			iv := fr.get(&ix)
			if iv.P == nil {
				k := m.boundsIdx(iv, it, len(e))
				fr.regs[d] = Value{P: &e[k]}
				return
			}
			t := m.symIdx(iv, it, len(e))
			if symOK {
				fr.regs[d] = Value{P: &SymAddr{e, t, et}}
				return
			}
			fr.regs[d] = Value{P: &e[m.concretize(t)]}
		})
	case *ssa.Lookup:
		x, k := c.op(in.X), c.op(in.Index)
		if xt := rtypeOf(in.X.Type()); xt.kind == reflect.String {
			it := rtypeOf(in.Index.Type())
			c.emit(b, true, func(fr *frame) { fr.regs[d] = fr.m.strIndex(fr.get(&x), fr.get(&k), it) })
			return
		}
		vt := rtypeOf(in.X.Type().Underlying().(*types.Map).Elem())
		commaOk := in.CommaOk
		c.emit(b, false, func(fr *frame) {
			mp, _ := fr.get(&x).P.(*Map)
			fr.m.raceMap(mp, false)
			i := fr.m.mapFind(mp, fr.get(&k))
			var v Value
			if i >= 0 {
				v = mp.vals[i]
			} else {
				v = zero(vt)
			}
			if commaOk {
				v = mkTuple(v, mkBool(i >= 0))
			}
			fr.regs[d] = v
		})
	case *ssa.MapUpdate:
		x, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		c.emit(b, false, func(fr *frame) {
			mp, _ := fr.get(&x).P.(*Map)
			if mp == nil {
				fr.m.plainPanic("assignment to entry in nil map")
			}
			fr.m.raceMap(mp, true)
			fr.m.mapSet(mp, copyOut(fr.get(&k)), copyOut(fr.get(&v)))
		})
	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		c.emit(b, true, func(fr *frame) { fr.regs[d] = fr.get(&x).P.(*Agg).e[i] })
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		c.emit(b, false, func(fr *frame) {
			p := fr.get(&a)
			s, ok := p.P.(*Value)
			if !ok {
				s = fr.m.ptrSlot(p)
			}
			if fr.m.race != nil {
				fr.m.race.access(fr, s, true)
			}
			store(s, fr.get(&v))
		})
	case *ssa.TypeAssert:
		x := c.op(in.X)
		at := rtypeOf(in.AssertedType)
		it, isIface := in.AssertedType.Underlying().(*types.Interface)
		commaOk := in.CommaOk
		c.emit(b, commaOk, func(fr *frame) {
			v := fr.get(&x)
			f, _ := v.P.(*Iface)
			ok := false
			var res Value
			if f != nil {
				if isIface {
					ok = fr.m.implements(f.t, at, it)
					res = v
				} else {
					ok = f.t == at
					res = f.v
				}
			}
			if !ok {
				if !commaOk {
					fr.m.typeAssertPanic(f, at, isIface)
				}
				res = zero(at)
			}
			if commaOk {
				res = mkTuple(res, mkBool(ok))
			}
			fr.regs[d] = res
		})
	case *ssa.Range:
		x := c.op(in.X)
		xt := rtypeOf(in.X.Type())
		isRepo := f.isRepo
		c.emit(b, false, func(fr *frame) {
			v := fr.get(&x)
			if xt.kind == reflect.String {
				fr.regs[d] = Value{P: &strIter{s: v}}
				return
			}
			mp, _ := v.P.(*Map)
			fr.m.raceMap(mp, false)
			fr.regs[d] = Value{P: fr.m.newMapIter(mp, isRepo)}
		})
	case *ssa.Next:
		x := c.op(in.Iter)
		isStr := in.IsString
		tt := in.Type().(*types.Tuple)
		var kt, vt *RType
		if !isStr {
			if !isInvalid(tt.At(1).Type()) {
				kt = rtypeOf(tt.At(1).Type())
			}
			if !isInvalid(tt.At(2).Type()) {
				vt = rtypeOf(tt.At(2).Type())
			}
		}
		c.emit(b, false, func(fr *frame) {
			it := fr.get(&x)
			if isStr {
				fr.regs[d] = it.P.(*strIter).next(fr)
				return
			}
			fr.regs[d] = it.P.(*mapIter).next(fr.m, kt, vt)
		})
	case *ssa.Call:
		c.call(b, in, &in.Call, d)
	case *ssa.Defer:
		get := c.callee(&in.Call)
		c.emit(b, false, func(fr *frame) {
			fn, args := get(fr)
			fr.defers = &deferred{fn: fn, args: args, next: fr.defers}
		})
	case *ssa.Go:
		get := c.callee(&in.Call)
		c.emit(b, false, func(fr *frame) {
			fn, args := get(fr)
			fr.m.spawn(fr, fn, args)
		})
	case *ssa.RunDefers:
		c.emit(b, false, func(fr *frame) { fr.runDefers() })
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		c.emit(b, false, func(fr *frame) {
			h, _ := fr.get(&ch).P.(*Chan)
			fr.m.chanSend(fr, h, copyOut(fr.get(&x)))
		})
	case *ssa.Select:
		c.selectStmt(b, in, d)
	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		rt := rtypeOf(deref(in.Type()))
		c.emit(b, false, func(fr *frame) {
			s := sliceOf(fr.get(&x))
			if len(s) < rt.length {
				fr.m.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), rt.length))
			}
			fr.regs[d] = Value{P: newSlot(Value{P: &Agg{s[:rt.length:rt.length]}})}
		})
	case *ssa.MultiConvert:
		c.emit(b, false, func(fr *frame) { fr.m.unsupported("MultiConvert") })
	case *ssa.Jump:
		b.term = tJump
		b.succ[0] = in.Block().Succs[0].Index
	case *ssa.If:
		b.term = tIf
		b.cond = c.op(in.Cond)
		b.succ[0] = in.Block().Succs[0].Index
		b.succ[1] = in.Block().Succs[1].Index
	case *ssa.Return:
		b.term = tReturn
		for _, r := range in.Results {
			b.res = append(b.res, c.op(r))
		}
	case *ssa.Panic:
		b.term = tPanic
		x := c.op(in.X)
		b.cond = x
		b.pure = false
	default:
		panic(fmt.Sprintf("instr %T", in))
	}
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func ftof(v Value) float64 {
	if v.P != nil {
		panic(pathEnd{"unsupported", "symbolic float"})
	}
	return math.Float64frombits(v.N)
}

// FInt is a symbolic float64 that holds exactly the whole number t (64 bits, signed, at most 2^53 in
// size): what a whole number of seconds becomes in time.Duration.Seconds, for instance.
type FInt struct{ t *Term }

const fmax = 1 << 53

// fint turns a symbolic number into a float, if every value of it on this path fits.
func (m *machine) fint(t *Term) Value {
	if t.op == OConst {
		return Value{N: math.Float64bits(float64(int64(t.val)))}
	}
	neg := m.tc.Const(64, ^uint64(fmax)+1)
	if !m.branch(m.tc.And(m.tc.Sle(neg, t), m.tc.Sle(t, m.tc.Const(64, fmax)))) {
		m.unsupported("symbolic float beyond 2^53")
	}
	return Value{P: &FInt{t}}
}

// whole returns the whole number a float holds.
func (m *machine) whole(v Value) *Term {
	if f, ok := v.P.(*FInt); ok {
		return f.t
	}
	x := ftof(v)
	if x != math.Trunc(x) || math.Abs(x) > fmax {
		m.unsupported("symbolic float")
	}
	return m.tc.Const(64, uint64(int64(x)))
}

// floatToInt converts as this machine does, out of range too.
func floatToInt(f float64, dt *RType) Value {
	switch {
	case dt.w == 64 && dt.signed:
		return Value{N: uint64(int64(f))}
	case dt.w == 64:
		return Value{N: uint64(f)}
	case dt.w == 32 && dt.signed:
		return Value{N: uint64(uint32(int32(f)))}
	case dt.w == 32:
		return Value{N: uint64(uint32(f))}
	case dt.w == 16 && dt.signed:
		return Value{N: uint64(uint16(int16(f)))}
	case dt.w == 16:
		return Value{N: uint64(uint16(f))}
	case dt.signed:
		return Value{N: uint64(uint8(int8(f)))}
	}
	return Value{N: uint64(uint8(f))}
}

func mkFloat(x float64, rt *RType) Value {
	if rt.kind == reflect.Float32 {
		x = float64(float32(x))
	}
	return Value{N: math.Float64bits(x)}
}

func (c *compiler) binop(b *Block, in *ssa.BinOp, d int) {
	x, y := c.op(in.X), c.op(in.Y)
	rt := rtypeOf(in.X.Type())
	yt := rtypeOf(in.Y.Type())
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if rt.isInt() {
			w := rt.w
			c.emit(b, true, func(fr *frame) {
				p, q := fr.get(&x), fr.get(&y)
				if p.P == nil && q.P == nil {
					fr.regs[d] = mkBool((p.N == q.N) != neg)
					return
				}
				t := fr.m.tc.Eq(termOf(fr.m, p, w), termOf(fr.m, q, w))
				if neg {
					t = fr.m.tc.Not(t)
				}
				fr.regs[d] = fromTerm(t)
			})
			return
		}
		xi, yi := rt.kind == reflect.Interface, yt.kind == reflect.Interface
		c.emit(b, true, func(fr *frame) {
			p, q := fr.get(&x), fr.get(&y)
			var t *Term
			if xi && !yi {
				q = Value{P: &Iface{yt, q}}
				t = fr.m.eqVal(rt, p, q)
			} else if yi && !xi {
				p = Value{P: &Iface{rt, p}}
				t = fr.m.eqVal(yt, p, q)
			} else {
				t = fr.m.eqVal(rt, p, q)
			}
			if neg {
				t = fr.m.tc.Not(t)
			}
			fr.regs[d] = fromTerm(t)
		})
		return
	}
	if rt.kind == reflect.String {
		if op == token.ADD {
			c.emit(b, true, func(fr *frame) { fr.regs[d] = strConcat(fr.get(&x), fr.get(&y)) })
			return
		}
		c.emit(b, true, func(fr *frame) {
			m := fr.m
			p, q := fr.get(&x), fr.get(&y)
			var t *Term
			switch op {
			case token.LSS:
				t = m.strLess(p, q)
			case token.GTR:
				t = m.strLess(q, p)
			case token.LEQ:
				t = m.tc.Not(m.strLess(q, p))
			case token.GEQ:
				t = m.tc.Not(m.strLess(p, q))
			}
			fr.regs[d] = fromTerm(t)
		})
		return
	}
	if rt.isFloat() {
		c.emit(b, true, func(fr *frame) {
			xv, yv := fr.get(&x), fr.get(&y)
			var r Value
			if xv.P != nil || yv.P != nil {
				m := fr.m
				p, q := m.whole(xv), m.whole(yv)
				switch op {
				case token.ADD:
					r = m.fint(m.tc.Bin(OAdd, p, q))
				case token.SUB:
					r = m.fint(m.tc.Bin(OSub, p, q))
				case token.LSS:
					r = fromTerm(m.tc.Slt(p, q))
				case token.LEQ:
					r = fromTerm(m.tc.Sle(p, q))
				case token.GTR:
					r = fromTerm(m.tc.Slt(q, p))
				case token.GEQ:
					r = fromTerm(m.tc.Sle(q, p))
				default:
					m.unsupported("symbolic float")
				}
				fr.regs[d] = r
				return
			}
			p, q := ftof(xv), ftof(yv)
			switch op {
			case token.ADD:
				r = mkFloat(p+q, rt)
			case token.SUB:
				r = mkFloat(p-q, rt)
			case token.MUL:
				r = mkFloat(p*q, rt)
			case token.QUO:
				r = mkFloat(p/q, rt)
			case token.LSS:
				r = mkBool(p < q)
			case token.LEQ:
				r = mkBool(p <= q)
			case token.GTR:
				r = mkBool(p > q)
			case token.GEQ:
				r = mkBool(p >= q)
			}
			fr.regs[d] = r
		})
		return
	}
	if !rt.isInt() {
		c.emit(b, false, func(fr *frame) { fr.m.unsupported("binop on " + rt.t.String()) })
		return
	}
	w, sg := rt.w, rt.signed
	mk := mask(w)
	switch op {
	case token.ADD:
		c.emit(b, true, func(fr *frame) {
			p, q := fr.get(&x), fr.get(&y)
			if p.P == nil && q.P == nil {
				fr.regs[d] = Value{N: (p.N + q.N) & mk}
				return
			}
			fr.regs[d] = fr.m.symBin(op, p, q, w, sg, yt)
		})
	case token.SUB:
		c.emit(b, true, func(fr *frame) {
			p, q := fr.get(&x), fr.get(&y)
			if p.P == nil && q.P == nil {
				fr.regs[d] = Value{N: (p.N - q.N) & mk}
				return
			}
			fr.regs[d] = fr.m.symBin(op, p, q, w, sg, yt)
		})
	case token.LSS:
		c.emit(b, true, func(fr *frame) {
			p, q := fr.get(&x), fr.get(&y)
			if p.P == nil && q.P == nil {
				if sg {
					fr.regs[d] = mkBool(sext(p.N, w) < sext(q.N, w))
				} else {
					fr.regs[d] = mkBool(p.N < q.N)
				}
				return
			}
			fr.regs[d] = fr.m.symBin(op, p, q, w, sg, yt)
		})
	default:
		c.emit(b, true, func(fr *frame) {
			p, q := fr.get(&x), fr.get(&y)
			if p.P == nil && q.P == nil {
				fr.regs[d] = concBin(fr.m, op, p.N, q.N, w, sg, yt)
				return
			}
			fr.regs[d] = fr.m.symBin(op, p, q, w, sg, yt)
		})
	}
}

func concBin(m *machine, op token.Token, p, q uint64, w uint8, sg bool, yt *RType) Value {
	mk := mask(w)
	switch op {
	case token.MUL:
		return Value{N: (p * q) & mk}
	case token.QUO, token.REM:
		if q == 0 {
			m.rtPanic("integer divide by zero")
		}
		var o Op
		if sg {
			o = OSDiv
			if op == token.REM {
				o = OSRem
			}
		} else {
			o = OUDiv
			if op == token.REM {
				o = OURem
			}
		}
		return Value{N: evalOp(o, w, p, q, w)}
	case token.AND:
		return Value{N: p & q}
	case token.OR:
		return Value{N: p | q}
	case token.XOR:
		return Value{N: p ^ q}
	case token.AND_NOT:
		return Value{N: p &^ q}
	case token.SHL, token.SHR:
		if yt.signed && sext(q, yt.w) < 0 {
			m.rtPanic("negative shift amount")
		}
		if op == token.SHL {
			if q >= uint64(w) {
				return Value{}
			}
			return Value{N: (p << q) & mk}
		}
		if sg {
			return Value{N: evalOp(OAshr, w, p, q, w)}
		}
		return Value{N: evalOp(OLshr, w, p, q, w)}
	case token.GTR:
		if sg {
			return mkBool(sext(p, w) > sext(q, w))
		}
		return mkBool(p > q)
	case token.LEQ:
		if sg {
			return mkBool(sext(p, w) <= sext(q, w))
		}
		return mkBool(p <= q)
	case token.GEQ:
		if sg {
			return mkBool(sext(p, w) >= sext(q, w))
		}
		return mkBool(p >= q)
	case token.LSS:
		if sg {
			return mkBool(sext(p, w) < sext(q, w))
		}
		return mkBool(p < q)
	}
	panic("concBin " + op.String())
}

func (m *machine) symBin(op token.Token, p, q Value, w uint8, sg bool, yt *RType) Value {
	tc := m.tc
	if op == token.SHL || op == token.SHR {
		a := termOf(m, p, w)
		b := termOf(m, q, yt.w)
		if yt.signed {
			if m.branch(tc.Slt(b, tc.Const(yt.w, 0))) {
				m.rtPanic("negative shift amount")
			}
		}
		if b.w > w {
			b = tc.Ite(tc.Ult(b, tc.Const(b.w, uint64(w))), tc.Resize(b, w, false), tc.Const(w, uint64(w)&mask(w)))
		} else {
			b = tc.Resize(b, w, false)
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if sg {
				o = OAshr
			}
		}
		return fromTerm(tc.Bin(o, a, b))
	}
	if w == 0 { // bool and/or are control flow in Go; only &,| via == handled elsewhere
		m.unsupported("bool binop " + op.String())
	}
	a, b := termOf(m, p, w), termOf(m, q, w)
	switch op {
	case token.ADD:
		return fromTerm(tc.Bin(OAdd, a, b))
	case token.SUB:
		return fromTerm(tc.Bin(OSub, a, b))
	case token.MUL:
		return fromTerm(tc.Bin(OMul, a, b))
	case token.QUO, token.REM:
		if m.branch(tc.Eq(b, tc.Const(w, 0))) {
			m.rtPanic("integer divide by zero")
		}
		var o Op
		if sg {
			o = OSDiv
			if op == token.REM {
				o = OSRem
			}
		} else {
			o = OUDiv
			if op == token.REM {
				o = OURem
			}
		}
		return fromTerm(m.divided(o, a, b, map[*Term]rng{}))
	case token.AND:
		return fromTerm(tc.Bin(OBand, a, b))
	case token.OR:
		return fromTerm(tc.Bin(OBor, a, b))
	case token.XOR:
		return fromTerm(tc.Bin(OBxor, a, b))
	case token.AND_NOT:
		return fromTerm(tc.Bin(OBand, a, tc.Bnot(b)))
	case token.LSS:
		if sg {
			return fromTerm(tc.Slt(a, b))
		}
		return fromTerm(tc.Ult(a, b))
	case token.GTR:
		if sg {
			return fromTerm(tc.Slt(b, a))
		}
		return fromTerm(tc.Ult(b, a))
	case token.LEQ:
		if sg {
			return fromTerm(tc.Sle(a, b))
		}
		return fromTerm(tc.Ule(a, b))
	case token.GEQ:
		if sg {
			return fromTerm(tc.Sle(b, a))
		}
		return fromTerm(tc.Ule(b, a))
	}
	panic("symBin " + op.String())
}

func (m *machine) strLess(a, b Value) *Term {
	x, ok1 := hostStr(a)
	y, ok2 := hostStr(b)
	if ok1 && ok2 {
		return m.tc.Bool(x < y)
	}
	tc := m.tc
	n := strLen(a)
	if k := strLen(b); k < n {
		n = k
	}
	r := tc.Bool(strLen(a) < strLen(b))
	for i := n - 1; i >= 0; i-- {
		p, q := termOf(m, strAt(a, i), 8), termOf(m, strAt(b, i), 8)
		r = tc.Or(tc.Ult(p, q), tc.And(tc.Eq(p, q), r))
	}
	return r
}

func (c *compiler) unop(b *Block, in *ssa.UnOp, d int) {
	x := c.op(in.X)
	switch in.Op {
	case token.MUL:
		isRace := true
		_ = isRace
		c.emit(b, true, func(fr *frame) {
			v := fr.get(&x)
			if s, ok := v.P.(*Value); ok {
				if fr.m.race != nil {
					fr.m.race.access(fr, s, false)
				}
				if a, ok := s.P.(*Agg); ok {
					fr.regs[d] = copyOut(Value{P: a})
				} else {
					fr.regs[d] = *s
				}
				return
			}
			if sa, ok := v.P.(*SymAddr); ok {
				fr.regs[d] = fr.m.symLoad(sa.a, sa.idx, sa.et)
				return
			}
			fr.regs[d] = copyOut(*fr.m.ptrSlot(v))
		})
	case token.NOT:
		c.emit(b, true, func(fr *frame) {
			v := fr.get(&x)
			if v.P == nil {
				fr.regs[d] = Value{N: 1 - v.N}
				return
			}
			fr.regs[d] = fromTerm(fr.m.tc.Not(v.P.(*Term)))
		})
	case token.SUB:
		rt := rtypeOf(in.X.Type())
		c.emit(b, true, func(fr *frame) {
			v := fr.get(&x)
			if rt.isFloat() {
				fr.regs[d] = mkFloat(-ftof(v), rt)
				return
			}
			if v.P == nil {
				fr.regs[d] = Value{N: -v.N & mask(rt.w)}
				return
			}
			fr.regs[d] = fromTerm(fr.m.tc.Neg(v.P.(*Term)))
		})
	case token.XOR:
		rt := rtypeOf(in.X.Type())
		c.emit(b, true, func(fr *frame) {
			v := fr.get(&x)
			if v.P == nil {
				fr.regs[d] = Value{N: ^v.N & mask(rt.w)}
				return
			}
			fr.regs[d] = fromTerm(fr.m.tc.Bnot(v.P.(*Term)))
		})
	case token.ARROW:
		commaOk := in.CommaOk
		c.emit(b, false, func(fr *frame) {
			h, _ := fr.get(&x).P.(*Chan)
			v, ok := fr.m.chanRecv(fr, h)
			if commaOk {
				v = mkTuple(v, mkBool(ok))
			}
			fr.regs[d] = v
		})
	default:
		panic("unop " + in.Op.String())
	}
}

func (c *compiler) convert(b *Block, in *ssa.Convert, d int) {
	x := c.op(in.X)
	st, dt := rtypeOf(in.X.Type()), rtypeOf(in.Type())
	pure := st.isScalar() && dt.isScalar()
	if pure {
		sw, dw, sg := st.w, dt.w, st.signed
		c.emit(b, true, func(fr *frame) {
			v := fr.get(&x)
			if v.P == nil {
				if sg {
					fr.regs[d] = Value{N: uint64(sext(v.N, sw)) & mask(dw)}
				} else {
					fr.regs[d] = Value{N: v.N & mask(dw)}
				}
				return
			}
			if t, ok := v.P.(*Term); ok {
				fr.regs[d] = fromTerm(fr.m.tc.Resize(t, dw, sg))
				return
			}
			fr.regs[d] = v // pointer travelling as uintptr
		})
		return
	}
	if st.kind == reflect.String && dt.kind == reflect.Slice || st.kind == reflect.Slice && dt.kind == reflect.String {
		c.emit(b, false, func(fr *frame) { fr.regs[d] = fr.m.conv(st, dt, fr.get(&x)) })
		return
	}
	c.emit(b, true, func(fr *frame) { fr.regs[d] = fr.m.conv(st, dt, fr.get(&x)) })
}

// conv implements every conversion between values of different representation.
func (m *machine) conv(st, dt *RType, v Value) Value {
	switch {
	case st.isScalar() && dt.isScalar():
		if st.w == 0 || dt.w == 0 {
			return v
		}
		if v.P == nil {
			if st.signed {
				return Value{N: uint64(sext(v.N, st.w)) & mask(dt.w)}
			}
			return Value{N: v.N & mask(dt.w)}
		}
		if t, ok := v.P.(*Term); ok {
			if st.w == 0 || dt.w == 0 {
				return v
			}
			return fromTerm(m.tc.Resize(t, dt.w, st.signed))
		}
		return v
	case st.isScalar() && dt.isFloat():
		if t, ok := v.P.(*Term); ok && dt.kind == reflect.Float64 && st.isInt() {
			if st.w < 64 {
				t = m.tc.Resize(t, 64, st.signed)
			} else if !st.signed && !m.branch(m.tc.Sle(m.tc.Const(64, 0), t)) {
				m.unsupported("symbolic float beyond 2^53")
			}
			return m.fint(t)
		}
		n := m.concInt(v, st.w)
		if st.signed {
			return mkFloat(float64(sext(n, st.w)), dt)
		}
		return mkFloat(float64(n), dt)
	case st.isFloat() && dt.isScalar():
		if x, ok := v.P.(*FInt); ok {
			if dt.w < 64 { // out of range: whatever the machine does, on the value at hand
				lo, hi := int64(0), int64(mask(dt.w))
				if dt.signed {
					lo, hi = -1<<(dt.w-1), 1<<(dt.w-1)-1
				}
				if !m.branch(m.tc.And(m.tc.Sle(m.tc.Const(64, uint64(lo)), x.t), m.tc.Sle(x.t, m.tc.Const(64, uint64(hi))))) {
					return floatToInt(float64(int64(m.concInt(fromTerm(x.t), 64))), dt)
				}
			}
			return fromTerm(m.tc.Resize(x.t, dt.w, true))
		}
		return floatToInt(ftof(v), dt)
	case st.isFloat() && dt.isFloat():
		if v.P != nil && dt.kind == reflect.Float64 {
			return v
		}
		return mkFloat(ftof(v), dt)
	case st.isScalar() && dt.kind == reflect.String:
		if v.P == nil {
			r := rune(sext(v.N, st.w))
			if st.w > 32 && int64(sext(v.N, st.w)) != int64(r) {
				r = 0xFFFD
			}
			return Value{P: string(r)}
		}
		t := m.tc.Resize(v.P.(*Term), 32, st.signed)
		return mkStr(m.encodeRune(fromTerm(t)))
	case st.kind == reflect.String && dt.kind == reflect.Slice:
		if dt.elem.kind == reflect.Uint8 {
			if s, ok := hostStr(v); ok {
				return mkBytes(s)
			}
			b := strBytes(v)
			r := make([]Value, len(b))
			copy(r, b)
			return Value{P: &Slice{r}}
		}
		var r []Value
		for i := 0; i < strLen(v); {
			ru, n := m.decodeRune(v, i)
			r = append(r, ru)
			i += n
		}
		if r == nil {
			r = []Value{}
		}
		return Value{P: &Slice{r}}
	case st.kind == reflect.Slice && dt.kind == reflect.String:
		s := sliceOf(v)
		if st.elem.kind == reflect.Uint8 {
			b := make([]Value, len(s))
			copy(b, s)
			return mkStr(b)
		}
		var r []Value
		for _, x := range s {
			r = append(r, m.encodeRune(x)...)
		}
		return mkStr(r)
	case dt.kind == reflect.UnsafePointer || st.kind == reflect.UnsafePointer:
		if dt.kind == reflect.Uintptr || st.kind == reflect.Uintptr {
			if st.kind == reflect.UnsafePointer {
				return Value{P: v.P}
			}
		}
		return v
	case st.kind == reflect.Slice && dt.kind == reflect.Array:
		s := sliceOf(v)
		if len(s) < dt.length {
			m.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), dt.length))
		}
		return copyOut(Value{P: &Agg{s[:dt.length]}})
	}
	if types.Identical(st.u, dt.u) || st.kind == dt.kind {
		return v
	}
	m.unsupported(fmt.Sprintf("convert %s -> %s", st.t, dt.t))
	return v
}

func (c *compiler) slice(b *Block, in *ssa.Slice, d int) {
	x := c.op(in.X)
	xt := rtypeOf(in.X.Type())
	var lo, hi, mx opnd
	var lt, ht, mt *RType
	if in.Low != nil {
		lo = c.op(in.Low)
		lt = rtypeOf(in.Low.Type())
	}
	if in.High != nil {
		hi = c.op(in.High)
		ht = rtypeOf(in.High.Type())
	}
	if in.Max != nil {
		mx = c.op(in.Max)
		mt = rtypeOf(in.Max.Type())
	}
	idx := func(fr *frame, o *opnd, t *RType) int64 {
		v := fr.get(o)
		var n uint64
		if v.P != nil {
			n = fr.m.concretize(v.P.(*Term))
		} else {
			n = v.N
		}
		if t.signed {
			return sext(n, t.w)
		}
		if n > math.MaxInt64 {
			return -1
		}
		return int64(n)
	}
	c.emit(b, false, func(fr *frame) {
		m := fr.m
		v := fr.get(&x)
		var l, h, k int64
		if lt != nil {
			l = idx(fr, &lo, lt)
		}
		if xt.kind == reflect.String {
			n := int64(strLen(v))
			h = n
			if ht != nil {
				h = idx(fr, &hi, ht)
			}
			if h < 0 || h > n {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			fr.regs[d] = strSlice(v, int(l), int(h))
			return
		}
		var arr []Value
		isNil := false
		if xt.kind == reflect.Pointer {
			p, ok := v.P.(*Value)
			if !ok {
				p = m.ptrSlot(v)
			}
			arr = p.P.(*Agg).e
			arr = arr[:len(arr):len(arr)]
		} else if s, ok := v.P.(*Slice); ok {
			arr = s.a
		} else {
			isNil = true
		}
		h = int64(len(arr))
		k = int64(cap(arr))
		if ht != nil {
			h = idx(fr, &hi, ht)
		}
		if mt != nil {
			k = idx(fr, &mx, mt)
			if k < 0 || k > int64(cap(arr)) {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", k, cap(arr)))
			}
		}
		if h < 0 || h > k {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, k))
		}
		if l < 0 || l > h {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if isNil {
			fr.regs[d] = Value{}
			return
		}
		fr.regs[d] = Value{P: &Slice{arr[l:h:k]}}
	})
}

// callee evaluates function value and arguments (for go/defer).
func (c *compiler) callee(cc *ssa.CallCommon) func(fr *frame) (*Closure, []Value) {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	ev := func(fr *frame) []Value {
		r := make([]Value, len(args), len(args)+1)
		for i := range args {
			r[i] = fr.get(&args[i])
		}
		return r
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		id := cc.Method.Id()
		return func(fr *frame) (*Closure, []Value) {
			f, _ := fr.get(&x).P.(*Iface)
			if f == nil {
				fr.m.nilPanic()
			}
			fn := fr.m.findMethod(f.t, id)
			return fn.clo, append([]Value{f.v}, ev(fr)...)
		}
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		h := c.builtin(bi, cc)
		return func(fr *frame) (*Closure, []Value) {
			return &Closure{host: func(m *machine, cfr *frame, a []Value) Value { return h(cfr, a) }, name: bi.Name()}, ev(fr)
		}
	}
	x := c.op(cc.Value)
	return func(fr *frame) (*Closure, []Value) {
		cl, _ := fr.get(&x).P.(*Closure)
		return cl, ev(fr)
	}
}

func (c *compiler) call(b *Block, in *ssa.Call, cc *ssa.CallCommon, d int) {
	pos := cc.Pos() // where runtime.Caller says the call is
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		id := cc.Method.Id()
		c.emit(b, false, func(fr *frame) {
			f, _ := fr.get(&x).P.(*Iface)
			if f == nil {
				fr.m.nilPanic()
			}
			fr.pos = pos
			fn := fr.m.findMethod(f.t, id)
			regs := fr.th.alloc(fn.frameSize(len(args) + 1))
			regs[0] = f.v
			for i := range args {
				regs[i+1] = fr.get(&args[i])
			}
			fr.regs[d] = fr.m.invokeRegs(fr, fn, regs, len(args)+1, nil)
		})
		return
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		h := c.builtin(bi, cc)
		pure := false
		switch bi.Name() {
		case "len", "cap", "min", "max":
			pure = true
		}
		switch len(args) {
		case 1:
			a0 := args[0]
			c.emit(b, pure, func(fr *frame) {
				a := [1]Value{fr.get(&a0)}
				fr.regs[d] = h(fr, a[:])
			})
		default:
			c.emit(b, pure, func(fr *frame) {
				a := make([]Value, len(args))
				for i := range args {
					a[i] = fr.get(&args[i])
				}
				fr.regs[d] = h(fr, a)
			})
		}
		return
	}
	if sf, ok := cc.Value.(*ssa.Function); ok {
		if sf.Name() == "init" && sf.Pkg != nil && sf.Pkg.Func("init") == sf && c.f.fn.Pkg != nil && c.f.fn.Name() == "init" && sf.Pkg != c.f.fn.Pkg {
			c.emit(b, false, func(fr *frame) {}) // package initialisation is lazy
			return
		}
		fn := c.p.funcOf(sf)
		pure := c.pureCallee(fn, 0)
		na := len(args)
		c.emit(b, pure, func(fr *frame) {
			fr.pos = pos
			regs := fr.th.alloc(fn.frameSize(na))
			for i := range args {
				regs[i] = fr.get(&args[i])
			}
			fr.regs[d] = fr.m.invokeRegs(fr, fn, regs, na, nil)
		})
		return
	}
	x := c.op(cc.Value)
	na := len(args)
	c.emit(b, false, func(fr *frame) {
		cl, _ := fr.get(&x).P.(*Closure)
		if cl == nil {
			fr.m.nilPanic()
		}
		fr.pos = pos
		if cl.host != nil {
			a := make([]Value, na)
			for i := range args {
				a[i] = fr.get(&args[i])
			}
			fr.regs[d] = cl.host(fr.m, fr, a)
			return
		}
		regs := fr.th.alloc(cl.fn.frameSize(na))
		for i := range args {
			regs[i] = fr.get(&args[i])
		}
		fr.regs[d] = fr.m.invokeRegs(fr, cl.fn, regs, na, cl.env)
	})
}

var pureIntrinsics = map[string]bool{
	"unicode/utf8.RuneLen": true,
}

// pureCallee: small acyclic functions without stores may be executed speculatively.
func (c *compiler) pureCallee(fn *Func, depth int) bool {
	if fn.intr != nil {
		return pureIntrinsics[fn.key]
	}
	if fn.unsupported || fn.repl != nil || len(fn.fn.Blocks) == 0 || len(fn.fn.Blocks) > 40 || depth > 3 {
		return false
	}
	state := map[*ssa.BasicBlock]int{}
	var acyc func(b *ssa.BasicBlock) bool
	acyc = func(b *ssa.BasicBlock) bool {
		if state[b] == 1 {
			return false
		}
		if state[b] == 2 {
			return true
		}
		state[b] = 1
		for _, s := range b.Succs {
			if !acyc(s) {
				return false
			}
		}
		state[b] = 2
		return true
	}
	if !acyc(fn.fn.Blocks[0]) {
		return false
	}
	for _, b := range fn.fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr, *ssa.Phi, *ssa.Extract,
				*ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.ChangeInterface, *ssa.MakeInterface:
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			case *ssa.Convert:
				if !rtypeOf(in.X.Type()).isScalar() || !rtypeOf(in.Type()).isScalar() {
					return false
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "len" || bi.Name() == "cap" {
						continue
					}
					return false
				}
				sf, ok := in.Call.Value.(*ssa.Function)
				if !ok || in.Call.IsInvoke() {
					return false
				}
				if !c.pureCallee(c.p.funcOf(sf), depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func (c *compiler) selectStmt(b *Block, in *ssa.Select, d int) {
	type cs struct {
		send bool
		ch   opnd
		v    opnd
		et   *RType
	}
	var cases []cs
	for _, s := range in.States {
		x := cs{send: s.Dir == types.SendOnly, ch: c.op(s.Chan), et: rtypeOf(s.Chan.Type().Underlying().(*types.Chan).Elem())}
		if x.send {
			x.v = c.op(s.Send)
		}
		cases = append(cases, x)
	}
	blocking := in.Blocking
	c.emit(b, false, func(fr *frame) {
		sc := make([]selCase, len(cases))
		for i := range cases {
			sc[i].send = cases[i].send
			sc[i].et = cases[i].et
			sc[i].ch, _ = fr.get(&cases[i].ch).P.(*Chan)
			if sc[i].send {
				sc[i].v = fr.get(&cases[i].v)
			}
		}
		k, v, ok := fr.m.doSelect(fr, sc, blocking)
		res := []Value{{N: uint64(int64(k))}, mkBool(ok)}
		for i := range cases {
			if !cases[i].send {
				if i == k {
					res = append(res, v)
				} else {
					res = append(res, zero(cases[i].et))
				}
			}
		}
		fr.regs[d] = mkTuple(res...)
	})
}

package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms: hash-consed DAG of booleans (w==0) and bit-vectors (1..64 bits).

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OExtract
	OZext
	OSext
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}

type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64 // const value; var draw index; extract low bit
	lo, hi  uint64
	sup     int32 // 0: none, k+1: only draw k, -1: several
	id      uint32
	gen     uint32
	ev      uint64
	tt      *[4]uint64
	vs      []uint64 // set of draws it mentions (lazily)
	emitted [2]uint32
	ite     bool // has a conditional term inside
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	val     uint64
}

type TermCtx struct {
	tab   map[termKey]*Term
	next  uint32
	gen   uint32
	T, F  *Term
	alias map[*Term]*Term // sums known to equal a term (per path)
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: make(map[termKey]*Term), next: 1}
	c.T = c.Const(0, 1)
	c.F = c.Const(0, 0)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *TermCtx) mk(op Op, w uint8, a, b, d *Term, val uint64) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(d), val}
	if t := c.tab[k]; t != nil {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: d, val: val, id: c.next}
	c.next++
	for _, x := range [3]*Term{a, b, d} {
		if x == nil || x.sup == 0 {
			continue
		}
		t.ite = t.ite || x.ite
		if t.sup == 0 {
			t.sup = x.sup
		} else if t.sup != x.sup {
			t.sup = -1
		}
	}
	t.ite = t.ite || op == OIte
	if op == OVar {
		t.sup = int32(val) + 1
	}
	t.lo, t.hi = c.interval(t)
	c.tab[k] = t
	return t
}

func (t *Term) hasIte() bool { return t.ite }

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		v &= 1
	} else {
		v &= mask(w)
	}
	return c.mk(OConst, w, nil, nil, nil, v)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *TermCtx) Var(w uint8, k int) *Term { return c.mk(OVar, w, nil, nil, nil, uint64(k)) }

func (c *TermCtx) interval(t *Term) (uint64, uint64) {
	var r [3]rng
	for i, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			r[i] = rng{x.lo, x.hi}
		}
	}
	return rangeOf(t, r[0], r[1], r[2])
}

type rng struct{ lo, hi uint64 }

// rangeOf bounds a term, given bounds of what it is made of.
func rangeOf(t *Term, a, b, d rng) (uint64, uint64) {
	m := mask(t.w)
	if t.w == 0 {
		if t.op == OConst {
			return t.val, t.val
		}
		return 0, 1
	}
	switch t.op {
	case OConst:
		return t.val, t.val
	case OAdd:
		if s, cy := bits.Add64(a.hi, b.hi, 0); cy == 0 && s <= m {
			return a.lo + b.lo, s
		}
		if s, cy := bits.Add64(a.lo, b.lo, 0); cy == 0 && s > m && a.hi-a.lo+b.hi-b.lo <= m-(s-m-1) && t.w < 64 {
			return s - m - 1, s - m - 1 + (a.hi - a.lo) + (b.hi - b.lo) // always wraps
		} else if t.w == 64 && cy == 1 {
			if h, cy := bits.Add64(a.hi, b.hi, 0); cy == 1 {
				return s, h
			}
		}
	case OSub:
		if a.lo >= b.hi {
			return a.lo - b.hi, a.hi - b.lo
		}
	case OMul:
		if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l <= m {
			return a.lo * b.lo, l
		}
	case OUDiv:
		if b.lo > 0 {
			return a.lo / b.hi, a.hi / b.lo
		}
	case OURem:
		if b.lo > 0 {
			h := b.hi - 1
			if a.hi < h {
				h = a.hi
			}
			if a.hi < b.lo {
				return a.lo, a.hi
			}
			return 0, h
		}
	case OBand:
		h := a.hi
		if b.hi < h {
			h = b.hi
		}
		return 0, h
	case OBor, OBxor:
		h := a.hi | b.hi
		n := bits.Len64(h)
		h = mask(uint8(n))
		if n == 0 {
			h = 0
		}
		if t.op == OBor {
			l := a.lo
			if b.lo > l {
				l = b.lo
			}
			return l, h
		}
		return 0, h
	case OShl:
		if t.b.op == OConst && b.lo < 64 {
			if a.hi <= m>>b.lo {
				return a.lo << b.lo, a.hi << b.lo
			}
		}
	case OLshr:
		if t.b.op == OConst {
			if b.lo >= 64 {
				return 0, 0
			}
			return a.lo >> b.lo, a.hi >> b.lo
		}
		return 0, a.hi
	case OExtract:
		if t.val == 0 && a.hi <= m {
			return a.lo, a.hi
		}
		if t.val > 0 && a.hi>>t.val <= m {
			return a.lo >> t.val, a.hi >> t.val
		}
	case OZext:
		return a.lo, a.hi
	case OSext:
		if a.hi < uint64(1)<<(t.a.w-1) {
			return a.lo, a.hi
		}
	case OIte:
		l, h := b.lo, b.hi
		if d.lo < l {
			l = d.lo
		}
		if d.hi > h {
			h = d.hi
		}
		return l, h
	}
	return 0, m
}

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.val == 0)
	case ONot:
		return a.a
	}
	return c.mk(ONot, 0, a, nil, nil, 0)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, a, b, nil, 0)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 1 {
			return b
		}
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, a, b, nil, 0)
}

func (c *TermCtx) Ite(g, a, b *Term) *Term {
	if g.op == OConst {
		if g.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.val == 1 {
				return c.Or(g, b)
			}
			return c.And(c.Not(g), b)
		}
		if b.op == OConst {
			if b.val == 1 {
				return c.Or(c.Not(g), a)
			}
			return c.And(g, a)
		}
	}
	if g.op == ONot {
		return c.mk(OIte, a.w, g.a, b, a, 0)
	}
	return c.mk(OIte, a.w, g, a, b, 0)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
	} else {
		if a.lo > b.hi || b.lo > a.hi {
			return c.F
		}
		if b.op == OConst {
			switch a.op {
			case OZext:
				return c.Eq(a.a, c.Const(a.a.w, b.val))
			case OSext:
				tr := b.val & mask(a.a.w)
				if uint64(sext(tr, a.a.w))&mask(a.w) != b.val {
					return c.F
				}
				return c.Eq(a.a, c.Const(a.a.w, tr))
			case OAdd:
				if a.b.op == OConst {
					return c.Eq(a.a, c.Const(a.w, b.val-a.b.val))
				}
			case OSub:
				if a.b.op == OConst {
					return c.Eq(a.a, c.Const(a.w, b.val+a.b.val))
				}
			case OIte:
				if a.b.op == OConst && a.c.op == OConst {
					if a.b.val == b.val {
						return a.a // a.c.val differs (a!=b terms are hash consed)
					}
					if a.c.val == b.val {
						return c.Not(a.a)
					}
					return c.F
				}
				if a.b.op == OConst {
					r := c.Eq(a.c, b)
					if a.b.val == b.val {
						return c.Or(a.a, r)
					}
					return c.And(c.Not(a.a), r)
				}
				if a.c.op == OConst {
					r := c.Eq(a.b, b)
					if a.c.val == b.val {
						return c.Or(c.Not(a.a), r)
					}
					return c.And(a.a, r)
				}
			}
		} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, a, b, nil, 0)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.hi < b.lo {
		return c.T
	}
	if a.lo >= b.hi {
		return c.F
	}
	if a.op == OZext && b.op == OConst {
		return c.Ult(a.a, c.Const(a.a.w, b.val)) // b.val <= a.hi by the tests above
	}
	if b.op == OZext && a.op == OConst {
		return c.Ult(c.Const(b.a.w, a.val), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.mk(OUlt, 0, a, b, nil, 0)
}

func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	half := uint64(1) << (a.w - 1)
	if a.hi < half && b.hi < half {
		return c.Ult(a, b)
	}
	if a.lo >= half && b.lo >= half {
		return c.Ult(a, b)
	}
	if a.hi < half && b.lo >= half {
		return c.F
	}
	if a.lo >= half && b.hi < half {
		return c.T
	}
	if a.op == OSext && b.op == OConst {
		v := sext(b.val, b.w)
		mn, mx := sext(uint64(1)<<(a.a.w-1), a.a.w), int64(mask(a.a.w)>>1)
		if v > mx {
			return c.T
		}
		if v <= mn {
			return c.F
		}
		return c.Slt(a.a, c.Const(a.a.w, b.val))
	}
	if b.op == OSext && a.op == OConst {
		v := sext(a.val, a.w)
		mn, mx := sext(uint64(1)<<(b.a.w-1), b.a.w), int64(mask(b.a.w)>>1)
		if v >= mx {
			return c.F
		}
		if v < mn {
			return c.T
		}
		return c.Slt(c.Const(b.a.w, a.val), b.a)
	}
	return c.mk(OSlt, 0, a, b, nil, 0)
}

func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func evalOp(op Op, w uint8, x, y uint64, xw uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		s := y
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sext(x, w)>>s) & m
	}
	panic("evalOp")
}

// multiple takes a apart as x*k + y if nothing in it can overflow.
func (c *TermCtx) multiple(a *Term) (x *Term, k uint64, y *Term) {
	m := mask(a.w)
	fits := func(t *Term) bool {
		h, l := bits.Mul64(t.a.hi, t.b.val)
		return h == 0 && l <= m
	}
	isMul := func(t *Term) bool { return t.op == OMul && t.b.op == OConst && t.b.val != 0 }
	if isMul(a) && fits(a) {
		return a.a, a.b.val, c.Const(a.w, 0)
	}
	if a.op == OAdd {
		p, q := a.a, a.b
		if s, cy := bits.Add64(p.hi, q.hi, 0); cy != 0 || s > m {
			return nil, 0, nil
		}
		if !isMul(p) {
			p, q = q, p
		}
		if isMul(p) && fits(p) {
			return p.a, p.b.val, q
		}
	}
	return nil, 0, nil
}

// without takes one addend away from a sum; nil if it is not there.
func (c *TermCtx) without(a, x *Term, deep int) *Term {
	if a.op != OAdd || deep == 0 {
		return nil
	}
	if a.a == x {
		return a.b
	}
	if a.b == x {
		return a.a
	}
	if r := c.without(a.a, x, deep-1); r != nil {
		return c.Bin(OAdd, r, a.b)
	}
	if r := c.without(a.b, x, deep-1); r != nil {
		return c.Bin(OAdd, a.a, r)
	}
	return nil
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OConst && b.op == OConst {
		return c.Const(w, evalOp(op, w, a.val, b.val, w))
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if a.op == OConst {
			a, b = b, a
		}
	}
	if b.op == OConst {
		switch op {
		case OAdd, OSub, OBor, OBxor, OShl, OLshr, OAshr:
			if b.val == 0 {
				return a
			}
		}
		switch op {
		case OAdd:
			if a.op == OAdd && a.b.op == OConst {
				return c.Bin(OAdd, a.a, c.Const(w, a.b.val+b.val))
			}
		case OSub:
			return c.Bin(OAdd, a, c.Const(w, -b.val))
		case OMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if a.op == OMul && a.b.op == OConst {
				return c.Bin(OMul, a.a, c.Const(w, a.b.val*b.val))
			}
		case OUDiv, OSDiv:
			if b.val == 1 {
				return a
			}
			if op == OSDiv && a.hi < uint64(1)<<(w-1) && b.val < uint64(1)<<(w-1) && b.val != 0 {
				return c.Bin(OUDiv, a, b)
			}
			if op == OUDiv && a.hi < b.val && b.val != 0 {
				return c.Const(w, 0)
			}
			if op == OUDiv && a.op == OUDiv && a.b.op == OConst && a.b.val != 0 && b.val != 0 {
				if h, l := bits.Mul64(a.b.val, b.val); h == 0 && l <= mask(w) {
					return c.Bin(OUDiv, a.a, c.Const(w, l))
				}
			}
			if op == OUDiv && b.val != 0 {
				if x, k, y := c.multiple(a); x != nil {
					if k%b.val == 0 {
						return c.Bin(OAdd, c.Bin(OMul, x, c.Const(w, k/b.val)), c.Bin(OUDiv, y, b))
					}
					if b.val%k == 0 && y.hi < k {
						return c.Bin(OUDiv, x, c.Const(w, b.val/k))
					}
				}
			}
		case OURem, OSRem:
			if op == OSRem && a.hi < uint64(1)<<(w-1) && b.val < uint64(1)<<(w-1) && b.val != 0 {
				return c.Bin(OURem, a, b)
			}
			if op == OURem && b.val != 0 && a.hi < b.val {
				return a
			}
			if op == OURem && b.val != 0 {
				if x, k, y := c.multiple(a); x != nil && k%b.val == 0 {
					return c.Bin(OURem, y, b)
				}
			}
		case OBand:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if b.val&(b.val+1) == 0 && a.hi <= b.val {
				return a
			}
			if n := bits.Len64(a.hi); n < 64 && b.val&(uint64(1)<<n-1) == 0 {
				return c.Const(w, 0)
			}
		case OBor:
			if b.val == mask(w) {
				return b
			}
		case OShl, OLshr:
			if b.val >= uint64(w) {
				return c.Const(w, 0)
			}
			if op == OLshr && a.hi>>b.val == 0 {
				return c.Const(w, 0)
			}
		}
	}
	switch op {
	case OAdd:
		if b.op == ONeg {
			return c.Bin(OSub, a, b.a)
		}
		if a.op == ONeg {
			return c.Bin(OSub, b, a.a)
		}
		if a.op == OSub && a.b == b {
			return a.a
		}
		if b.op == OSub && b.b == a {
			return b.a
		}
	case OSub:
		if b.op == ONeg {
			return c.Bin(OAdd, a, b.a)
		}
		if r := c.without(a, b, 4); r != nil {
			return r
		}
		if b.op == OAdd && a != b { // (x + y) - (x + z)
			if b.b.op == OConst {
				return c.Bin(OAdd, c.Bin(OSub, a, b.a), c.Const(w, -b.b.val))
			}
			if r := c.without(a, b.a, 4); r != nil {
				return c.Bin(OSub, r, b.b)
			}
			if r := c.without(a, b.b, 4); r != nil {
				return c.Bin(OSub, r, b.a)
			}
		}
		if a.op == OAdd && a.b.op == OConst {
			return c.Bin(OAdd, c.Bin(OSub, a.a, b), a.b)
		}
	case OBor: // high and low bits of one value
		if x := highLow(a, b); x != nil {
			return x
		}
		if x := highLow(b, a); x != nil {
			return x
		}
	case OMul:
		if a.op == ONeg && b.op == OConst {
			return c.Neg(c.Bin(OMul, a.a, b))
		}
	}
	if a == b {
		switch op {
		case OSub, OBxor:
			return c.Const(w, 0)
		case OBand, OBor:
			return a
		}
	}
	if a.op == OConst && a.val == 0 {
		switch op {
		case OShl, OLshr, OAshr, OUDiv, OURem:
			if op == OShl || op == OLshr || op == OAshr {
				return a
			}
		}
	}
	if b.op == OConst && b.val != 0 && b.val&(b.val-1) == 0 {
		switch op {
		case OUDiv:
			return c.Bin(OLshr, a, c.Const(w, uint64(bits.TrailingZeros64(b.val))))
		case OURem:
			return c.Bin(OBand, a, c.Const(w, b.val-1))
		}
	}
	if op == OLshr && b.op == OConst && a.op == OLshr && a.b.op == OConst && a.b.val+b.val < uint64(w) {
		return c.Bin(OLshr, a.a, c.Const(w, a.b.val+b.val))
	}
	r := c.mk(op, w, a, b, nil, 0)
	if len(c.alias) > 0 {
		if x, ok := c.alias[r]; ok {
			return x
		}
	}
	return r
}

// highLow gives x for a = x's bits above some and b = x's bits below.
func highLow(a, b *Term) *Term {
	if b.op != OBand || b.b.op != OConst || b.b.val&(b.b.val+1) != 0 {
		return nil
	}
	x, m := b.a, b.b.val
	if a.op == OConst && a.val&m == 0 && x.lo&^m == a.val && x.hi&^m == a.val {
		return x
	}
	if a.op == OShl && a.b.op == OConst && a.b.val < 64 && uint64(1)<<a.b.val-1 == m &&
		a.a.op == OLshr && a.a.b == a.b && a.a.a == x {
		return x
	}
	return nil
}

func (c *TermCtx) Bnot(a *Term) *Term {
	if a.op == OConst {
		return c.Const(a.w, ^a.val)
	}
	return c.mk(OBnot, a.w, a, nil, nil, 0)
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.op == OConst {
		return c.Const(a.w, -a.val)
	}
	if a.op == ONeg {
		return a.a
	}
	return c.mk(ONeg, a.w, a, nil, nil, 0)
}

// Resize converts to width w (truncate, or extend with/without sign).
func (c *TermCtx) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		if signed {
			return c.Const(w, uint64(sext(a.val, a.w)))
		}
		return c.Const(w, a.val)
	}
	if w < a.w {
		if (a.op == OZext || a.op == OSext) && a.a.w >= w {
			return c.Resize(a.a, w, false)
		}
		if a.op == OZext && a.a.w < w {
			return c.mk(OZext, w, a.a, nil, nil, 0)
		}
		if a.op == OSext && a.a.w < w {
			return c.mk(OSext, w, a.a, nil, nil, 0)
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return c.Ite(a.a, c.Resize(a.b, w, false), c.Resize(a.c, w, false))
		}
		return c.mk(OExtract, w, a, nil, nil, 0)
	}
	if a.op == OZext {
		return c.mk(OZext, w, a.a, nil, nil, 0)
	}
	if a.op == OExtract && a.val == 0 && a.a.hi <= mask(a.w) && (!signed || a.a.hi < uint64(1)<<(a.w-1)) {
		return c.Resize(a.a, w, false)
	}
	if signed && a.hi >= uint64(1)<<(a.w-1) {
		return c.mk(OSext, w, a, nil, nil, 0)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.Const(w, a.b.val), c.Const(w, a.c.val))
	}
	return c.mk(OZext, w, a, nil, nil, 0)
}

// eval under a model (indexed by draw index).
func (c *TermCtx) eval(t *Term, model []uint64) uint64 {
	c.gen++
	return c.ev(t, model)
}

func (c *TermCtx) ev(t *Term, model []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		if int(t.val) < len(model) {
			return model[t.val] & maskOrBool(t.w)
		}
		return 0
	}
	if t.gen == c.gen {
		return t.ev
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - c.ev(t.a, model)
	case OAnd:
		r = c.ev(t.a, model)
		if r == 1 {
			r = c.ev(t.b, model)
		}
	case OOr:
		r = c.ev(t.a, model)
		if r == 0 {
			r = c.ev(t.b, model)
		}
	case OEq:
		r = b2u(c.ev(t.a, model) == c.ev(t.b, model))
	case OUlt:
		r = b2u(c.ev(t.a, model) < c.ev(t.b, model))
	case OSlt:
		r = b2u(sext(c.ev(t.a, model), t.a.w) < sext(c.ev(t.b, model), t.a.w))
	case OIte:
		if c.ev(t.a, model) == 1 {
			r = c.ev(t.b, model)
		} else {
			r = c.ev(t.c, model)
		}
	case OBnot:
		r = ^c.ev(t.a, model) & mask(t.w)
	case ONeg:
		r = -c.ev(t.a, model) & mask(t.w)
	case OExtract:
		r = c.ev(t.a, model) >> t.val & mask(t.w)
	case OZext:
		r = c.ev(t.a, model)
	case OSext:
		r = uint64(sext(c.ev(t.a, model), t.a.w)) & mask(t.w)
	default:
		r = evalOp(t.op, t.w, c.ev(t.a, model), c.ev(t.b, model), t.w)
	}
	t.gen = c.gen
	t.ev = r
	return r
}

func maskOrBool(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// truth table of a boolean term over a single draw of at most 8 bits
func (c *TermCtx) table(t *Term, vw uint8) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	k := int(t.sup) - 1
	model := make([]uint64, k+1)
	var r [4]uint64
	n := 1 << vw
	if vw == 0 {
		n = 2
	}
	for i := 0; i < n; i++ {
		model[k] = uint64(i)
		if c.eval(t, model) == 1 {
			r[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	t.tt = &r
	return &r
}

func (t *Term) name() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return fmt.Sprintf("x%d_%d", t.val, t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// emit writes declarations/definitions of t (once per solver generation).
func (t *Term) emit(sb *strings.Builder, si int, gen uint32) {
	if t.op == OConst || t.emitted[si] == gen {
		return
	}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			x.emit(sb, si, gen)
		}
	}
	t.emitted[si] = gen
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.name(), sortName(t.w))
		return
	}
	fmt.Fprintf(sb, "(define-fun %s () %s ", t.name(), sortName(t.w))
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, t.a.name())
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, t.a.name())
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, t.a.name())
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(x.name())
			}
		}
		sb.WriteByte(')')
	}
	sb.WriteString(")\n")
}

func (t *Term) String() string {
	switch t.op {
	case OConst, OVar:
		return t.name()
	}
	s := "(" + fmt.Sprint(t.op)
	if n := opNames[t.op]; n != "" {
		s = "(" + n
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}

// vset is the bit set of draws t mentions.
func (t *Term) vset() []uint64 {
	if t.vs != nil || t.sup == 0 {
		return t.vs
	}
	set := func(k int) []uint64 {
		r := make([]uint64, k/64+1)
		r[k/64] = 1 << (uint(k) & 63)
		return r
	}
	if t.op == OVar {
		t.vs = set(int(t.val))
		return t.vs
	}
	if t.sup > 0 {
		t.vs = set(int(t.sup) - 1)
		return t.vs
	}
	var r []uint64
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x == nil {
			continue
		}
		v := x.vset()
		if len(v) > len(r) {
			n := make([]uint64, len(v))
			copy(n, r)
			r = n
		} else if len(v) > 0 {
			r = append([]uint64(nil), r...)
		}
		for i, w := range v {
			r[i] |= w
		}
	}
	t.vs = r
	return r
}

func bitsMeet(a, b []uint64) bool {
	for i := range a {
		if i < len(b) && a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

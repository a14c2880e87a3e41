package main

import "math/bits"

// Decimal texts of symbolic numbers. strconv's digit loop divides by 100 and indexes tables, which bit-blasts
// badly; its result is instead described by the digits: fresh digit variables d1..dn with
// d1*10^(n-1)+...+dn == x (there is exactly one such text for every x), or the digits x was computed
// from where x is such a sum already.

// digitsOf returns the digits (8-bit terms 0..9, most significant first) a term is visibly computed from.
func (m *machine) digitsOf(t *Term) ([]*Term, bool) {
	tc := m.tc
	if t.op == OConst {
		return m.constDigits(t.val), true
	}
	if d, ok := m.dec[t]; ok {
		return d, true
	}
	switch t.op {
	case OZext:
		if t.a.w == 8 && t.a.hi <= 9 {
			return []*Term{t.a}, true
		}
		if t.a.w < 64 && t.a.w > 8 {
			return m.digitsOf(t.a)
		}
	case OMul:
		if t.b.op == OConst {
			c, k := t.b.val, 0
			for c > 1 && c%10 == 0 {
				c /= 10
				k++
			}
			if h, l := bits.Mul64(t.a.hi, t.b.val); c == 1 && k > 0 && h == 0 && l <= mask(t.w) {
				ds, ok := m.digitsOf(t.a)
				if !ok {
					return nil, false
				}
				ds = append([]*Term(nil), ds...)
				for ; k > 0; k-- {
					ds = append(ds, tc.Const(8, 0))
				}
				return ds, true
			}
		}
	case OAdd:
		x, y := t.a, t.b
		if _, cy := bits.Add64(x.hi, y.hi, 0); cy != 0 || x.hi+y.hi > mask(t.w) {
			return nil, false
		}
		for i := 0; i < 2; i++ {
			if x.op == OMul && x.b.op == OConst && y.hi < x.b.val {
				if hi, ok := m.digitsOf(x); ok {
					if lo, ok := m.digitsOf(y); ok && len(lo) <= len(hi) {
						hi = append([]*Term(nil), hi...)
						for j, d := range lo {
							k := len(hi) - len(lo) + j
							if hi[k].op != OConst || hi[k].val != 0 {
								return nil, false
							}
							hi[k] = d
						}
						return hi, true
					}
				}
			}
			x, y = y, x
		}
	}
	return nil, false
}

func (m *machine) constDigits(v uint64) []*Term {
	var r []*Term
	for {
		r = append([]*Term{m.tc.Const(8, v%10)}, r...)
		v /= 10
		if v == 0 {
			return r
		}
	}
}

// decimal returns the digits of x as an unsigned number, or false where the real code has to run.
func (m *machine) decimal(x *Term) ([]*Term, bool) {
	tc := m.tc
	if m.spec > 0 {
		panic(specAbort{})
	}
	if ds, ok := m.digitsOf(x); ok {
		for len(ds) > 1 {
			if m.branch(tc.Eq(ds[0], tc.Const(8, 0))) {
				ds = ds[1:]
				continue
			}
			break
		}
		return ds, true
	}
	w := x.w
	n := 1
	for p := uint64(10); ; p *= 10 {
		if w < 64 && p > mask(w) {
			break
		}
		if m.branch(tc.Ult(x, tc.Const(w, p))) {
			break
		}
		n++
		if n == 20 {
			return nil, false
		}
	}
	v := m.tc.eval(x, m.model)
	cur := m.constDigits(v)
	var ds, vs []*Term
	var sum *Term
	k := len(m.draws)
	for i := 0; i < n; i++ {
		vs = append(vs, m.newVar("aux", "digit", 4))
		ds = append(ds, tc.Resize(vs[i], 8, false))
	}
	if len(cur) == n {
		m.model = append([]uint64(nil), m.model...)
		for i, d := range cur {
			m.model[k+i] = d.val
		}
	}
	for i, d := range ds {
		lo := uint64(0)
		if i == 0 && n > 1 {
			lo = 1
		}
		m.assume(tc.Ule(tc.Const(8, lo), d))
		m.assume(tc.Ule(d, tc.Const(8, 9)))
		if sum == nil {
			sum = tc.Resize(d, 64, false)
		} else {
			sum = tc.Bin(OAdd, tc.Bin(OMul, sum, tc.Const(64, 10)), tc.Resize(d, 64, false))
		}
	}
	eq := tc.Eq(tc.Resize(x, 64, false), sum)
	m.assume(eq)
	def := &digitDef{eq: eq, x: x, digits: vs, terms: map[*Term]bool{}}
	for _, d := range vs {
		for len(def.set) <= int(d.val/64) {
			def.set = append(def.set, 0)
		}
		def.set[d.val/64] |= 1 << (d.val & 63)
		for _, q := range m.pc {
			if q.sup == int32(d.val)+1 {
				def.terms[q] = true
			}
		}
	}
	m.defs = append(m.defs, def)
	if sum.op != OConst && n > 1 {
		if tc.alias == nil {
			tc.alias = map[*Term]*Term{}
		}
		y := tc.Resize(x, 64, false)
		tc.alias[sum] = y
		if sum.op == OAdd {
			m.known[tc.Ult(y, sum.a)] = false // strconv's overflow test
		}
	}
	m.dec[x] = ds
	if n < 20 {
		m.dec[tc.Resize(x, 64, false)] = ds
	}
	return ds, true
}

// formatInt is the decimal text of a 64-bit number.
func (m *machine) formatInt(v Value, signed bool) (Value, bool) {
	t, ok := v.P.(*Term)
	if !ok {
		return Value{}, false
	}
	tc := m.tc
	neg := false
	if signed {
		neg = m.branch(tc.Slt(t, tc.Const(t.w, 0)))
		if neg {
			t = tc.Neg(t)
		}
	}
	ds, ok := m.decimal(t)
	if !ok {
		return Value{}, false
	}
	var bs []Value
	if neg {
		bs = append(bs, Value{N: '-'})
	}
	for _, d := range ds {
		bs = append(bs, fromTerm(tc.Bin(OAdd, d, tc.Const(8, '0'))))
	}
	return mkStr(bs), true
}

// digitDef says that a number equals the sum of its digits.
type digitDef struct {
	eq, x  *Term
	digits []*Term
	set    []uint64
	terms  map[*Term]bool // the digits' ranges
}

// patchModel gives the digits the values that belong to the numbers.
func (m *machine) patchModel(model []uint64) {
	for _, d := range m.defs {
		ds := m.constDigits(m.tc.eval(d.x, model))
		if len(ds) == len(d.digits) {
			for i, t := range d.digits {
				model[t.val] = ds[i].val
			}
		}
	}
}

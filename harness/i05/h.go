package h

import (
	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds 26 targets (struct pointers with tagged, named, skipped, unexported, embedded, nested and interface fields, nil and non-struct values), every subset of 6 provided values, each as a value or a function, provided in the injector or its parent
//sym:assume nested structs are filled three levels deep

type T struct{ N int }
type U struct{ N int }
type I interface{ Id() int }
type impl struct{ N int }

func (x *impl) Id() int { return x.N }

// what is provided, by bit: T, T named n, U, I, int, T by a function that returns a value
const (
	bT = 1 << iota
	bTn
	bU
	bI
	bInt
)

func setup() (inject.Injector, int) {
	parent := inject.New()
	inj := inject.New().SetParent(parent)
	set := sym.Choose("provided", 32)
	fun := sym.Choose("functions", 2) == 1
	for b := 1; b < 32; b <<= 1 {
		if set&b == 0 {
			continue
		}
		to := inj
		if sym.Thorough() && sym.Choose("parent", 2) == 1 {
			to = parent
		}
		switch b {
		case bT:
			if fun {
				to.Provide(func() *T { return &T{1} })
			} else {
				to.Provide(&T{1})
			}
		case bTn:
			if fun {
				to.ProvideAs(func() *T { return &T{2} }, nil, "n")
			} else {
				to.ProvideAs(&T{2}, nil, "n")
			}
		case bU:
			if fun {
				to.Provide(func() *U { return &U{3} })
			} else {
				to.Provide(&U{3})
			}
		case bI:
			if fun {
				to.Provide(func() I { return &impl{4} })
			} else {
				to.ProvideAs(&impl{4}, (*I)(nil))
			}
		case bInt:
			n := 5
			if fun {
				to.Provide(func() *int { return &n })
			} else {
				to.Provide(&n)
			}
		}
	}
	return inj, set
}

type Base struct {
	X *T `inject`
	Y int
}
type Mid struct {
	B   Base
	Own U `inject`
}
type hidden struct {
	X *T `inject`
}
type tree struct {
	X     *T `inject`
	Left  *tree
	Right *tree
}

func id(t *T) int {
	if t == nil {
		return 0
	}
	return t.N
}

//sym:covers ok error
func H_apply() {
	inj, set := setup()
	var err error
	need := 0
	done := func(ok bool, label string) {
		if set&need == need {
			sym.Cover("ok")
			sym.Assert(err == nil, "error-without-failure")
			sym.Assert(ok, label)
		} else {
			sym.Cover("error")
			sym.Assert(err != nil, "missing-value-not-reported")
		}
	}
	switch sym.Choose("target", 26) {
	case 0:
		s := struct {
			A *T `inject`
			B *T
			C T `inject`
			D T
		}{B: &T{7}, D: T{8}}
		err = inj.Apply(&s)
		need = bT
		done(id(s.A) == 1 && s.C.N == 1, "tagged-field-not-set")
		sym.Assert(s.B.N == 7 && s.D.N == 8, "untagged-field-changed")
	case 1:
		s := struct {
			A *T `inject:"n"`
			B *T `inject`
			C *T `inject:"-"`
			D *T `json:"inject"`
			E *T `other:"inject" inject:"n"`
		}{C: &T{7}, D: &T{8}}
		err = inj.Apply(&s)
		need = bT | bTn
		done(id(s.A) == 2 && id(s.B) == 1 && id(s.E) == 2, "tagged-field-not-set")
		sym.Assert(s.C.N == 7 && s.D.N == 8, "untagged-field-changed")
	case 2:
		s := struct {
			A T `inject:"missing"`
		}{T{7}}
		err = inj.Apply(&s)
		sym.Assert(err != nil, "missing-value-not-reported")
		sym.Assert(s.A.N == 7, "target-touched")
	case 3:
		s := struct {
			a *T `inject`
			h hidden
			B *U `inject`
		}{a: &T{7}}
		err = inj.Apply(&s)
		need = bU
		done(s.B != nil && s.B.N == 3, "tagged-field-not-set")
		sym.Assert(s.a.N == 7 && s.h.X == nil, "unexported-field-changed")
	case 4:
		s := struct {
			I I   `inject`
			N int `inject`
		}{N: 7}
		err = inj.Apply(&s)
		need = bI | bInt
		done(s.I != nil && s.I.Id() == 4 && s.N == 5, "tagged-field-not-set")
	case 5:
		s := struct {
			Base
			M Mid
		}{Base: Base{Y: 7}, M: Mid{B: Base{Y: 8}}}
		err = inj.Apply(&s)
		need = bT | bU
		done(id(s.X) == 1 && id(s.M.B.X) == 1 && s.M.Own.N == 3, "tagged-field-not-set")
		sym.Assert(s.Y == 7 && s.M.B.Y == 8, "untagged-field-changed")
	case 6:
		s := struct {
			*Base
			M *Mid
		}{Base: &Base{Y: 7}}
		err = inj.Apply(&s)
		need = bT
		done(id(s.X) == 1, "tagged-field-not-set")
		sym.Assert(s.Y == 7 && s.M == nil, "untagged-field-changed")
	case 7:
		s := struct {
			*Base
			hidden
			*tree
			A *U `inject`
		}{}
		err = inj.Apply(&s)
		need = bU
		done(s.A != nil && s.A.N == 3, "tagged-field-not-set")
		sym.Assert(s.Base == nil && s.tree == nil, "untagged-field-changed")
	case 8:
		t := &tree{}
		t.Left, t.Right = t, &tree{Left: t}
		err = inj.Apply(t)
		need = bT
		done(id(t.X) == 1 && id(t.Right.X) == 1, "tagged-field-not-set")
		sym.Assert(t.Left == t && t.Right.Left == t && t.Right.Right == nil, "untagged-field-changed")
	case 9:
		s := struct {
			V interface{}
			W interface{}
			E error
			F func()
			M map[string]*Base
			L []Base
			C chan int
			P **Base
			Q interface{} `inject:"-"`
		}{V: &Base{Y: 7}, W: Base{Y: 8}, L: make([]Base, 1), Q: &Base{}}
		err = inj.Apply(&s)
		need = bT
		done(id(s.V.(*Base).X) == 1, "tagged-field-not-set")
		sym.Assert(s.V.(*Base).Y == 7 && s.W == (interface{})(Base{Y: 8}) && s.L[0].X == nil && s.Q.(*Base).X == nil, "untagged-field-changed")
	case 10:
		err = inj.Apply((*Base)(nil))
		sym.Assert(err != nil, "nil-target-not-reported")
	case 11:
		err = inj.Apply(nil)
		sym.Assert(err != nil, "nil-target-not-reported")
	case 12:
		n := 3
		err = inj.Apply(&n)
		sym.Assert(err != nil && n == 3, "non-struct-not-reported")
	case 13:
		err = inj.Apply("x")
		sym.Assert(err != nil, "non-struct-not-reported")
	case 14:
		err = inj.Apply(Base{}) // not settable: nothing to fill
		sym.Assert(err == nil, "error-without-failure")
	case 15:
		b := &Base{}
		err = inj.Apply(&b)
		sym.Assert(err != nil && b.X == nil, "non-struct-not-reported")
	case 16:
		err = inj.Apply([]Base{{}})
		sym.Assert(err != nil, "non-struct-not-reported")
	case 17:
		s := struct {
			A struct {
				B struct {
					C *T `inject`
				}
			}
		}{}
		err = inj.Apply(&s)
		need = bT
		done(id(s.A.B.C) == 1, "tagged-field-not-set")
	case 18:
		// provided as a plain value: it does not fit a pointer field
		inj.ProvideAs(func() T { return T{6} }, nil, "v")
		s := struct {
			A *T `inject:"v"`
		}{&T{7}}
		err = inj.Apply(&s)
		sym.Assert(err != nil && s.A.N == 7, "unassignable-value-not-reported")
	case 19:
		inj.ProvideAs(&U{6}, (*T)(nil), "u")
		s := struct {
			A *T `inject:"u"`
		}{&T{7}}
		err = inj.Apply(&s)
		sym.Assert(err != nil && s.A.N == 7, "unassignable-value-not-reported")
	case 20:
		inj.ProvideAs(func() T { return T{6} }, nil, "v")
		s := struct {
			A T `inject:"v"`
			B struct {
				C *U `inject:"v"`
			}
		}{}
		err = inj.Apply(&s)
		sym.Assert(err != nil && s.B.C == nil, "missing-value-not-reported")
	case 21:
		s := struct{}{}
		err = inj.Apply(&s)
		sym.Assert(err == nil, "error-without-failure")
	case 22:
		// its provider needs what is not there
		inj.ProvideAs(func(*hidden) *T { return &T{6} }, nil, "f")
		s := struct {
			A struct {
				B *T `inject:"f"`
			}
		}{}
		err = inj.Apply(&s)
		sym.Assert(err != nil && s.A.B == nil, "failed-provider-not-reported")
	case 23:
		inj.ProvideAs(func(*hidden) *T { return &T{6} }, nil, "f")
		type leaf struct {
			B *T `inject:"f"`
		}
		s := struct {
			A struct{ L *leaf }
			V interface{}
		}{}
		s.A.L = &leaf{}
		if sym.Choose("behind", 2) == 1 {
			s.A.L, s.V = nil, &leaf{}
		}
		err = inj.Apply(&s)
		sym.Assert(err != nil, "failed-provider-not-reported")
	case 24:
		// nested, and provided as what does not fit
		inj.ProvideAs(&U{6}, (*T)(nil), "u")
		s := struct {
			A struct {
				B *T `inject:"u"`
			}
		}{}
		err = inj.Apply(&s)
		sym.Assert(err != nil && s.A.B == nil, "unassignable-value-not-reported")
	case 25:
		// a provider that gives nil
		inj.ProvideAs(func() *T { return nil }, nil, "z")
		s := struct {
			A T  `inject:"z"`
			B *T `inject:"z"`
		}{A: T{7}, B: &T{8}}
		err = inj.Apply(&s)
		sym.Assert(s.A.N == 7 && (err != nil || s.B == nil), "nil-value")
	}
}

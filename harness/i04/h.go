package h

import (
	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds one parent and two children; 4 (thorough, without names: 5) operations out of: provide a value or a function of a type, provide a function of a second type that needs the first, resolve either, invoke a function that returns one, apply to a struct, on any of the three, all without or all with a name; then both types from all three injectors
//sym:assume a result that a provider function computed for a scope stays in force there until the type is provided again in that same scope

type A struct{ N int }
type B struct{ N int }

type source struct {
	id  int
	fun bool
}

type scope struct {
	inj   inject.Injector
	prov  [2]*source
	cache [2]int // instance
	by    [2]*source
}

var serial int

type world [3]*scope

func (w *world) source(s, k int) *source {
	if p := w[s].prov[k]; p != nil {
		return p
	}
	return w[0].prov[k]
}

// want is the instance the model says; 0 missing, -1 a new one, -2 unspecified.
func (w *world) want(s, k int) int {
	p := w.source(s, k)
	if c := w[s].cache[k]; c != 0 {
		if w[s].by[k] != p {
			return -2
		}
		return c
	}
	if p == nil {
		return 0
	}
	if k == 1 && w.source(s, 0) == nil {
		return 0
	}
	if p.fun {
		return -1
	}
	return p.id
}

func (w *world) got(s, k, id int, err error) {
	want := w.want(s, k)
	before := serial
	switch {
	case want == -2:
		return
	case want == 0:
		sym.Assert(err != nil && id == 0, "resolved-from-another-scope")
	case want == -1:
		sym.Assert(err == nil && id == before && w.fresh(id), "not-computed-for-this-scope")
		w[s].cache[k], w[s].by[k] = id, w.source(s, k)
	default:
		sym.Assert(err == nil && id == want, "another-scope-changed-it")
	}
}

// fresh: no other scope shows the instance.
func (w *world) fresh(id int) bool {
	for _, s := range w {
		for k := 0; k < 2; k++ {
			if s.cache[k] == id {
				return false
			}
		}
	}
	return true
}

func (w *world) resolve(s, k int) {
	w.deps(s, k)
	if k == 0 {
		var a *A
		err := w[s].inj.Find(&a, name)
		id := 0
		if a != nil {
			id = a.N
		}
		w.got(s, k, id, err)
		return
	}
	var b *B
	err := w[s].inj.Find(&b, name)
	id := 0
	if b != nil {
		id = b.N
	}
	w.got(s, k, id, err)
}

// deps resolves first what a function would need, so that the model needs no recursion.
func (w *world) deps(s, k int) {
	if k == 1 && w.source(s, 1) != nil {
		w.resolve(s, 0)
	}
}

// The name of all values.
var name string

func mk() int { serial++; return serial }

//sym:covers provide resolve invoke apply
func H_isolation() {
	serial = 0
	name = []string{"", "n"}[sym.Choose("name", 2)]
	w := &world{}
	for i := range w {
		w[i] = &scope{inj: inject.New()}
		if i > 0 {
			w[i].inj.SetParent(w[0].inj)
		}
	}
	n := 4
	if name == "" {
		n = sym.Bound(4, 5)
	}
	for i := 0; i < n; i++ {
		s := sym.Choose("scope", 3)
		x := w[s]
		op := sym.Choose("op", 7)
		switch op {
		case 0:
			sym.Cover("provide")
			p := &source{id: mk()}
			x.inj.ProvideAs(&A{p.id}, nil, name)
			x.prov[0], x.cache[0] = p, 0
		case 1:
			p := &source{fun: true}
			x.inj.ProvideAs(func() *A { return &A{mk()} }, nil, name)
			x.prov[0], x.cache[0] = p, 0
		case 2:
			p := &source{fun: true}
			x.inj.ProvideAs(inject.Provide{inject.Dep{0: name}, func(*A) *B { return &B{mk()} }}, nil, name)
			x.prov[1], x.cache[1] = p, 0
		case 3, 4:
			sym.Cover("resolve")
			w.resolve(s, op-3)
		case 5:
			sym.Cover("invoke")
			_, err := x.inj.Invoke(func() (*A, *B) { return &A{-1}, &B{-1} })
			sym.Assert(err == nil, "invoke")
		case 6:
			sym.Cover("apply")
			w.deps(s, 1)
			var b *B
			var err error
			if name == "" {
				var v struct {
					X *B `inject`
				}
				err = x.inj.Apply(&v)
				b = v.X
			} else {
				var v struct {
					X *B `inject:"n"`
				}
				err = x.inj.Apply(&v)
				b = v.X
			}
			id := 0
			if b != nil {
				id = b.N
			}
			w.got(s, 1, id, err)
		}
	}
	for s := 0; s < 3; s++ {
		for k := 0; k < 2; k++ {
			w.resolve(s, k)
		}
	}
}

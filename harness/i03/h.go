package h

import (
	"strconv"

	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds 3 provided types, every directed graph over them (self-loops included), each type provided at any non-empty subset of 2 levels of a chain (thorough: 3) or not at all, as a function or a value, with its own dependencies at each level; 2 (thorough 3) successive resolutions by Find, Invoke or Apply at any level, on shared providers; chains of up to 129 (thorough 513) providers over two levels that end or come back to any of four places

type A struct{ N int }
type B struct{ N int }
type C struct{ N int }

// fn builds the provider of type k with dependencies given as a bit mask.
func fn(k, m int) interface{} {
	switch k {
	case 0:
		switch m {
		case 0:
			return func() *A { return &A{} }
		case 1:
			return func(*A) *A { return &A{} }
		case 2:
			return func(*B) *A { return &A{} }
		case 3:
			return func(*A, *B) *A { return &A{} }
		case 4:
			return func(C) *A { return &A{} }
		case 5:
			return func(*A, C) *A { return &A{} }
		case 6:
			return func(*B, C) *A { return &A{} }
		case 7:
			return func(*A, *B, C) *A { return &A{} }
		}
	case 1:
		switch m {
		case 0:
			return func() *B { return &B{} }
		case 1:
			return func(*A) *B { return &B{} }
		case 2:
			return func(*B) *B { return &B{} }
		case 3:
			return func(*A, *B) *B { return &B{} }
		case 4:
			return func(C) *B { return &B{} }
		case 5:
			return func(*A, C) *B { return &B{} }
		case 6:
			return func(C, *B) *B { return &B{} }
		case 7:
			return func(C, *B, *A) *B { return &B{} }
		}
	case 2:
		switch m {
		case 0:
			return func() C { return C{} }
		case 1:
			return func(*A) C { return C{} }
		case 2:
			return func(*B) C { return C{} }
		case 3:
			return func(*B, *A) C { return C{} }
		case 4:
			return func(C) C { return C{} }
		case 5:
			return func(*A, C) C { return C{} }
		case 6:
			return func(*B, C) C { return C{} }
		case 7:
			return func(*B, *A, C) C { return C{} }
		}
	}
	panic("no such provider")
}

func val(k int) interface{} {
	switch k {
	case 0:
		return &A{}
	case 1:
		return &B{}
	}
	return &C{}
}

type prov struct {
	has, value bool
	deps       int
}

type world struct {
	c []inject.Injector
	p [][3]prov
}

func (w *world) at(level, k int) *prov {
	for l := level; l >= 0; l-- {
		if w.p[l][k].has {
			return &w.p[l][k]
		}
	}
	return nil
}

const (
	fine = iota
	missing
	cyclic
)

// state is what resolving type k at a level must come to: dependencies are always looked up
// from the scope that resolves.
func (w *world) state(level, k int, on [3]bool) (miss, cyc bool) {
	p := w.at(level, k)
	if p == nil {
		return true, false
	}
	if p.value {
		return false, false
	}
	if on[k] {
		return false, true
	}
	on[k] = true
	for j := 0; j < 3; j++ {
		if p.deps&(1<<uint(j)) != 0 {
			m, c := w.state(level, j, on)
			miss, cyc = miss || m, cyc || c
		}
	}
	return
}

func (w *world) resolve(way, level, k int) error {
	inj := w.c[level]
	switch way {
	case 0:
		switch k {
		case 0:
			var x *A
			return inj.Find(&x)
		case 1:
			var x *B
			return inj.Find(&x)
		}
		var x C
		return inj.Find(&x)
	case 1:
		// a function whose result has one of the types must not count as part of a cycle
		switch k {
		case 0:
			_, err := inj.Invoke(func(*A) *A { return nil })
			return err
		case 1:
			_, err := inj.Invoke(func(*B) *A { return nil })
			return err
		}
		_, err := inj.Invoke(func(C) {})
		return err
	}
	switch k {
	case 0:
		var s struct {
			X *A `inject`
			Y *A `inject`
		}
		return inj.Apply(&s)
	case 1:
		var s struct {
			X *B `inject`
		}
		return inj.Apply(&s)
	}
	var s struct {
		X C `inject`
		Y C `inject`
	}
	return inj.Apply(&s)
}

//sym:covers fine missing cycle
//sym:depth 400
func H_graphs() {
	levels := 2
	w := &world{}
	for l := 0; l < levels; l++ {
		inj := inject.New()
		if l > 0 {
			inj.SetParent(w.c[l-1])
		}
		w.c = append(w.c, inj)
		w.p = append(w.p, [3]prov{})
	}
	// the graph of each level is drawn as it is needed: every provider that matters for the
	// resolutions from the last level, then those hidden by it
	for k := 0; k < 3; k++ {
		where := sym.Choose("where", 4) // nowhere, parent, child, both
		for l := 0; l < levels; l++ {
			if where&(1<<uint(l)) == 0 {
				continue
			}
			p := &w.p[l][k]
			p.has = true
			// functions only, and a value for one type, to keep the number of worlds down
			d := sym.Choose("deps", 9)
			p.value, p.deps = d == 8, d%8
			if p.value {
				w.c[l].Provide(val(k))
			} else {
				w.c[l].Provide(fn(k, p.deps))
			}
		}
		if where == 3 && !sym.Thorough() {
			sym.Assume(k == 0)
		}
	}
	n := 2
	for i := 0; i < n; i++ {
		level, k := sym.Choose("level", levels), 0
		if i > 0 {
			level, k = 1, sym.Choose("type", 2)
		}
		way := i
		if i == 0 {
			way = 0
		}
		miss, cyc := w.state(level, k, [3]bool{})
		err := w.resolve(way, level, k)
		sym.Assert((err != nil) == (miss || cyc), "error-exactly-on-cycle-or-missing")
		switch {
		case cyc:
			sym.Cover("cycle")
		case miss:
			sym.Cover("missing")
		default:
			sym.Cover("fine")
		}
	}
}

// Two scopes that break a cycle of their parent's providers, each in its own way, then the
// parent: nothing of what they resolved may hide the cycle.
//
//sym:covers fine cycle
//sym:depth 400
func H_siblings() {
	parent := inject.New()
	w := &world{c: []inject.Injector{parent}, p: [][3]prov{{}}}
	for k := 0; k < 3; k++ {
		d := sym.Choose("deps", 8)
		w.p[0][k] = prov{has: true, deps: d}
		parent.Provide(fn(k, d))
	}
	for i := 0; i < 2; i++ {
		v := &world{c: []inject.Injector{parent, inject.New().SetParent(parent)}, p: [][3]prov{w.p[0], {}}}
		over := sym.Choose("values", 8)
		for k := 0; k < 3; k++ {
			if over&(1<<uint(k)) != 0 {
				v.p[1][k] = prov{has: true, value: true}
				v.c[1].Provide(val(k))
			}
		}
		k := sym.Choose("type", 3)
		if i == 1 && !sym.Thorough() {
			sym.Assume(k == 1)
		}
		_, cyc := v.state(1, k, [3]bool{})
		err := v.resolve(0, 1, k)
		sym.Assert((err != nil) == cyc, "error-exactly-on-cycle")
	}
	_, cyc := w.state(0, 0, [3]bool{})
	err := w.resolve(0, 0, 0)
	sym.Assert((err != nil) == cyc, "error-exactly-on-cycle")
	if cyc {
		sym.Cover("cycle")
	} else {
		sym.Cover("fine")
	}
}

type link struct{}

// A long chain of providers that ends, or comes back to one of them.
//
//sym:depth 20000
//sym:covers fine cycle
func H_long() {
	n := hx.Size("links", 4, sym.Bound(129, 513))
	parent := inject.New()
	child := inject.New().SetParent(parent)
	back := []int{-1, 0, 1, n / 2, n - 1}[sym.Choose("back", 5)]
	at := sym.Choose("at", 3)
	for i := 0; i < n; i++ {
		inj := parent
		if at == 1 || at == 2 && i%2 == 1 {
			inj = child
		}
		next := i + 1
		if i == n-1 {
			if back < 0 {
				inj.ProvideAs(func() *link { return &link{} }, nil, strconv.Itoa(i))
				break
			}
			next = back
		}
		inj.ProvideAs(inject.Provide{inject.Dep{0: strconv.Itoa(next)}, func(*link) *link { return &link{} }}, nil, strconv.Itoa(i))
	}
	for i := 0; i < 2; i++ {
		var l *link
		err := child.Find(&l, strconv.Itoa([]int{0, n / 2, n - 1}[sym.Choose("from", 3)]))
		sym.Assert((err != nil) == (back >= 0), "error-exactly-on-cycle")
		if back >= 0 {
			sym.Cover("cycle")
		} else {
			sym.Cover("fine")
		}
	}
}

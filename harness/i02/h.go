package h

import (
	"reflect"
	"strconv"

	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds 4 provided types with every acyclic dependency graph over them, every subset of them missing, placed in a parent or a child injector, resolved by 2 (thorough 3) successive Find, Invoke or Apply operations on the parent or the child; functions invoked have any of 8 signatures; providers with results of 9 forms (several, plain values, interfaces, nil) asked up to 3 times in each way; chains of up to 129 (thorough 513) providers, one of them missing at first
//sym:assume a provider fails when it, or something it needs, is not provided

type node struct {
	id   int
	deps []*node
}
type A struct{ node }
type B struct{ node }
type C struct{ node }
type D struct{ node }

type world struct {
	c      [2]inject.Injector
	has    [4]bool // provided
	level  [4]int
	edge   [4][4]bool // i depends on j, j < i
	named  bool
	calls  [4]int
	order  []int
	serial int
	made   map[int]int // instance -> type
}

func (w *world) mk(k int, deps ...int) int {
	w.serial++
	w.calls[k]++
	w.order = append(w.order, k)
	return w.serial
}

const name = "n"

// provide installs the provider of type k, with the dependencies of its edges.
func (w *world) provide(k int) {
	e := w.edge[k]
	var f interface{}
	dep := inject.Dep{}
	n := ""
	if w.named {
		n = name
		for i := 0; i < 4; i++ {
			dep[i] = name
		}
	}
	switch k {
	case 0:
		f = func() *A { return &A{node{id: w.mk(0)}} }
	case 1:
		if e[0] {
			f = func(a *A) *B { return &B{node{w.mk(1), []*node{&a.node}}} }
		} else {
			f = func() *B { return &B{node{id: w.mk(1)}} }
		}
	case 2:
		switch {
		case e[0] && e[1]:
			f = func(b *B, a *A) *C { return &C{node{w.mk(2), []*node{&b.node, &a.node}}} }
		case e[0]:
			f = func(a *A) *C { return &C{node{w.mk(2), []*node{&a.node}}} }
		case e[1]:
			f = func(b *B) *C { return &C{node{w.mk(2), []*node{&b.node}}} }
		default:
			f = func() *C { return &C{node{id: w.mk(2)}} }
		}
	case 3:
		switch {
		case e[0] && e[1] && e[2]:
			f = func(a *A, c *C, b *B) *D { return &D{node{w.mk(3), []*node{&a.node, &c.node, &b.node}}} }
		case e[0] && e[1]:
			f = func(a *A, b *B) *D { return &D{node{w.mk(3), []*node{&a.node, &b.node}}} }
		case e[0] && e[2]:
			f = func(c *C, a *A) *D { return &D{node{w.mk(3), []*node{&c.node, &a.node}}} }
		case e[1] && e[2]:
			f = func(b *B, c *C) *D { return &D{node{w.mk(3), []*node{&b.node, &c.node}}} }
		case e[0]:
			f = func(a *A) *D { return &D{node{w.mk(3), []*node{&a.node}}} }
		case e[1]:
			f = func(b *B) *D { return &D{node{w.mk(3), []*node{&b.node}}} }
		case e[2]:
			f = func(c *C) *D { return &D{node{w.mk(3), []*node{&c.node}}} }
		default:
			f = func() *D { return &D{node{id: w.mk(3)}} }
		}
	}
	if w.named {
		f = inject.Provide{dep, f}
	}
	w.c[w.level[k]].ProvideAs(f, nil, n)
}

// visible tells whether type k is provided in the scope or above it.
func (w *world) visible(scope, k int) bool { return w.has[k] && w.level[k] <= scope }

func (w *world) works(scope, k int) bool {
	if !w.visible(scope, k) {
		return false
	}
	for j := 0; j < k; j++ {
		if w.edge[k][j] && !w.works(scope, j) {
			return false
		}
	}
	return true
}

func (w *world) needs(k int, set *[4]bool) {
	set[k] = true
	for j := 0; j < k; j++ {
		if w.edge[k][j] {
			w.needs(j, set)
		}
	}
}

func (w *world) resolve(way, scope, k int) (n *node, err error) {
	inj := w.c[scope]
	nm := ""
	dep := inject.Dep{}
	if w.named {
		nm = name
		dep[0] = nm
	}
	switch way {
	case 0:
		switch k {
		case 0:
			var x *A
			if err = inj.Find(&x, nm); x != nil {
				n = &x.node
			}
		case 1:
			var x *B
			if err = inj.Find(&x, nm); x != nil {
				n = &x.node
			}
		case 2:
			var x *C
			if err = inj.Find(&x, nm); x != nil {
				n = &x.node
			}
		case 3:
			var x *D
			if err = inj.Find(&x, nm); x != nil {
				n = &x.node
			}
		}
	case 1:
		var f interface{}
		calls := 0
		switch k {
		case 0:
			f = func(x *A) { n = &x.node; calls++ }
		case 1:
			f = func(x *B) string { n = &x.node; calls++; return "r" }
		case 2:
			f = func(x *C) *A { n = &x.node; calls++; return &A{node{id: -1}} } // of a type that is provided, too
		case 3:
			f = func(x *D) (int, error) { n = &x.node; calls++; return 7, nil }
		}
		var out []reflect.Value
		out, err = inj.Invoke(inject.Provide{dep, f})
		want := 1
		if err != nil {
			want = 0
			sym.Assert(out == nil, "results-with-error")
		} else {
			switch k {
			case 0:
				sym.Assert(len(out) == 0, "results")
			case 1:
				sym.Assert(len(out) == 1 && out[0].String() == "r", "results")
			case 2:
				sym.Assert(len(out) == 1 && out[0].Interface().(*A).id == -1, "results")
			case 3:
				sym.Assert(len(out) == 2 && out[0].Int() == 7, "results")
			}
		}
		sym.Assert(calls == want, "invoked-exactly-once")
	case 2:
		if w.named {
			switch k {
			case 0:
				var s struct {
					X *A `inject:"n"`
				}
				if err = inj.Apply(&s); s.X != nil {
					n = &s.X.node
				}
			case 1:
				var s struct {
					X *B `inject:"n"`
				}
				if err = inj.Apply(&s); s.X != nil {
					n = &s.X.node
				}
			case 2:
				var s struct {
					X *C `inject:"n"`
				}
				if err = inj.Apply(&s); s.X != nil {
					n = &s.X.node
				}
			case 3:
				var s struct {
					X *D `inject:"n"`
				}
				if err = inj.Apply(&s); s.X != nil {
					n = &s.X.node
				}
			}
			return
		}
		switch k {
		case 0:
			var s struct {
				X *A `inject`
			}
			if err = inj.Apply(&s); s.X != nil {
				n = &s.X.node
			}
		case 1:
			var s struct {
				X *B `inject`
			}
			if err = inj.Apply(&s); s.X != nil {
				n = &s.X.node
			}
		case 2:
			var s struct {
				X *C `inject`
			}
			if err = inj.Apply(&s); s.X != nil {
				n = &s.X.node
			}
		case 3:
			var s struct {
				X *D `inject`
			}
			if err = inj.Apply(&s); s.X != nil {
				n = &s.X.node
			}
		}
	}
	return
}

func draw(named bool) *world {
	w := &world{named: named}

	w.c[0] = inject.New()
	w.c[1] = inject.New().SetParent(w.c[0])
	for k := 0; k < 4; k++ {
		for j := 0; j < k; j++ {
			w.edge[k][j] = sym.Choose("edge", 2) == 1
		}
		p := sym.Choose("where", 3)
		w.has[k], w.level[k] = p < 2, p%2
	}
	return w
}

// Every acyclic graph: what is needed runs once per scope, dependencies first, and is shared.
//
//sym:covers ok error parent child
func H_graphs() {
	w := draw(false)
	for k := 0; k < 4; k++ {
		if w.has[k] {
			w.provide(k)
		}
	}
	inst := [2][4]int{}
	for i, n := 0, sym.Bound(2, 3); i < n; i++ {
		scope, k, way := sym.Choose("scope", 2), 3, 0
		if i > 0 {
			k = sym.Choose("type", 4)
		}
		if i == 1 || sym.Thorough() && i == 0 {
			way = sym.Choose("way", 3)
		}
		before := w.calls
		w.order = nil
		x, err := w.resolve(way, scope, k)
		if !w.works(scope, k) {
			sym.Cover("error")
			sym.Assert(err != nil, "failure-not-reported")
			sym.Assert(x == nil, "target-touched")
		} else {
			sym.Cover("ok")
			sym.Assert(err == nil, "error-without-failure")
			sym.Assert(x != nil, "not-resolved")
		}
		if scope == 0 {
			sym.Cover("parent")
		} else {
			sym.Cover("child")
		}
		var needed [4]bool
		w.needs(k, &needed)
		for j := 0; j < 4; j++ {
			d := w.calls[j] - before[j]
			if !needed[j] || !w.works(scope, j) || inst[scope][j] != 0 {
				sym.Assert(d == 0, "provider-called-without-need")
			} else if err == nil {
				sym.Assert(d == 1, "provider-not-called-once")
			} else {
				sym.Assert(d <= 1, "provider-not-called-once")
			}
			if d > 0 {
				inst[scope][j] = -1
			}
		}
		// dependencies first
		for p, j := range w.order {
			for q := p + 1; q < len(w.order); q++ {
				sym.Assert(!w.edge[j][w.order[q]], "dependency-after-consumer")
			}
		}
		if err == nil {
			check(w, &inst, scope, k, x)
		}
	}
}

// check compares the instances that reached x with those the scope has shown before.
func check(w *world, inst *[2][4]int, scope, k int, x *node) {
	if inst[scope][k] > 0 {
		sym.Assert(inst[scope][k] == x.id, "another-instance")
	}
	for s := 0; s < 2; s++ {
		for j := 0; j < 4; j++ {
			if s != scope || j != k {
				sym.Assert(inst[s][j] != x.id, "instance-shared")
			}
		}
	}
	inst[scope][k] = x.id
	n := 0
	for j := 0; j < k; j++ {
		if w.edge[k][j] {
			n++
		}
	}
	sym.Assert(len(x.deps) == n, "dependencies")
	order := orders[k][mask(w.edge[k])]
	for i, d := range x.deps {
		check(w, inst, scope, order[i], d)
	}
}

func mask(e [4]bool) (m int) {
	for j := 0; j < 3; j++ {
		if e[j] {
			m |= 1 << uint(j)
		}
	}
	return
}

var orders = [4]map[int][]int{
	{0: {}},
	{0: {}, 1: {0}},
	{0: {}, 1: {0}, 2: {1}, 3: {1, 0}},
	{0: {}, 1: {0}, 2: {1}, 4: {2}, 3: {0, 1}, 5: {2, 0}, 6: {1, 2}, 7: {0, 2, 1}},
}

// A provider that failed is tried again: what was missing is provided afterwards.
//
//sym:covers retried
func H_retry() {
	w := draw(true)
	late := sym.Choose("late", 4)
	sym.Assume(w.has[late])
	for k := 0; k < 4; k++ {
		if w.has[k] && k != late {
			w.provide(k)
		}
	}
	scope, way := sym.Choose("scope", 2), sym.Choose("way", 3)
	w.has[late] = false
	_, err := w.resolve(way, scope, 3)
	sym.Assert((err == nil) == w.works(scope, 3), "error-exactly-on-failure")
	w.has[late] = true
	w.provide(late)
	x, err2 := w.resolve(sym.Choose("way2", 3), scope, 3)
	sym.Assert((err2 == nil) == w.works(scope, 3), "error-exactly-on-failure")
	if err != nil && err2 == nil {
		sym.Cover("retried")
		var inst [2][4]int
		check(w, &inst, scope, 3, x)
		for k := 0; k < 4; k++ {
			sym.Assert(w.calls[k] <= 1, "provider-not-called-once")
		}
	}
}

// Invoking a function calls it exactly once per Invoke, whatever its result types are and
// whatever has been resolved before.
//
//sym:covers resolved-before
func H_invoke() {
	w := &world{}
	w.c[0] = inject.New()
	w.c[1] = inject.New().SetParent(w.c[0])
	w.has[0] = true
	if sym.Choose("value", 2) == 1 {
		w.c[0].Provide(&A{node{id: 1}})
		w.serial = 1
	} else {
		w.provide(0)
	}
	var first *node
	if sym.Choose("before", 2) == 1 {
		sym.Cover("resolved-before")
		first, _ = w.resolve(0, 1, 0)
	}
	calls := 0
	fs := []interface{}{
		func() { calls++ },
		func() *A { calls++; return &A{node{id: -1}} },
		func() A { calls++; return A{node{id: -1}} },
		func(a *A) *A { calls++; return &A{node{id: -1}} },
		func(a *A) (*A, error) { calls++; return nil, nil },
		func() interface{} { calls++; return nil },
		func() error { calls++; return nil },
		func(a A) string { calls++; return "" },
		inject.Provide{func() *A { calls++; return nil }},
	}
	n := sym.Choose("times", 3)
	for i := 0; i < n; i++ {
		out, err := w.c[1].Invoke(fs[sym.Choose("func", len(fs))])
		_ = out
		sym.Assert(err == nil, "error-without-failure")
		sym.Assert(calls == i+1, "invoked-exactly-once")
	}
	x, err := w.resolve(sym.Choose("way", 3), 1, 0)
	sym.Assert(err == nil && x.id == 1, "invoke-changed-what-is-provided")
	if first != nil {
		sym.Assert(w.serial == 1, "provider-called-again")
	}
}

type link struct{ n, above int }

// A long chain of providers, each needing the next, one of which may be missing at first.
//
//sym:depth 20000
//sym:covers missing
func H_deep() {
	n := hx.Size("links", 4, sym.Bound(129, 513))
	runs := make([]int, n)
	parent := inject.New()
	child := inject.New().SetParent(parent)
	gone := []int{-1, 0, n / 2, n - 1}[sym.Choose("gone", 4)]
	at := sym.Choose("at", 3) // in the parent, in the child, by turns
	put := func(i int) {
		inj := parent
		if at == 1 || at == 2 && i%2 == 1 {
			inj = child
		}
		if i == n-1 {
			inj.ProvideAs(func() *link { runs[i]++; return &link{i, -1} }, nil, strconv.Itoa(i))
			return
		}
		f := func(l *link) *link {
			runs[i]++
			return &link{i, l.n}
		}
		inj.ProvideAs(inject.Provide{inject.Dep{0: strconv.Itoa(i + 1)}, f}, nil, strconv.Itoa(i))
	}
	for i := 0; i < n; i++ {
		if i != gone {
			put(i)
		}
	}
	var l *link
	if gone >= 0 {
		sym.Cover("missing")
		sym.Assert(child.Find(&l, "0") != nil && l == nil, "missing-reported")
		for i := range runs {
			sym.Assert(i > gone || runs[i] == 0, "not-invoked-without-its-dependencies")
		}
		put(gone)
	}
	for i := 0; i < 2; i++ {
		var was *link
		was, l = l, nil
		sym.Assert(child.Find(&l, "0") == nil && l != nil && l.n == 0 && l.above == 1, "resolved")
		sym.Assert(i == 0 || was == l, "same-result")
		for _, r := range runs {
			sym.Assert(r == 1, "each-once")
		}
	}
	for i := range runs {
		var m *link
		sym.Assert(child.Find(&m, strconv.Itoa(i)) == nil && m != nil && m.n == i, "resolved")
	}
	for _, r := range runs {
		sym.Assert(r == 1, "each-once")
	}
}

type iface interface{ I() int }

func (a *A) I() int { return a.id }

// Provider functions with results of every form (several, a plain value, an interface, nil) run once per
// scope, however often and in whatever way their result is asked for.
//
//sym:covers several none
func H_results() {
	calls := 0
	made := &A{node{id: 1}}
	mk := func() *A { calls++; return made }
	parent := inject.New()
	child := inject.New().SetParent(parent)
	to := []inject.Injector{parent, child}[sym.Choose("level", 2)]
	form := sym.Choose("form", 9)
	var isA, isValue, isNil bool
	switch form {
	case 0:
		to.Provide(func() *A { return mk() })
		isA = true
	case 1:
		sym.Cover("several")
		to.Provide(func() (*A, error) { return mk(), nil })
		isA = true
	case 2:
		sym.Cover("several")
		to.Provide(func() (*A, int, *B) { return mk(), 3, nil })
		isA = true
	case 3:
		to.Provide(func() A { return *mk() })
		isA, isValue = true, true
	case 4:
		sym.Cover("several")
		to.Provide(func() (A, bool) { return *mk(), false })
		isA, isValue = true, true
	case 5:
		sym.Cover("none")
		to.Provide(func() *A { mk(); return nil })
		isA, isNil = true, true
	case 6:
		to.Provide(func() iface { return mk() })
	case 7:
		sym.Cover("several")
		to.Provide(inject.Provide{func() (iface, error) { return mk(), nil }})
	case 8:
		to.ProvideAs(func() (*A, error) { return mk(), nil }, (*iface)(nil))
	}
	inj := []inject.Injector{child, to}[sym.Choose("asker", 2)]
	for i, n := 0, 1+sym.Choose("times", 3); i < n; i++ {
		way := sym.Choose("way", 3)
		var got *A
		var val A
		var itf iface
		switch {
		case !isA && way == 0:
			sym.Assert(inj.Find(&itf) == nil, "found")
		case !isA && way == 1:
			_, err := inj.Invoke(func(x iface) { itf = x })
			sym.Assert(err == nil, "invoked")
		case !isA:
			s := struct {
				X iface `inject`
			}{}
			sym.Assert(inj.Apply(&s) == nil, "applied")
			itf = s.X
		case isValue && way == 0:
			sym.Assert(inj.Find(&val) == nil, "found")
		case isValue && way == 1:
			_, err := inj.Invoke(func(x A) { val = x })
			sym.Assert(err == nil, "invoked")
		case isValue:
			s := struct {
				X A `inject`
			}{}
			sym.Assert(inj.Apply(&s) == nil, "applied")
			val = s.X
		case way == 0:
			sym.Assert(inj.Find(&got) == nil, "found")
		case way == 1:
			_, err := inj.Invoke(func(x *A) { got = x })
			sym.Assert(err == nil, "invoked")
		default:
			s := struct {
				X *A `inject`
				Y *A `inject`
			}{}
			sym.Assert(inj.Apply(&s) == nil, "applied")
			got = s.X
			sym.Assert(s.Y == s.X, "same-result")
		}
		sym.Assert(calls == 1, "provider-not-called-once")
		switch {
		case !isA:
			sym.Assert(itf == iface(made), "same-result")
		case isValue:
			sym.Assert(val.id == 1, "same-result")
		case isNil:
			sym.Assert(got == nil, "same-result")
		default:
			sym.Assert(got == made, "same-result")
		}
	}
}

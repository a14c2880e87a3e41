package h

import (
	"github.com/wujiu2020/strip/inject"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds chains of up to 3 injectors, 12 types (named, local to different functions, unnamed, interfaces, pointers to pointers), names of 0..2 arbitrary bytes; 2 (thorough 3) provide operations with any two types, 4 (5) provide or resolve operations with two types and two names; chains of two with one type and name: 6 (8) operations; then any lookup by Find, by a function argument or by Apply; Exists after up to 2 provisions of two types and two names over chains of up to 3
//sym:assume a result that a provider function computed for a scope stays in force there until the type is provided again in that same scope

type T struct{ N int }
type U struct{ N int }
type I interface{ Id() int }
type J interface{ Id() int }
type impl struct{ N int }

func (x *impl) Id() int { return x.N }

type kind struct {
	val  func(inj inject.Injector, id int, name string)             // provide a value
	fun  func(inj inject.Injector, id int, name string)             // provide a function
	find func(inj inject.Injector, name string) (id int, err error) // Find
	arg  func(inj inject.Injector, name string) (id int, err error) // argument of an invoked function
	app  func(inj inject.Injector, named bool) (id int, err error)  // field of an applied struct
}

func call(inj inject.Injector, name string, f interface{}) error {
	_, err := inj.Invoke(inject.Provide{inject.Dep{0: name}, f})
	return err
}

func one() kind {
	type L struct{ N int }
	return kind{
		val: func(inj inject.Injector, id int, name string) { inj.ProvideAs(&L{id}, nil, name) },
		fun: func(inj inject.Injector, id int, name string) {
			inj.ProvideAs(func() *L { return &L{id} }, nil, name)
		},
		find: func(inj inject.Injector, name string) (int, error) {
			x := L{-1}
			err := inj.Find(&x, name)
			return x.N, err
		},
		arg: func(inj inject.Injector, name string) (int, error) {
			id := -1
			err := call(inj, name, func(x *L) { id = x.N })
			return id, err
		},
		app: func(inj inject.Injector, named bool) (int, error) {
			x := &L{-1}
			if named {
				s := struct {
					X *L `inject:"n"`
				}{x}
				err := inj.Apply(&s)
				return s.X.N, err
			}
			s := struct {
				X *L `inject`
			}{x}
			err := inj.Apply(&s)
			return s.X.N, err
		},
	}
}

func two() kind {
	type L struct{ N int }
	return kind{
		val: func(inj inject.Injector, id int, name string) { inj.ProvideAs(&L{id}, nil, name) },
		fun: func(inj inject.Injector, id int, name string) {
			inj.ProvideAs(func() *L { return &L{id} }, nil, name)
		},
		find: func(inj inject.Injector, name string) (int, error) {
			x := &L{-1}
			err := inj.Find(&x, name)
			return x.N, err
		},
		arg: func(inj inject.Injector, name string) (int, error) {
			id := -1
			err := call(inj, name, func(x *L) { id = x.N })
			return id, err
		},
	}
}

var kinds = []kind{
	{ // 0: struct, by pointer
		val: func(inj inject.Injector, id int, name string) { inj.ProvideAs(&T{id}, nil, name) },
		fun: func(inj inject.Injector, id int, name string) { inj.ProvideAs(func() *T { return &T{id} }, nil, name) },
		find: func(inj inject.Injector, name string) (int, error) {
			x := &T{-1}
			err := inj.Find(&x, name)
			return x.N, err
		},
		arg: func(inj inject.Injector, name string) (int, error) {
			id := -1
			err := call(inj, name, func(x *T) { id = x.N })
			return id, err
		},
		app: func(inj inject.Injector, named bool) (int, error) {
			if named {
				s := struct {
					X *T `inject:"n"`
				}{&T{-1}}
				err := inj.Apply(&s)
				return s.X.N, err
			}
			s := struct {
				X *T `inject`
			}{&T{-1}}
			err := inj.Apply(&s)
			return s.X.N, err
		},
	},
	{ // 1: another struct, received by value
		val: func(inj inject.Injector, id int, name string) { inj.Provide(inject.Object{Value: &U{id}, Name: name}) },
		fun: func(inj inject.Injector, id int, name string) {
			inj.Provide(&inject.Object{Value: func() U { return U{id} }, Name: name})
		},
		find: func(inj inject.Injector, name string) (int, error) {
			x := U{-1}
			err := inj.Find(&x, name)
			return x.N, err
		},
		arg: func(inj inject.Injector, name string) (int, error) {
			id := -1
			err := call(inj, name, func(x U) { id = x.N })
			return id, err
		},
		app: func(inj inject.Injector, named bool) (int, error) {
			if named {
				s := struct {
					X U `inject:"n"`
				}{U{-1}}
				err := inj.Apply(&s)
				return s.X.N, err
			}
			s := struct {
				X U `inject`
			}{U{-1}}
			err := inj.Apply(&s)
			return s.X.N, err
		},
	},
	one(), // 2, 3: types of the same name, local to different functions
	two(),
	{ // 4: a slice
		val: func(inj inject.Injector, id int, name string) { inj.ProvideAs(&[]int{id}, nil, name) },
		fun: func(inj inject.Injector, id int, name string) {
			inj.ProvideAs(func() []int { return []int{id} }, nil, name)
		},
		find: func(inj inject.Injector, name string) (int, error) {
			x := []int{-1}
			err := inj.Find(&x, name)
			return x[0], err
		},
		arg: func(inj inject.Injector, name string) (int, error) {
			id := -1
			err := call(inj, name, func(x []int) { id = x[0] })
			return id, err
		},
	},
	{ // 5: a map
		val: func(inj inject.Injector, id int, name string) { inj.ProvideAs(&map[string]int{"": id}, nil, name) },
		fun: func(inj inject.Injector, id int, name string) {
			inj.ProvideAs(func() map[string]int { return map[string]int{"": id} }, nil, name)
		},
		find: func(inj inject.Injector, name string) (int, error) {
			x := map[string]int{"": -1}
			err := inj.Find(&x, name)
			return x[""], err
		},
		arg: func(inj inject.Injector, name string) (int, error) {
			id := -1
			err := call(inj, name, func(x map[string]int) { id = x[""] })
			return id, err
		},
	},
	{ // 6: a function
		val: func(inj inject.Injector, id int, name string) {
			f := func() int { return id }
			inj.ProvideAs(&f, nil, name)
		},
		fun: func(inj inject.Injector, id int, name string) {
			inj.ProvideAs(func() func() int { return func() int { return id } }, nil, name)
		},
		find: func(inj inject.Injector, name string) (int, error) {
			x := func() int { return -1 }
			err := inj.Find(&x, name)
			return x(), err
		},
		arg: func(inj inject.Injector, name string) (int, error) {
			id := -1
			err := call(inj, name, func(x func() int) { id = x() })
			return id, err
		},
	},
	{ // 7: an interface
		val: func(inj inject.Injector, id int, name string) { inj.ProvideAs(&impl{id}, (*I)(nil), name) },
		fun: func(inj inject.Injector, id int, name string) {
			inj.ProvideAs(func() I { return &impl{id} }, nil, name)
		},
		find: func(inj inject.Injector, name string) (int, error) {
			x := I(&impl{-1})
			err := inj.Find(&x, name)
			return x.Id(), err
		},
		arg: func(inj inject.Injector, name string) (int, error) {
			id := -1
			err := call(inj, name, func(x I) { id = x.Id() })
			return id, err
		},
		app: func(inj inject.Injector, named bool) (int, error) {
			if named {
				s := struct {
					X I `inject:"n"`
				}{&impl{-1}}
				err := inj.Apply(&s)
				return s.X.Id(), err
			}
			s := struct {
				X I `inject`
			}{&impl{-1}}
			err := inj.Apply(&s)
			return s.X.Id(), err
		},
	},
	{ // 8: another interface with the same methods, the function's result given as the interface
		val: func(inj inject.Injector, id int, name string) { inj.ProvideAs(&impl{id}, (*J)(nil), name) },
		fun: func(inj inject.Injector, id int, name string) {
			inj.ProvideAs(func() *impl { return &impl{id} }, (*J)(nil), name)
		},
		find: func(inj inject.Injector, name string) (int, error) {
			x := J(&impl{-1})
			err := inj.Find(&x, name)
			return x.Id(), err
		},
		arg: func(inj inject.Injector, name string) (int, error) {
			id := -1
			err := call(inj, name, func(x J) { id = x.Id() })
			return id, err
		},
	},
	{ // 9: the implementation itself
		val: func(inj inject.Injector, id int, name string) { inj.ProvideAs(&impl{id}, nil, name) },
		fun: func(inj inject.Injector, id int, name string) {
			inj.ProvideAs(func() *impl { return &impl{id} }, nil, name)
		},
		find: func(inj inject.Injector, name string) (int, error) {
			x := &impl{-1}
			err := inj.Find(&x, name)
			return x.N, err
		},
		arg: func(inj inject.Injector, name string) (int, error) {
			id := -1
			err := call(inj, name, func(x *impl) { id = x.N })
			return id, err
		},
	},
	{ // 10: a basic type
		val:  func(inj inject.Injector, id int, name string) { inj.ProvideAs(&id, nil, name) },
		fun:  func(inj inject.Injector, id int, name string) { inj.ProvideAs(func() int { return id }, nil, name) },
		find: func(inj inject.Injector, name string) (int, error) { x := -1; err := inj.Find(&x, name); return x, err },
		arg: func(inj inject.Injector, name string) (int, error) {
			id := -1
			err := call(inj, name, func(x int) { id = x })
			return id, err
		},
	},
	{ // 11: an array
		val: func(inj inject.Injector, id int, name string) { inj.ProvideAs(&[1]int{id}, nil, name) },
		fun: func(inj inject.Injector, id int, name string) {
			inj.ProvideAs(func() [1]int { return [1]int{id} }, nil, name)
		},
		find: func(inj inject.Injector, name string) (int, error) {
			x := [1]int{-1}
			err := inj.Find(&x, name)
			return x[0], err
		},
		arg: func(inj inject.Injector, name string) (int, error) {
			id := -1
			err := call(inj, name, func(x [1]int) { id = x[0] })
			return id, err
		},
	},
}

func chain(n int) []inject.Injector {
	c := []inject.Injector{inject.New()}
	for i := 1; i < n; i++ {
		c = append(c, inject.New().SetParent(c[i-1]))
	}
	return c
}

type entry struct {
	level, kind, id int
	name            string
	fun             bool
}

func lookup(c []inject.Injector, level, kind int, name string) (int, error) {
	k := kinds[kind]
	ways := 2
	if k.app != nil && name == "n" || k.app != nil && name == "" {
		ways = 3
	}
	switch sym.Choose("way", ways) {
	case 0:
		return k.find(c[level], name)
	case 1:
		return k.arg(c[level], name)
	}
	return k.app(c[level], name != "")
}

// Two types, any names: neither ever answers for the other.
//
//sym:covers found missing
func H_types() {
	depth := 1 + sym.Choose("depth", 2)
	c := chain(depth)
	var es []entry
	n := 1 + sym.Choose("provided", sym.Bound(2, 3))
	for i := 0; i < n; i++ {
		e := entry{level: sym.Choose("level", depth), id: i + 1, fun: sym.Choose("fun", 2) == 1}
		if i < 2 {
			e.kind = sym.Choose("type", len(kinds))
		} else {
			e.kind = es[sym.Choose("again", 2)].kind
		}
		if i == 0 {
			e.name = sym.String("name", sym.Choose("len", 2))
		} else if e.name = es[0].name; i == 1 && sym.Choose("othername", 2) == 1 {
			e.name = sym.String("name", sym.Choose("len", 2))
		}
		if e.fun {
			kinds[e.kind].fun(c[e.level], e.id, e.name)
		} else {
			kinds[e.kind].val(c[e.level], e.id, e.name)
		}
		es = append(es, e)
	}
	// the lookup: the first type provided or, when it is the only one, any other
	k := es[0].kind
	if n == 1 {
		k = sym.Choose("lookup", len(kinds))
	}
	name := es[0].name
	if sym.Choose("othername", 2) == 1 {
		name = sym.String("lookupname", sym.Choose("len", 3))
	}
	want := -1
	for l := depth - 1; l >= 0 && want < 0; l-- {
		for _, e := range es {
			if e.level == l && e.kind == k && e.name == name {
				want = e.id
			}
		}
	}
	got, err := lookup(c, depth-1, k, name)
	sym.Assert(got == want, "wrong-provider")
	sym.Assert((err != nil) == (want < 0), "error-exactly-when-missing")
	if want < 0 {
		sym.Cover("missing")
	} else {
		sym.Cover("found")
	}
}

// Histories over few types and names on a chain of three.
//
//sym:covers found missing shadowed replaced
func H_histories() {
	c := chain(3)
	ks := [][2]int{{0, 1}, {7, 9}, {4, 5}}[sym.Choose("types", sym.Bound(3, 1))]
	names := []string{"", "n"}
	type key struct {
		kind int
		name string
	}
	prov := [3]map[key]entry{{}, {}, {}}
	cache := [3]map[key]entry{{}, {}, {}}
	resolve := func(level int, k key) {
		want, err := -1, error(nil)
		var by entry
		at := -1
		for l := level; l >= 0; l-- {
			if e, ok := prov[l][k]; ok {
				by, want, at = e, e.id, l
				break
			}
		}
		for l := at - 1; l >= 0; l-- {
			if _, ok := prov[l][k]; ok {
				sym.Cover("shadowed")
			}
		}
		if old, ok := cache[level][k]; ok && old.id != by.id {
			return // replaced in a parent after this scope computed its own: either is fine
		}
		var got int
		got, err = lookup(c, level, k.kind, k.name)
		sym.Assert(got == want, "wrong-provider")
		sym.Assert((err != nil) == (want < 0), "error-exactly-when-missing")
		if want >= 0 {
			sym.Cover("found")
			if by.fun {
				cache[level][k] = by
			}
		} else {
			sym.Cover("missing")
		}
	}
	pick := func() (int, key) {
		return sym.Choose("level", 3), key{ks[sym.Choose("type", 2)], names[sym.Choose("name", 2)]}
	}
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		level, k := pick()
		if i == n-1 {
			resolve(2, k)
			return
		}
		op := sym.Choose("op", 3)
		if op == 2 {
			resolve(level, k)
			continue
		}
		if _, ok := prov[level][k]; ok {
			sym.Cover("replaced")
		}
		e := entry{id: i + 1, fun: op == 1}
		prov[level][k] = e
		delete(cache[level], k)
		if e.fun {
			kinds[k.kind].fun(c[level], e.id, k.name)
		} else {
			kinds[k.kind].val(c[level], e.id, k.name)
		}
	}
}

// Longer histories of one type and name on a chain of two.
//
//sym:covers found missing replaced
func H_longer() {
	c := chain(2)
	name := []string{"", "n"}[sym.Choose("name", 2)]
	var prov, cache [2]*entry
	for i, n := 0, sym.Bound(6, 8); i < n; i++ {
		level, op := sym.Choose("level", 2), 2
		if i < n-1 {
			op = sym.Choose("op", 3)
		}
		if op < 2 {
			if prov[level] != nil {
				sym.Cover("replaced")
			}
			prov[level], cache[level] = &entry{id: i + 1, fun: op == 1}, nil
			if op == 1 {
				kinds[0].fun(c[level], i+1, name)
			} else {
				kinds[0].val(c[level], i+1, name)
			}
			continue
		}
		by := prov[level]
		if by == nil {
			by = prov[0]
		}
		got, err := kinds[0].find(c[level], name)
		if cache[level] != nil && cache[level] != by {
			continue // replaced in the parent after this scope computed its own: either is fine
		}
		sym.Assert((err != nil) == (by == nil), "error-exactly-when-missing")
		if by == nil {
			sym.Assert(got == -1, "target-touched")
			sym.Cover("missing")
			continue
		}
		sym.Assert(got == by.id, "wrong-provider")
		sym.Cover("found")
		if by.fun {
			cache[level] = by
		}
	}
}

// Asking whether something is provided answers like a lookup, without running a provider.
//
//sym:covers value function missing
func H_exists() {
	c := chain(1 + sym.Choose("depth", 3))
	names := []string{"", sym.String("name", 1)}
	ran := 0
	type at struct {
		id  int
		fun bool
	}
	last := make([]map[string]at, len(c))
	for i := range last {
		last[i] = map[string]at{}
	}
	for i, n := 1, sym.Choose("provided", 3); i <= n; i++ {
		id, l, name := i, sym.Choose("level", len(c)), names[sym.Choose("named", 2)]
		fun := false
		switch sym.Choose("kind", 4) {
		case 0:
			c[l].ProvideAs(&T{id}, nil, name)
		case 1:
			fun = true
			c[l].ProvideAs(func() *T { ran++; return &T{id} }, nil, name)
		case 2: // another type
			c[l].ProvideAs(&U{id}, nil, name)
			continue
		case 3:
			c[l].ProvideAs(func() (*T, error) { ran++; return &T{id}, nil }, nil, name)
			fun = true
		}
		last[l][name] = at{id, fun}
	}
	name := names[sym.Choose("ask", 2)]
	level := sym.Choose("from", len(c))
	want, in := at{}, false
	for l := level; l >= 0 && !in; l-- {
		want, in = last[l][name]
	}
	mine := &T{-1}
	x := mine
	err := c[level].Exists(&x, name)
	sym.Assert(ran == 0, "provider-run-by-asking")
	sym.Assert((err == nil) == in, "error-exactly-when-missing")
	switch {
	case !in:
		sym.Cover("missing")
		sym.Assert(x == mine && x.N == -1, "target-changed")
	case want.fun:
		sym.Cover("function")
		sym.Assert(x == mine && x.N == -1, "target-changed")
	default:
		sym.Cover("value")
		sym.Assert(x.N == want.id, "wrong-provider")
	}
	// asking changes nothing for the lookup after it
	y := &T{-1}
	err = c[level].Find(&y, name)
	sym.Assert((err == nil) == in && (!in || y.N == want.id), "lookup-after-asking")
}

package h

import (
	"bytes"
	"context"
	"io"
	"strconv"
	"time"

	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds chains of up to 3 (thorough 4) stored values of 10 types (structs, named basic types, named and unnamed slices, maps, functions and structs, interfaces, local types of the same name), stored by pointer or pointer to pointer, with and without an extra name, looked up by either; up to 129 (thorough 513) named values in one context
//sym:assume values are stored and looked up through non-nil pointers

type (
	one   struct{ N int }
	two   struct{ N int }
	num   int
	list  []int
	other []int
)

// box stores, and looks up, values of one type.
type box struct {
	name  string
	put   func(ctx context.Context, n int, ptr bool, extra []string) context.Context
	find  func(ctx context.Context, ptr bool, extra []string) (got int, touched bool, err error)
	ident bool
}

func localType() box {
	type one struct{ N int }
	return box{"local one",
		func(ctx context.Context, n int, ptr bool, extra []string) context.Context {
			v := &one{n}
			if ptr {
				return utils.CtxWithValue(ctx, &v, extra...)
			}
			return utils.CtxWithValue(ctx, v, extra...)
		},
		func(ctx context.Context, ptr bool, extra []string) (int, bool, error) {
			v := one{-7}
			p := &v
			var err error
			if ptr {
				err = utils.CtxFindValue(ctx, &p, extra...)
				return p.N, p != &v || v.N != -7, err
			}
			err = utils.CtxFindValue(ctx, &v, extra...)
			return v.N, v.N != -7, err
		}, true}
}

var boxes = []box{
	{"one",
		func(ctx context.Context, n int, ptr bool, extra []string) context.Context {
			v := &one{n}
			if ptr {
				return utils.CtxWithValue(ctx, &v, extra...)
			}
			return utils.CtxWithValue(ctx, v, extra...)
		},
		func(ctx context.Context, ptr bool, extra []string) (int, bool, error) {
			v := one{-7}
			p := &v
			var err error
			if ptr {
				err = utils.CtxFindValue(ctx, &p, extra...)
				return p.N, p != &v || v.N != -7, err
			}
			err = utils.CtxFindValue(ctx, &v, extra...)
			return v.N, v.N != -7, err
		}, true},
	{"two",
		func(ctx context.Context, n int, ptr bool, extra []string) context.Context {
			v := &two{n}
			if ptr {
				return utils.CtxWithValue(ctx, &v, extra...)
			}
			return utils.CtxWithValue(ctx, v, extra...)
		},
		func(ctx context.Context, ptr bool, extra []string) (int, bool, error) {
			v := two{-7}
			p := &v
			var err error
			if ptr {
				err = utils.CtxFindValue(ctx, &p, extra...)
				return p.N, p != &v || v.N != -7, err
			}
			err = utils.CtxFindValue(ctx, &v, extra...)
			return v.N, v.N != -7, err
		}, true},
	localType(),
	{"num",
		func(ctx context.Context, n int, ptr bool, extra []string) context.Context {
			v := num(n)
			return utils.CtxWithValue(ctx, &v, extra...)
		},
		func(ctx context.Context, ptr bool, extra []string) (int, bool, error) {
			v := num(-7)
			err := utils.CtxFindValue(ctx, &v, extra...)
			return int(v), v != -7, err
		}, false},
	{"list",
		func(ctx context.Context, n int, ptr bool, extra []string) context.Context {
			v := list{n}
			return utils.CtxWithValue(ctx, &v, extra...)
		},
		func(ctx context.Context, ptr bool, extra []string) (int, bool, error) {
			v := list{-7}
			err := utils.CtxFindValue(ctx, &v, extra...)
			return v[0], v[0] != -7, err
		}, false},
	{"other",
		func(ctx context.Context, n int, ptr bool, extra []string) context.Context {
			v := other{n}
			return utils.CtxWithValue(ctx, &v, extra...)
		},
		func(ctx context.Context, ptr bool, extra []string) (int, bool, error) {
			v := other{-7}
			err := utils.CtxFindValue(ctx, &v, extra...)
			return v[0], v[0] != -7, err
		}, false},
	{"[]int",
		func(ctx context.Context, n int, ptr bool, extra []string) context.Context {
			v := []int{n}
			return utils.CtxWithValue(ctx, &v, extra...)
		},
		func(ctx context.Context, ptr bool, extra []string) (int, bool, error) {
			v := []int{-7}
			err := utils.CtxFindValue(ctx, &v, extra...)
			return v[0], v[0] != -7, err
		}, false},
	{"map",
		func(ctx context.Context, n int, ptr bool, extra []string) context.Context {
			v := map[string]int{"n": n}
			return utils.CtxWithValue(ctx, &v, extra...)
		},
		func(ctx context.Context, ptr bool, extra []string) (int, bool, error) {
			v := map[string]int{"n": -7}
			err := utils.CtxFindValue(ctx, &v, extra...)
			return v["n"], v["n"] != -7, err
		}, false},
	{"struct{N int}",
		func(ctx context.Context, n int, ptr bool, extra []string) context.Context {
			v := struct{ N int }{n}
			return utils.CtxWithValue(ctx, &v, extra...)
		},
		func(ctx context.Context, ptr bool, extra []string) (int, bool, error) {
			v := struct{ N int }{-7}
			err := utils.CtxFindValue(ctx, &v, extra...)
			return v.N, v.N != -7, err
		}, false},
	{"func() int",
		func(ctx context.Context, n int, ptr bool, extra []string) context.Context {
			v := func() int { return n }
			return utils.CtxWithValue(ctx, &v, extra...)
		},
		func(ctx context.Context, ptr bool, extra []string) (int, bool, error) {
			v := func() int { return -7 }
			err := utils.CtxFindValue(ctx, &v, extra...)
			return v(), v() != -7, err
		}, false},
	{"io.Reader",
		func(ctx context.Context, n int, ptr bool, extra []string) context.Context {
			var v io.Reader = bytes.NewReader(make([]byte, n))
			return utils.CtxWithValue(ctx, &v, extra...)
		},
		func(ctx context.Context, ptr bool, extra []string) (int, bool, error) {
			var v io.Reader
			err := utils.CtxFindValue(ctx, &v, extra...)
			if v == nil {
				return 0, false, err
			}
			return v.(*bytes.Reader).Len(), true, err
		}, false},
	{"time.Time",
		func(ctx context.Context, n int, ptr bool, extra []string) context.Context {
			v := time.Unix(int64(n), 0)
			return utils.CtxWithValue(ctx, &v, extra...)
		},
		func(ctx context.Context, ptr bool, extra []string) (int, bool, error) {
			v := time.Unix(-7, 0)
			err := utils.CtxFindValue(ctx, &v, extra...)
			return int(v.Unix()), v.Unix() != -7, err
		}, false},
}

// extra draws an extra name; none and "" are the same.
func extra(l string, kinds int) (name string, args []string) {
	switch sym.Choose(l, kinds) {
	case 1:
		name = sym.StringOf(l, 1, "xX:")
		return name, []string{name}
	case 2:
		return "", []string{""}
	}
	return "", nil
}

// Values of several types in one context.
//
//sym:covers found missing shadowed named
func H_chain() {
	n := sym.Choose("values", sym.Bound(3, 4))
	nk := sym.Bound(2, 3)
	if n == 3 {
		nk = 2
	}
	ctx := context.Background()
	kinds := make([]int, n)
	names := make([]string, n)
	vals := make([]int, n)
	for i := range kinds {
		kinds[i] = sym.Choose("type", len(boxes))
		var args []string
		names[i], args = extra("name", nk)
		vals[i] = sym.IntRange("value", 0, 5)
		if boxes[kinds[i]].name == "io.Reader" {
			vals[i] = sym.ConcreteInt(vals[i])
		}
		ctx = boxes[kinds[i]].put(ctx, vals[i], boxes[kinds[i]].ident && sym.Choose("pointer", 2) == 1, args)
		if i == 0 && sym.Choose("between", 2) == 1 {
			var cancel func()
			ctx, cancel = context.WithCancel(context.WithValue(ctx, "key", i))
			defer cancel()
		}
	}
	k := sym.Choose("looked up", len(boxes))
	name, args := extra("looked up name", nk)
	want, ok := 0, false
	for i := range kinds {
		if kinds[i] == k && names[i] == name {
			if ok {
				sym.Cover("shadowed")
			}
			want, ok = vals[i], true
		}
	}
	got, touched, err := boxes[k].find(ctx, boxes[k].ident && sym.Choose("by pointer", 2) == 1, args)
	if ok {
		sym.Cover("found")
		if name != "" {
			sym.Cover("named")
		}
		sym.Assert(err == nil && got == want, "stored-value")
		sym.Assert(touched, "stored-value-set")
		return
	}
	sym.Cover("missing")
	sym.Assert(err == utils.CtxValueNotFound, "not-found")
	sym.Assert(!touched, "target-untouched")
	sym.Assert(sym.Panics(func() {
		var o one
		utils.MustCtxFindValue(ctx, &o, "no such name")
	}), "must-panics")
}

// What is found is the stored value itself, or a copy for a plain target; nil pointers leave the target.
func H_identity() {
	ctx := context.Background()
	n := sym.Int("n")
	v := &one{n}
	asPtr := sym.Choose("stored", 2) == 1
	if asPtr {
		ctx = utils.CtxWithValue(ctx, &v)
	} else {
		ctx = utils.CtxWithValue(ctx, v)
	}
	switch sym.Choose("target", 3) {
	case 0:
		var p *one
		utils.MustCtxFindValue(ctx, &p)
		sym.Assert(p == v && p.N == n, "same-pointer")
		sym.Assert(utils.CtxFindValue(context.Background(), &p) == utils.CtxValueNotFound && p == v, "target-untouched")
	case 1:
		var o one
		utils.MustCtxFindValue(ctx, &o)
		sym.Assert(o.N == n, "copied")
		o.N++
		sym.Assert(v.N == n, "original-kept")
	case 2:
		var none *one
		if asPtr {
			ctx = utils.CtxWithValue(context.Background(), &none)
		} else {
			ctx = utils.CtxWithValue(context.Background(), none)
		}
		o := one{3}
		p := &o
		if sym.Choose("by pointer", 2) == 1 {
			err := utils.CtxFindValue(ctx, &p)
			sym.Assert(err == nil && (p == nil || p == &o), "nil-value")
		} else {
			err := utils.CtxFindValue(ctx, &o)
			sym.Assert(err == nil, "nil-value")
		}
		sym.Assert(o.N == 3, "nil-leaves-target")
	}
}

// Many values in one context, each found under its own name.
func H_many() {
	n := hx.Size("values", 4, sym.Bound(129, 513))
	ctx := context.Background()
	for i := 0; i < n; i++ {
		v := one{i}
		ctx = utils.CtxWithValue(ctx, &v, "n"+strconv.Itoa(i))
		if i%4 == 3 {
			w := two{i}
			ctx = utils.CtxWithValue(ctx, &w)
		}
	}
	for _, i := range []int{0, 1, n / 2, n - 1} {
		v := one{-1}
		sym.Assert(utils.CtxFindValue(ctx, &v, "n"+strconv.Itoa(i)) == nil && v.N == i, "own-value")
	}
	v := one{-1}
	sym.Assert(utils.CtxFindValue(ctx, &v, "n"+strconv.Itoa(n)) != nil && v.N == -1, "never-stored")
	w := two{-1}
	sym.Assert(utils.CtxFindValue(ctx, &w) == nil && w.N == (n-4)/4*4+3, "last-stored")
}

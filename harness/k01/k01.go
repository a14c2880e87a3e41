package h

import (
	"strconv"
	"strings"

	"github.com/wujiu2020/strip/caches"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/kv"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:stubs gomemcache radix.v2 mgo
//sym:bounds every history of up to 3 (thorough 4) operations (set, get, has, touch, delete, GC, and clean as the last) over two keys of 1..2 symbolic characters that may be equal, with at most one backend command failing, before or after taking effect, at any place; values: texts and byte slices of 0..2 arbitrary bytes, int64 in full, bool; a prefix with the same text among the keys, and an entry of someone else's outside the prefix; values of up to 65537 bytes and up to 65 (thorough 257) entries, of the sizes next to powers of two and round numbers
//sym:assume the backend follows its documented protocol (in-memory models of memcached, Redis and one MongoDB collection in /verif/stubs); keys are legal for the backend; values are of the kinds above; no timeout runs out

type slot struct {
	key, val string
	set      bool
}

type model struct{ s [2]slot }

func (m *model) at(k string) *slot {
	for i := range m.s {
		if m.s[i].set && m.s[i].key == k {
			return &m.s[i]
		}
	}
	return nil
}

func (m *model) put(k, v string) {
	if e := m.at(k); e != nil {
		e.val = v
		return
	}
	for i := range m.s {
		if !m.s[i].set {
			m.s[i] = slot{k, v, true}
			return
		}
	}
}

func value() (interface{}, string) {
	switch sym.Choose("kind", 4) {
	case 0:
		s := sym.String("text", sym.Choose("len", 3))
		return s, s
	case 1:
		s := sym.String("bytes", sym.Choose("len", 2))
		return []byte(s), s
	case 2:
		n := sym.Int64("number")
		sym.Assume(sym.Or(n > -100, n == -1<<63))
		sym.Assume(n < 1000)
		return n, strconv.FormatInt(n, 10)
	}
	b := sym.Bool("flag")
	if b {
		return b, "true"
	}
	return b, "false"
}

func last(l bool, no, yes int) int {
	if l {
		return yes
	}
	return no
}

func failed(err error) bool { return err != nil && err != caches.ErrMissedKey }

// check compares what get and has say with the model.
func check(b *kv.Backend, m *model, k, label string) {
	v, err := b.Get(k)
	has, herr := b.Has(k)
	sym.Assert(herr == nil, label+"-has-error")
	if e := m.at(k); e != nil {
		sym.Assert(err == nil && has, label+"-present")
		sym.Assert(string(v) == e.val, label+"-value")
	} else {
		sym.Assert(err == caches.ErrMissedKey && !has, label+"-miss")
	}
}

func history(kind int) {
	b := kv.New(kind, [][]string{{"p:", ""}, {"p:", ""}, {"", "key"}}[kind][sym.Choose("prefix", 2)])
	const alpha = "!a:pz~"
	keys := []string{sym.StringOf("key", 1, alpha), sym.StringOf("key", 1+sym.Choose("keylen", 2), alpha)}
	foreign := ""
	if kind != kv.Mgo && b.Prefix == "p:" {
		foreign = keys[0]
		sym.Assume(foreign != b.Prefix+keys[0])
		sym.Assume(foreign != b.Prefix+keys[1])
		b.Put(foreign, "theirs", 1000)
	}
	b.Strayed = false
	m := &model{}
	n := sym.Bound(3, 4)
	bad := sym.Choose("fails", n+1)  // the operation hit by a failure, n for none
	cleaned, drawn := false, bad < n // with a failure, the values do not matter
	for i := 0; i < n; i++ {
		if i == bad {
			b.FailAt = 1 + sym.Choose("command", 2)
			b.After = sym.Choose("after", 2) == 1
		}
		k := keys[sym.Choose("which", 2)]
		old := m.s
		prev := m.at(k)
		var want error
		if prev == nil {
			want = caches.ErrMissedKey
		}
		b.Failed = false
		var err error
		op := sym.Choose("op", last(i == n-1, 5, 7))
		switch op {
		case 0:
			var v interface{} = "w"
			text := "w"
			if !drawn {
				drawn = true
				v, text = value()
			}
			err = b.Set(k, v, 100)
			if !b.Failed {
				sym.Assert(err == nil, "set-error")
			}
			m.put(k, text)
		case 1:
			v, e := b.Get(k)
			err = e
			if b.Failed {
				sym.Assert(v == "", "get-value-on-failure")
			} else if prev != nil {
				sym.Assert(err == nil, "get-error")
				sym.Assert(string(v) == prev.val, "get-value")
			} else {
				sym.Assert(err == caches.ErrMissedKey, "get-miss")
			}
		case 2:
			has, e := b.Has(k)
			err = e
			if b.Failed {
				sym.Assert(!has, "has-on-failure")
			} else {
				sym.Assert(err == nil, "has-error")
				sym.Assert(has == (prev != nil), "has-value")
			}
		case 3:
			err = b.Touch(k, 200)
			if !b.Failed {
				sym.Assert(err == want, "touch-result")
			}
		case 4:
			err = b.Delete(k)
			if !b.Failed {
				sym.Assert(err == want, "delete-result")
			}
			if prev != nil {
				*prev = slot{}
			}
		case 5:
			err = b.GC()
			if !b.Failed {
				sym.Assert(err == nil, "gc-error")
			}
		case 6:
			err = b.Clean()
			cleaned = true
			if !b.Failed {
				sym.Assert(err == nil, "clean-error")
			}
			m.s = [2]slot{}
		}
		b.FailAt = 0
		sym.Assert(!b.Strayed, "key-outside-prefix")
		sym.Assert(!b.Leaked(), "connection-leaked")
		if b.Failed {
			sym.Cover("failed")
			sym.Assert(failed(err), "failure-reported")
			// what the failed command did or did not do
			was := model{old}
			var x [2]kv.Entry
			var in [2]bool
			same, moved := true, true
			for j, k := range keys {
				x[j], in[j] = b.Find(k)
				o, nw := was.at(k), m.at(k)
				same = same && in[j] == (o != nil) && (o == nil || x[j].Value == o.val)
				moved = moved && in[j] == (nw != nil) && (nw == nil || x[j].Value == nw.val)
			}
			sym.Assert(same || moved, "failure-leaves-old-or-new")
			if same {
				m.s = old
			}
		}
	}
	sym.Cover("checked")
	for _, k := range keys {
		check(b, m, k, "end")
	}
	if foreign != "" && !cleaned {
		e, ok := b.Raw(foreign)
		sym.Assert(ok && e.Value == "theirs", "foreign-entry")
	}
}

//sym:covers checked failed
func H_memcache() { history(kv.Memcache) }

//sym:covers checked failed
func H_redis() { history(kv.Redis) }

//sym:covers checked failed
func H_mgo() { history(kv.Mgo) }

// Long values and keys, and many entries.
//
//sym:covers long many
func H_large() {
	kind := sym.Choose("backend", 3)
	b := kv.New(kind, "p:")
	if sym.Choose("what", 2) == 0 {
		sym.Cover("long")
		s, k := hx.Long("value", sym.Bound(65537, 65537), "\x00\r\n\xff"), "k"
		if sym.Choose("key", 2) == 1 && len(s) < 250-len("p:") {
			s, k = "v", strings.Map(func(r rune) rune {
				if r < 'a' || r > 'h' {
					return 'z'
				}
				return r
			}, s)
		}
		var v interface{} = s
		if sym.Choose("bytes", 2) == 1 {
			v = []byte(s)
		}
		sym.Assert(b.Set(k, v, 100) == nil && b.Set("other", "1", 100) == nil, "set-error")
		got, err := b.Get(k)
		sym.Assert(err == nil && string(got) == s, "get-value")
		_, err = b.Get(k + "x")
		sym.Assert(err == caches.ErrMissedKey, "get-miss")
		_, err = b.Get(k[:len(k)-1] + "_")
		sym.Assert(err == caches.ErrMissedKey, "get-miss")
		return
	}
	sym.Cover("many")
	n := hx.Size("entries", 4, sym.Bound(65, 257))
	for i := 0; i < n; i++ {
		sym.Assert(b.Set("k"+strconv.Itoa(i), i*3, 100) == nil, "set-error")
	}
	for i := 0; i < n; i += 3 {
		sym.Assert(b.Delete("k"+strconv.Itoa(i)) == nil, "delete-error")
	}
	for i := 0; i < n; i++ {
		got, err := b.Get("k" + strconv.Itoa(i))
		if i%3 == 0 {
			sym.Assert(err == caches.ErrMissedKey, "get-miss")
		} else {
			sym.Assert(err == nil && string(got) == strconv.Itoa(i*3), "get-value")
		}
	}
	sym.Assert(!b.Leaked(), "connection-given-back")
}

package h

import (
	"bufio"
	"errors"
	"net"
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds any sequence of up to 5 (thorough 6) operations on the response of one request: set a header, set a status (any of 200..999), write 0..2 arbitrary bytes, flush, register a before-hook that sets a header or a status, write beyond the point where the connection fails; up to 3 (4) hooks that set a status, write, flush or register another hook; up to 4 writes of a connection that fails after 0..4 bytes; spread over a filter before Next, the handler, and the filter after Next; pieces of up to 65537 bytes, up to 1025 (thorough 4097) pieces, up to 257 (1025) hooks, of the sizes next to powers of two and round numbers
//sym:assume informational (1xx) statuses are not used

type hijacker struct {
	*hx.Rec
	fail bool
	n    int
}

func (h *hijacker) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if h.fail {
		return nil, nil, errors.New("no")
	}
	h.n++
	return nil, nil, nil
}

type model struct {
	header    string
	status    int
	committed int
	sent      string
	body      []byte
	flushes   int
	hooks     []func()
	order     []int
}

func (m *model) commit() {
	if m.committed != 0 {
		return
	}
	for i := len(m.hooks) - 1; i >= 0; i-- {
		m.hooks[i]()
	}
	if m.status == 0 {
		m.status = 200
	}
	m.committed = m.status
	m.sent = m.header
}

const (
	opHeader = iota
	opStatus
	opWrite
	opFlush
	opHookHeader
	opHookStatus
	ops
)

//sym:covers committed-late hook flushed
func H_sequence() {
	m := &model{}
	var order []int
	rec := hx.NewRec()
	if sym.Thorough() && sym.Choose("fails", 2) == 1 {
		rec.FailAfter = 1
	}
	do := func(w http.ResponseWriter, i int) {
		rw := w.(strip.ResponseWriter)
		d := string(rune('0' + i))
		switch sym.Choose("op"+d, ops) {
		case opHeader:
			rw.Header().Set("X", d)
			m.header = d
		case opStatus:
			c := sym.IntRange("status"+d, 200, 999)
			rw.WriteHeader(c)
			if m.committed == 0 {
				m.status = c
			}
		case opWrite:
			b := []byte(sym.String("body"+d, sym.Choose("len"+d, 3)))
			n, err := rw.Write(b)
			m.commit()
			k := len(b)
			if rec.FailAfter >= 0 && len(m.body)+k > rec.FailAfter {
				k = rec.FailAfter - len(m.body)
			}
			m.body = append(m.body, b[:k]...)
			sym.Assert(n == k && (err != nil) == (k < len(b)), "write-result")
		case opFlush:
			rw.Flush()
			m.commit()
			m.flushes++
			sym.Cover("flushed")
		case opHookHeader:
			rw.Before(func(h strip.ResponseWriter) {
				order = append(order, i)
				h.Header().Set("X", "hook"+d)
			})
			if m.committed == 0 {
				m.hooks = append(m.hooks, func() { m.order = append(m.order, i); m.header = "hook" + d })
			}
		case opHookStatus:
			c := sym.IntRange("hookstatus"+d, 200, 999)
			rw.Before(func(h strip.ResponseWriter) {
				order = append(order, i)
				h.WriteHeader(c)
			})
			if m.committed == 0 {
				m.hooks = append(m.hooks, func() { m.order = append(m.order, i); m.status = c })
			}
		}
		sym.Assert(rw.Size() == len(m.body), "size")
		sym.Assert(rw.Written() == (m.status != 0), "written")
		sym.Assert(rw.Status() == m.status, "status-method")
		if m.committed == 0 {
			sym.Assert(len(rec.Codes) == 0, "status-sent-too-early")
		}
	}
	n := sym.Choose("n", sym.Bound(5, 6)+1)
	split := 0
	if n > 1 && sym.Choose("split", 2) == 1 {
		split = n / 2
	}
	app, _ := hx.App()
	app.Filter(func(ctx strip.Context, w http.ResponseWriter) {
		ctx.Next()
		for i := n - split; i < n; i++ {
			do(w, i)
		}
	})
	app.Routers(strip.Get(func(w http.ResponseWriter) {
		for i := 0; i < n-split; i++ {
			do(w, i)
		}
	}))
	app.ServeHTTP(rec, hx.Request("GET", "/"))
	if m.committed == 0 {
		sym.Cover("committed-late")
	}
	m.commit()
	if len(m.order) > 0 {
		sym.Cover("hook")
	}
	sym.Observe("code", rec.Code())
	sym.Observe("body", rec.Body)
	sym.Assert(len(rec.Codes) == 1, "one-status-commit")
	sym.Assert(rec.Codes[0] == m.committed, "last-status-before-the-commit")
	sym.Assert(rec.Early == 0, "body-or-flush-before-status")
	sym.Assert(len(order) == len(m.order), "hooks-once")
	for i := range order {
		sym.Assert(order[i] == m.order[i], "hooks-in-reverse-order")
	}
	sym.Assert(rec.Sent.Get("X") == m.sent, "header-sent")
	sym.Assert(string(rec.Body) == string(m.body), "body-bytes")
	sym.Assert(rec.Flushes == m.flushes, "flush-passed-on")
}

// A hijacked connection never gets a status from us; a failed hijack changes nothing.
func H_hijack() {
	h := &hijacker{hx.NewRec(), sym.Choose("fails", 2) == 1, 0}
	app, _ := hx.App()
	hooks := 0
	app.Routers(strip.Get(func(w http.ResponseWriter) {
		rw := w.(strip.ResponseWriter)
		if sym.Choose("hook", 2) == 1 {
			rw.Before(func(strip.ResponseWriter) { hooks++ })
		} else {
			hooks++
		}
		if sym.Choose("before", 2) == 1 {
			rw.WriteHeader(sym.IntRange("status", 200, 999))
		}
		_, _, err := rw.Hijack()
		sym.Assert((err != nil) == h.fail, "hijack-error")
	}))
	app.ServeHTTP(h, hx.Request("GET", "/"))
	sym.Assert(hooks == 1, "hooks-once")
	if h.fail {
		sym.Assert(len(h.Codes) == 1, "committed")
	} else {
		sym.Assert(len(h.Codes) == 0, "status-on-hijacked-connection")
	}
}

type leaver struct {
	*hx.Rec
	gone chan bool
}

func (l *leaver) CloseNotify() <-chan bool { return l.gone }

// A handler is told when the client leaves, and not before; asking writes nothing.
//
//sym:covers left stays
func H_leaving() {
	l := &leaver{hx.NewRec(), make(chan bool, 1)}
	app, _ := hx.App()
	leaves := sym.Choose("leaves", 2) == 1
	ran := 0
	app.Routers(strip.Get(func(w http.ResponseWriter) {
		ran++
		c := w.(http.CloseNotifier).CloseNotify()
		sym.Assert(len(l.Events) == 0, "asking-writes")
		select {
		case <-c:
			sym.Fail("told-too-early")
		default:
		}
		if leaves {
			l.gone <- true
		}
		select {
		case <-c:
			sym.Cover("left")
			sym.Assert(leaves, "told-without-cause")
		default:
			sym.Cover("stays")
			sym.Assert(!leaves, "never-told")
		}
	}))
	app.ServeHTTP(l, hx.Request("GET", "/"))
	sym.Assert(ran == 1, "handler-ran")
}

// Large bodies in many pieces, and many hooks.
//
//sym:covers large pieces hooks
func H_large() {
	rec := hx.NewRec()
	app, _ := hx.App()
	want, hooks := "", []int{}
	n := 0
	app.Routers(strip.Get(func(w http.ResponseWriter) {
		rw := w.(strip.ResponseWriter)
		rw.WriteHeader(201)
		switch sym.Choose("what", 3) {
		case 0:
			sym.Cover("large")
			for i, k := 0, 1+sym.Choose("twice", 2); i < k; i++ {
				s := strings.Repeat("x", 5000)
				if i == 0 {
					s = hx.Long("piece", 65537, "\x00\n\xff")
				}
				m, err := rw.Write([]byte(s))
				sym.Assert(m == len(s) && err == nil, "write-result")
				want += s
			}
		case 1:
			sym.Cover("pieces")
			for i, k := 0, hx.Size("pieces", 4, sym.Bound(1025, 4097)); i < k; i++ {
				b := []byte{byte('a' + i%26)}
				rw.Write(b)
				want += string(b)
				b[0] = '!' // what was written is not looked at again
			}
		case 2:
			sym.Cover("hooks")
			n = hx.Size("hooks", 4, sym.Bound(257, 1025))
			for i := 0; i < n; i++ {
				i := i
				rw.Before(func(strip.ResponseWriter) { hooks = append(hooks, i) })
			}
			rw.Write([]byte("x"))
			want = "x"
		}
		sym.Assert(rw.Size() == len(want), "size")
	}))
	app.ServeHTTP(rec, hx.Request("GET", "/"))
	sym.Assert(len(rec.Codes) == 1 && rec.Codes[0] == 201 && rec.Early == 0, "one-status-commit")
	sym.Assert(string(rec.Body) == want, "body-bytes")
	sym.Assert(len(hooks) == n, "hooks-once")
	for i, h := range hooks {
		sym.Assert(h == n-1-i, "hooks-in-reverse-order")
	}
}

// Hooks that write, flush or register others: all of them run once, before anything is sent.
//
//sym:covers writes flushes registers
func H_hooks() {
	rec := hx.NewRec()
	app, _ := hx.App()
	var order, want []int
	var body []byte
	status, codes, flushes := 0, map[int]int{}, 0
	n := 1 + sym.Choose("hooks", sym.Bound(3, 4))
	app.Routers(strip.Get(func(w http.ResponseWriter) {
		rw := w.(strip.ResponseWriter)
		var add func(i int)
		add = func(i int) {
			what := 0
			if i < n {
				what = sym.Choose("does"+string(rune('0'+i)), 5)
			}
			rw.Before(func(h strip.ResponseWriter) {
				order = append(order, i)
				sym.Assert(len(rec.Codes) == 0, "hook-after-commit")
				h.Header().Set("H"+string(rune('0'+i)), "1")
				switch what {
				case 1:
					codes[i] = sym.IntRange("status"+string(rune('0'+i)), 200, 999)
					h.WriteHeader(codes[i])
					status = codes[i]
				case 2:
					sym.Cover("writes")
					b := byte('a' + i)
					k, err := h.Write([]byte{b})
					sym.Assert(k == 1 && err == nil, "write-result")
				case 3:
					sym.Cover("flushes")
					h.Flush()
				case 4:
					sym.Cover("registers")
					add(i + 5)
				}
			})
			// all of them, the last one first, before the first byte
			if i >= n {
				want = append(want, i)
			}
		}
		for i := 0; i < n; i++ {
			add(i)
		}
		if sym.Choose("before", 2) == 1 {
			rw.WriteHeader(201)
			status = 201
		}
		if sym.Choose("by", 2) == 0 {
			rw.Write([]byte("x"))
			body = []byte("x")
		} else {
			rw.Flush()
			flushes = 1
		}
		rw.Header().Set("Late", "1")
		rw.WriteHeader(998)
		sym.Assert(rw.Written() && rw.Status() == rec.Code() && rw.Size() == len(rec.Body), "reported")
	}))
	app.ServeHTTP(rec, hx.Request("GET", "/"))
	_ = flushes
	if status == 0 {
		status = 200
	}
	sym.Assert(len(rec.Codes) == 1 && rec.Early == 0, "one-status-commit")
	sym.Assert(rec.Codes[0] == status, "last-status-before-the-commit")
	sym.Assert(len(order) == n+len(want), "hooks-once")
	last := n
	for _, i := range order {
		sym.Assert(rec.Sent.Get("H"+string(rune('0'+i))) == "1", "header-sent")
		if i < n {
			last--
			sym.Assert(i == last, "hooks-in-reverse-order")
		} else {
			sym.Assert(last == i-5, "registered-last-runs-next")
		}
	}
	sym.Assert(rec.Sent.Get("Late") == "", "header-sent")
	// what the hooks wrote, each after those before it have run, and then the handler's
	var all []byte
	for i := 0; i < n; i++ {
		for _, c := range rec.Body {
			if c == byte('a'+i) {
				all = append(all, c)
			}
		}
	}
	sym.Assert(string(rec.Body) == string(all)+string(body), "body-bytes")
}

// A connection that fails in the middle of a write: what it took is counted, and nothing else.
//
//sym:covers fails holds
func H_failing() {
	rec := hx.NewRec()
	rec.FailAfter = sym.Choose("after", 5)
	app, _ := hx.App()
	app.Routers(strip.Get(func(w http.ResponseWriter) {
		rw := w.(strip.ResponseWriter)
		sent := ""
		for i, n := 0, 1+sym.Choose("writes", 4); i < n; i++ {
			s := sym.String(string(rune('0'+i)), sym.Choose("len", 3))
			k := len(s)
			if len(sent)+k > rec.FailAfter {
				k = rec.FailAfter - len(sent)
			}
			m, err := rw.Write([]byte(s))
			sent += s[:k]
			sym.Assert(m == k && (err != nil) == (k < len(s)), "write-result")
			sym.Assert(rw.Size() == len(sent) && rw.Written() && rw.Status() == 200, "size")
			if err != nil {
				sym.Cover("fails")
			} else {
				sym.Cover("holds")
			}
		}
		sym.Assert(string(rec.Body) == sent, "body-bytes")
	}))
	app.ServeHTTP(rec, hx.Request("GET", "/"))
	sym.Assert(len(rec.Codes) == 1 && rec.Codes[0] == 200 && rec.Early == 0, "one-status-commit")
}

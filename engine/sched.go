package main

import (
	"fmt"
)

// Cooperative scheduler: goroutines of the program under test are host goroutines passing a baton.
// Every synchronisation operation is a scheduling point; which thread continues is a decision of the path.

type schedPoint struct {
	From, To int
	Where    string
}

type schedState struct {
	m        *machine
	preempts int
	trace    []schedPoint
	abort    any
	killing  bool
	alive    int
	doneCh   chan bool
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	et     *RType
	pend   []*pendSend // blocked senders (unbuffered or full)
	recvW  int         // receivers currently blocked
	vc     []int
}

type pendSend struct {
	v    Value
	done bool
	vc   []int
}

func newSched(m *machine) *schedState { return &schedState{m: m, doneCh: make(chan bool, 64)} }

func (s *schedState) points() []schedPoint { return append([]schedPoint(nil), s.trace...) }

func (s *schedState) runMain(f func(), status, msg *string) {
	m := s.m
	main := m.threads[0]
	main.resume = make(chan bool)
	func() {
		defer func() {
			if r := recover(); r != nil {
				*status, *msg = m.classify(r)
			}
		}()
		f()
	}()
	// kill what is left
	s.killing = true
	for _, t := range m.threads[1:] {
		if !t.done {
			t.resume <- true
			<-s.doneCh
		}
	}
	m.th = main
}

func (m *machine) classify(r any) (string, string) {
	switch x := r.(type) {
	case pathEnd:
		return x.status, x.msg
	case targetPanic:
		if x.fatal {
			return "overflow", "stack overflow" + m.where()
		}
		return "panic", m.panicText(x.v) + m.where()
	case specAbort:
		return "internal", "specAbort escaped" + m.where()
	}
	panic(fmt.Sprintf("engine panic: %v%s", r, m.where()))
}

func (m *machine) panicText(v Value) string {
	f, _ := v.P.(*Iface)
	if f == nil {
		return "nil"
	}
	if f.t == m.p.rtErrStr {
		s, _ := hostStr(f.v)
		return "runtime error: " + s
	}
	return typeString(f.t.t) + ": " + m.showConc(f.v, f.t)
}

func (m *machine) spawn(fr *frame, fn *Closure, args []Value) {
	if fn == nil {
		m.nilPanic()
	}
	s := m.sched
	live := 0
	for _, t := range m.threads {
		if !t.done {
			live++
		}
	}
	if live >= 64 || len(m.threads) >= 4096 {
		m.unsupported("too many goroutines")
	}
	t := &thread{id: len(m.threads), m: m, resume: make(chan bool), arena: make([]Value, 4096)}
	if m.race != nil {
		m.race.fork(fr.th, t)
	}
	m.threads = append(m.threads, t)
	go func() {
		<-t.resume
		defer func() {
			r := recover()
			t.done, t.arena = true, nil
			if s.killing {
				s.doneCh <- true
				return
			}
			if r != nil {
				if _, ok := r.(threadKill); !ok {
					s.abort = r
					if tp, ok := r.(targetPanic); ok {
						st, msg := m.classify(tp)
						s.abort = pathEnd{st, msg}
					}
				}
				// hand the baton to main, which stops the path
				m.th = m.threads[0]
				m.threads[0].resume <- true
				return
			}
			s.switchFrom(t)
		}()
		if s.killing {
			panic(threadKill{})
		}
		m.call(&frame{m: m, th: t}, fn, args)
	}()
	m.yield(fr, "go")
}

func (s *schedState) runnable(except *thread) []*thread {
	var r []*thread
	for _, t := range s.m.threads {
		if t == except || t.done {
			continue
		}
		if t.blocked == nil || t.blocked() {
			r = append(r, t)
		}
	}
	return r
}

// switchFrom: thread t ended; somebody else continues.
func (s *schedState) switchFrom(t *thread) {
	m := s.m
	var next *thread
	func() {
		defer func() {
			if r := recover(); r != nil {
				s.abort = r
				next = m.threads[0]
			}
		}()
		rs := s.runnable(t)
		if len(rs) == 0 {
			s.abort = pathEnd{"deadlock", s.describe()}
			next = m.threads[0]
			return
		}
		next = rs[m.choose(uint64(len(rs)))]
	}()
	s.trace = append(s.trace, schedPoint{t.id, next.id, "exit"})
	m.th = next
	next.resume <- true
}

func (s *schedState) describe() string {
	r := "all goroutines are blocked:"
	for _, t := range s.m.threads {
		if !t.done {
			r += fmt.Sprintf(" g%d(%s)", t.id, t.why)
		}
	}
	return r
}

func (s *schedState) handoff(cur, next *thread, where string) {
	m := s.m
	s.trace = append(s.trace, schedPoint{cur.id, next.id, where})
	m.th = next
	next.resume <- true
	<-cur.resume
	m.th = cur
	if s.killing {
		panic(threadKill{})
	}
	if s.abort != nil && cur.id == 0 {
		a := s.abort
		s.abort = nil
		panic(a)
	}
}

func (m *machine) line(fr *frame, op string) string { return op }

// yield is a scheduling point of a running thread.
func (m *machine) yield(fr *frame, op string) {
	if len(m.threads) == 1 {
		return
	}
	s := m.sched
	if s.preempts >= m.ex.preempt {
		return
	}
	cur := m.th
	rs := s.runnable(cur)
	if len(rs) == 0 {
		return
	}
	k := m.choose(uint64(len(rs) + 1))
	if k == 0 {
		return
	}
	s.preempts++
	s.handoff(cur, rs[k-1], op)
}

// block waits until cond holds.
func (m *machine) block(fr *frame, why string, cond func() bool) {
	s := m.sched
	for !cond() {
		cur := m.th
		cur.blocked, cur.why = cond, why
		rs := s.runnable(cur)
		if len(rs) == 0 {
			panic(pathEnd{"deadlock", s.describe()})
		}
		next := rs[m.choose(uint64(len(rs)))]
		s.handoff(cur, next, "block "+why)
		cur.blocked, cur.why = nil, ""
	}
}

// ---- channels

func (m *machine) chanSend(fr *frame, h *Chan, v Value) {
	m.yield(fr, "send")
	if h == nil {
		m.block(fr, "send on nil channel", func() bool { return false })
	}
	if h.closed {
		m.strPanicErr("send on closed channel")
	}
	if m.race != nil {
		m.race.release(&h.vc, m.th)
	}
	if len(h.buf) < h.cap {
		h.buf = append(h.buf, v)
		return
	}
	p := &pendSend{v: v}
	h.pend = append(h.pend, p)
	m.block(fr, "chan send", func() bool { return p.done || h.closed })
	if !p.done {
		m.strPanicErr("send on closed channel")
	}
	if m.race != nil {
		m.race.acquire(h.vc, m.th)
	}
}

func (m *machine) strPanicErr(s string) { panic(targetPanic{v: m.mkErr(s)}) }

func (h *Chan) canRecv() bool { return len(h.buf) > 0 || len(h.pend) > 0 || h.closed }

func (m *machine) chanRecv(fr *frame, h *Chan) (Value, bool) {
	m.yield(fr, "recv")
	if h == nil {
		m.block(fr, "recv on nil channel", func() bool { return false })
	}
	h.recvW++
	m.block(fr, "chan recv", h.canRecv)
	h.recvW--
	return m.takeRecv(h)
}

func (m *machine) takeRecv(h *Chan) (Value, bool) {
	if m.race != nil {
		m.race.acquire(h.vc, m.th)
		m.race.release(&h.vc, m.th) // capacity: k-th receive happens before (k+C)-th send
	}
	if len(h.buf) > 0 {
		v := h.buf[0]
		h.buf = h.buf[1:]
		if len(h.pend) > 0 {
			p := h.pend[0]
			h.pend = h.pend[1:]
			p.done = true
			h.buf = append(h.buf, p.v)
		}
		return v, true
	}
	if len(h.pend) > 0 {
		p := h.pend[0]
		h.pend = h.pend[1:]
		p.done = true
		return p.v, true
	}
	return zero(h.et), false
}

func (m *machine) chanClose(fr *frame, h *Chan) {
	m.yield(fr, "close")
	if h == nil {
		m.strPanicErr("close of nil channel")
	}
	if h.closed {
		m.strPanicErr("close of closed channel")
	}
	if m.race != nil {
		m.race.release(&h.vc, m.th)
	}
	h.closed = true
}

type selCase struct {
	send bool
	ch   *Chan
	v    Value
	et   *RType
}

func (m *machine) doSelect(fr *frame, cs []selCase, blocking bool) (int, Value, bool) {
	m.yield(fr, "select")
	ready := func() []int {
		var r []int
		for i, c := range cs {
			if c.ch == nil {
				continue
			}
			if c.send {
				if c.ch.closed || len(c.ch.buf) < c.ch.cap || (c.ch.cap == 0 && c.ch.recvW > len(c.ch.pend)) {
					r = append(r, i)
				}
			} else if c.ch.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	rs := ready()
	if len(rs) == 0 {
		if !blocking {
			return -1, Value{}, false
		}
		for _, c := range cs {
			if !c.send && c.ch != nil {
				c.ch.recvW++
			}
		}
		m.block(fr, "select", func() bool { return len(ready()) > 0 })
		for _, c := range cs {
			if !c.send && c.ch != nil {
				c.ch.recvW--
			}
		}
		rs = ready()
	}
	k := rs[m.choose(uint64(len(rs)))]
	c := cs[k]
	if c.send {
		if c.ch.closed {
			m.strPanicErr("send on closed channel")
		}
		if m.race != nil {
			m.race.release(&c.ch.vc, m.th)
		}
		if len(c.ch.buf) < c.ch.cap {
			c.ch.buf = append(c.ch.buf, c.v)
		} else {
			p := &pendSend{v: c.v}
			c.ch.pend = append(c.ch.pend, p)
			m.block(fr, "chan send", func() bool { return p.done || c.ch.closed })
		}
		return k, Value{}, false
	}
	v, ok := m.takeRecv(c.ch)
	return k, v, ok
}

// ---- locks

type lockState struct {
	locked  bool
	readers int
	wg      int64
	vc      []int
	rvc     []int
}

// A pool gives a thread back what it put in last, and nothing from other threads: that can happen, and orders nothing.
type poolState struct{ items []pooled }

type pooled struct {
	th int
	v  Value
}

func (m *machine) pool(p Value) *poolState {
	s := m.ptrSlot(p)
	if m.hostState == nil {
		m.hostState = map[string]any{}
	}
	tab, _ := m.hostState["pools"].(map[*Value]*poolState)
	if tab == nil {
		tab = map[*Value]*poolState{}
		m.hostState["pools"] = tab
	}
	l := tab[s]
	if l == nil {
		l = &poolState{}
		tab[s] = l
	}
	return l
}

func (m *machine) lock(p Value) *lockState {
	s := m.ptrSlot(p)
	if m.hostState == nil {
		m.hostState = map[string]any{}
	}
	tab, _ := m.hostState["locks"].(map[*Value]*lockState)
	if tab == nil {
		tab = map[*Value]*lockState{}
		m.hostState["locks"] = tab
	}
	l := tab[s]
	if l == nil {
		l = &lockState{}
		tab[s] = l
	}
	return l
}

// ---- happens-before race detection

type raceState struct {
	m      *machine
	shadow map[*Value]*shadow
}

type shadow struct {
	wt, wc int // last write: thread, clock
	r      map[int]int
	wwhere string
}

func (r *raceState) fork(a, b *thread) {
	r.tick(a)
	b.vc = append([]int(nil), a.vc...)
	r.tick(b)
	r.tick(a)
}

func (r *raceState) tick(t *thread) {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

func join(dst *[]int, src []int) {
	for len(*dst) < len(src) {
		*dst = append(*dst, 0)
	}
	for i, x := range src {
		if x > (*dst)[i] {
			(*dst)[i] = x
		}
	}
}

func (r *raceState) acquire(vc []int, t *thread) { join(&t.vc, vc) }
func (r *raceState) release(vc *[]int, t *thread) {
	if len(t.vc) <= t.id {
		r.tick(t)
	}
	join(vc, t.vc)
	r.tick(t)
}

func vcAt(vc []int, i int) int {
	if i < len(vc) {
		return vc[i]
	}
	return 0
}

// all notes an access to each of the elements.
func (r *raceState) all(fr *frame, s []Value, write bool) {
	if len(r.m.threads) == 1 || r.m.inInit > 0 {
		return
	}
	for i := range s {
		r.access(fr, &s[i], write)
	}
}

// access notes an access to a slot, or to all the slots in it.
func (r *raceState) access(fr *frame, s *Value, write bool) {
	if len(r.m.threads) == 1 || r.m.inInit > 0 {
		return
	}
	if a, ok := s.P.(*Agg); ok && len(a.e) > 0 {
		r.all(fr, a.e, write)
		return
	}
	t := fr.th
	if len(t.vc) <= t.id {
		r.tick(t)
	}
	sh := r.shadow[s]
	if sh == nil {
		sh = &shadow{wt: -1, r: map[int]int{}}
		r.shadow[s] = sh
	}
	if sh.wt >= 0 && sh.wt != t.id && sh.wc > vcAt(t.vc, sh.wt) {
		r.report(fr, sh)
	}
	if write {
		for rt, rc := range sh.r {
			if rt != t.id && rc > vcAt(t.vc, rt) {
				r.report(fr, sh)
			}
		}
		sh.wt, sh.wc = t.id, t.vc[t.id]
		sh.wwhere = fr.fn.name
	} else {
		sh.r[t.id] = t.vc[t.id]
	}
}

func (r *raceState) report(fr *frame, sh *shadow) {
	panic(pathEnd{"race", "data race in " + fr.fn.name + " with " + sh.wwhere})
}

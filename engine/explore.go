package main

import (
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	dec   []decision
	model []uint64
}

type stats struct {
	paths, pruned, merges, domDecided  int
	vcs, vcConcrete, vcProved, vcViol  int
	decisions, replayed                int
	steps                              int64
	funcs                              map[*Func]bool
	covers                             map[string]int
	asserts                            map[string]int
	brCount                            map[string]int
	queries, nsat, nunsat, nunknown    int
	solverTime                         time.Duration
	crossAgree, crossDisagree, crossUn int
	maxDraws                           int
}

type violation struct {
	Label string
	Msg   string
	Kind  string // assert, panic, nontermination, hugealloc, overflow, deadlock, race
	Draws []draw
	Sched []schedPoint
	Where string
}

type witness struct {
	Draws []draw
	Obs   []obsRecOut
	Sched []schedPoint
}

type obsRecOut struct {
	Label string
	Val   string
}

type explorer struct {
	p        *program
	harness  *ssa.Function
	maxDepth int
	maxSteps int64
	noMerge  bool
	profile  bool
	workers  int
	solver   []string
	cross    []string
	qTimeout int
	deadline time.Time
	maxPaths int
	seed     int64
	nWitness int
	stopAt   func(v *violation) bool // stop exploring after this violation
	preempt  int
	raceOn   bool
	thorough bool

	mu      sync.Mutex
	cond    *sync.Cond
	queues  [][]*workItem
	idle    int
	stopped bool
	active  int

	violations []*violation
	violCount  map[string]int
	witnesses  []*witness
	nSeen      int
	rng        *rand.Rand
	incomplete map[string]int
	unsupp     map[string]int
	total      stats
	nPaths     int64
	covWit     map[string]*witness
	solverErrs []string
}

func (e *explorer) note(kind, msg string) {
	e.mu.Lock()
	e.incomplete[kind]++
	if e.incomplete[kind] <= 3 && msg != "" {
		e.unsupp[kind+": "+msg]++
	}
	e.mu.Unlock()
}

func newStats() stats {
	return stats{funcs: map[*Func]bool{}, covers: map[string]int{}, asserts: map[string]int{}, brCount: map[string]int{}}
}

func (e *explorer) run() {
	e.cond = sync.NewCond(&e.mu)
	e.queues = make([][]*workItem, e.workers)
	e.queues[0] = []*workItem{{}}
	e.violCount = map[string]int{}
	e.incomplete = map[string]int{}
	e.unsupp = map[string]int{}
	e.covWit = map[string]*witness{}
	e.rng = rand.New(rand.NewSource(e.seed))
	e.total = newStats()
	if e.maxDepth == 0 {
		e.maxDepth = 4000
	}
	if e.maxSteps == 0 {
		e.maxSteps = stepBudgetDefault
	}
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			e.worker(i)
		}(i)
	}
	wg.Wait()
}

func (e *explorer) next(i int) *workItem {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopped {
			return nil
		}
		if time.Now().After(e.deadline) {
			n := 0
			for _, q := range e.queues {
				n += len(q)
			}
			e.incomplete["deadline"]++
			e.stopped = true
			e.cond.Broadcast()
			return nil
		}
		if q := e.queues[i]; len(q) > 0 {
			it := q[len(q)-1]
			e.queues[i] = q[:len(q)-1]
			e.active++
			return it
		}
		best, bl := -1, 0
		for j, q := range e.queues {
			if len(q) > bl {
				best, bl = j, len(q)
			}
		}
		if best >= 0 {
			it := e.queues[best][0]
			e.queues[best] = e.queues[best][1:]
			e.active++
			return it
		}
		if e.active == 0 {
			e.stopped = true
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *explorer) push(i int, its ...*workItem) {
	e.mu.Lock()
	e.queues[i] = append(e.queues[i], its...)
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *explorer) finish() {
	e.mu.Lock()
	e.active--
	if e.active == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *explorer) newMachine(i int) *machine {
	m := &machine{qcache: map[string]qres{}, p: e.p, ex: e, wid: i, tc: newTermCtx(), brCount: map[string]int{}}
	m.sol = newSolver(e.solver, e.qTimeout, 0)
	if len(e.cross) > 0 {
		m.sl2 = newSolver(e.cross, 2000, 1)
	}
	m.gl = make([]*Value, len(e.p.glist))
	m.inited = make([]uint8, len(e.p.pkgList))
	m.implCache = map[implKey]bool{}
	m.methCache = map[methKey]*Func{}
	st := newStats()
	m.st = &st
	return m
}

func (e *explorer) worker(i int) {
	m := e.newMachine(i)
	defer func() {
		e.mu.Lock()
		defer e.mu.Unlock()
		t, s := &e.total, m.st
		t.paths += s.paths
		t.pruned += s.pruned
		t.merges += s.merges
		t.domDecided += s.domDecided
		t.vcs += s.vcs
		t.vcConcrete += s.vcConcrete
		t.vcProved += s.vcProved
		t.vcViol += s.vcViol
		t.decisions += s.decisions
		t.steps += s.steps
		t.crossAgree += s.crossAgree
		t.crossDisagree += s.crossDisagree
		t.crossUn += s.crossUn
		if s.maxDraws > t.maxDraws {
			t.maxDraws = s.maxDraws
		}
		t.queries += m.sol.Queries
		t.nsat += m.sol.NSat
		t.nunsat += m.sol.NUnsat
		t.nunknown += m.sol.NUnknown
		t.solverTime += m.sol.Time
		for f := range s.funcs {
			t.funcs[f] = true
		}
		for k, v := range s.covers {
			t.covers[k] += v
		}
		for k, v := range s.asserts {
			t.asserts[k] += v
		}
		for k, v := range m.brCount {
			t.brCount[k] += v
		}
		e.solverErrs = append(e.solverErrs, m.sol.errs...)
		m.sol.close()
		if m.sl2 != nil {
			e.solverErrs = append(e.solverErrs, m.sl2.errs...)
			m.sl2.close()
		}
	}()
	for {
		it := e.next(i)
		if it == nil {
			return
		}
		m.runPath(it)
		if e.maxPaths > 0 && atomic.AddInt64(&e.nPaths, 1) >= int64(e.maxPaths) {
			e.mu.Lock()
			e.incomplete["max-paths"]++
			e.stopped = true
			e.mu.Unlock()
			e.cond.Broadcast()
		}
		e.finish()
		if len(m.tc.tab) > 3_000_000 {
			m.resetTerms()
		}
	}
}

func (m *machine) resetTerms() {
	m.tc = newTermCtx()
	m.qcache = map[string]qres{}
	m.sol.restart()
	if m.sl2 != nil {
		m.sl2.restart()
	}
}

func (m *machine) runPath(it *workItem) {
	m.item = it
	m.trail = m.trail[:0]
	m.pos = 0
	m.pc = m.pc[:0]
	m.known = map[*Term]bool{}
	m.dec = map[*Term][]*Term{}
	m.tc.alias = nil
	m.cmp = map[*Term]rng{}
	m.defs = m.defs[:0]
	m.dom = m.dom[:0]
	m.multi = m.multi[:0]
	m.vars = m.vars[:0]
	m.model = append(m.model[:0], it.model...)
	m.draws = nil
	m.obs = nil
	m.covers = map[string]bool{}
	m.steps = 0
	m.spec = 0
	m.inInit = 0
	m.mapPerm = false
	m.env = map[string]Value{}
	m.hostState = map[string]any{}
	m.race = nil
	for _, inf := range m.p.pkgList {
		if inf.perPath && m.inited[inf.idx] != 0 {
			m.inited[inf.idx] = 0
			for _, g := range inf.globals {
				m.gl[g] = nil
			}
		}
		if m.inited[inf.idx] == 1 { // aborted in the middle of an initialisation
			m.inited[inf.idx] = 0
		}
	}
	th := &thread{id: 0, m: m}
	if m.th != nil && m.th.id == 0 {
		th.arena = m.th.arena
	}
	if th.arena == nil {
		th.arena = make([]Value, 1<<16)
	}
	m.th = th
	m.threads = []*thread{th}
	m.sched = newSched(m)
	status, msg := "ok", ""
	m.sched.runMain(func() {
		fn := m.p.funcOf(m.ex.harness)
		m.call(nil, fn.clo, nil)
	}, &status, &msg)
	m.st.steps += m.steps
	m.st.decisions += len(m.trail)
	if len(m.draws) > m.st.maxDraws {
		m.st.maxDraws = len(m.draws)
	}
	switch status {
	case "ok":
		m.st.paths++
		for c := range m.covers {
			m.st.covers[c]++
		}
		m.keepWitness()
	case "pruned":
		m.st.pruned++
	case "violation":
		m.st.paths++
	case "panic":
		m.st.paths++
		m.report("panic", "panic:"+panicLabel(msg), msg)
	case "overflow":
		m.st.paths++
		m.report("overflow", "stack overflow", msg)
	case "budget":
		m.st.paths++
		m.report("nontermination", "nontermination", msg)
	case "hugealloc":
		m.st.paths++
		m.report("hugealloc", "hugealloc", msg)
	case "deadlock":
		m.st.paths++
		m.report("deadlock", "deadlock", msg)
	case "race":
		m.st.paths++
		m.report("race", "race", msg)
	case "unsupported":
		m.ex.note("unsupported", msg)
	default:
		m.ex.note(status, msg)
	}
}

// panicLabel is the panic value and the innermost function of the repository.
func panicLabel(msg string) string {
	parts := strings.SplitN(firstLine(msg), " < ", 3)
	if len(parts) > 2 {
		parts = parts[:2]
	}
	return strings.Join(parts, " < ")
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func (m *machine) concDraws(model []uint64) []draw {
	r := make([]draw, 0, len(m.draws))
	for _, d := range m.draws {
		if d.kind != "aux" {
			r = append(r, d)
		}
	}
	for i := range r {
		if r[i].t != nil {
			r[i].val = m.tc.eval(r[i].t, model)
			r[i].t = nil
		}
	}
	return r
}

func (m *machine) keepWitness() {
	e := m.ex
	// a new cover label always gets a witness; others by reservoir sampling
	e.mu.Lock()
	e.nSeen++
	var fresh []string
	for c := range m.covers {
		if e.covWit[c] == nil {
			fresh = append(fresh, c)
		}
	}
	slot := -1
	if len(fresh) == 0 {
		if len(e.witnesses) < e.nWitness {
			slot = len(e.witnesses)
			e.witnesses = append(e.witnesses, nil)
		} else if e.nWitness > 0 {
			if k := e.rng.Intn(e.nSeen); k < e.nWitness {
				slot = k
			}
		}
	}
	e.mu.Unlock()
	if slot < 0 && len(fresh) == 0 {
		return
	}
	w := &witness{Draws: m.concDraws(m.model), Sched: m.sched.points()}
	for _, o := range m.obs {
		w.Obs = append(w.Obs, obsRecOut{o.label, m.showConc(o.v, o.t)})
	}
	e.mu.Lock()
	if slot >= 0 {
		e.witnesses[slot] = w
	}
	for _, c := range fresh {
		if e.covWit[c] == nil {
			e.covWit[c] = w
		}
	}
	e.mu.Unlock()
}

func (m *machine) report(kind, label, msg string) {
	m.reportModel(kind, label, msg, m.model)
}

func (m *machine) reportModel(kind, label, msg string, model []uint64) {
	e := m.ex
	m.st.vcViol++
	e.mu.Lock()
	e.violCount[label]++
	n := e.violCount[label]
	e.mu.Unlock()
	if n > 3 {
		return
	}
	v := &violation{Label: label, Msg: msg, Kind: kind, Draws: m.concDraws(model), Sched: m.sched.points(), Where: m.where()}
	e.mu.Lock()
	e.violations = append(e.violations, v)
	if e.stopAt != nil && e.stopAt(v) {
		e.stopped = true
	}
	e.mu.Unlock()
	e.cond.Broadcast()
}

// ---- path condition

func (m *machine) implied(c *Term) (bool, bool) {
	if c.op == OConst {
		return c.val == 1, true
	}
	if v, ok := m.known[c]; ok {
		return v, true
	}
	if c.op == ONot {
		if v, ok := m.known[c.a]; ok {
			return !v, true
		}
	}
	if c.sup > 0 {
		k := int(c.sup) - 1
		v := m.vars[k]
		if v.w <= 8 {
			t := m.tc.table(c, v.w)
			d := &m.dom[k]
			var tr, fa uint64
			for i := 0; i < 4; i++ {
				tr |= d[i] & t[i]
				fa |= d[i] &^ t[i]
			}
			if tr == 0 {
				return false, true
			}
			if fa == 0 {
				return true, true
			}
		}
	}
	if c.sup < 0 || c.sup > 0 && m.vars[c.sup-1].w > 8 {
		x, neg := c, false
		if c.op == ONot {
			x, neg = c.a, true
		}
		if x.op == OUlt || x.op == OSlt || x.op == OEq && x.a.w > 0 {
			if v, ok := m.compared(x); ok {
				m.known[x] = v
				return v != neg, true
			}
		}
	}
	return false, false
}

// compared decides a comparison by the ranges its inputs have on this path.
func (m *machine) compared(c *Term) (bool, bool) {
	memo := map[*Term]rng{}
	a, b := m.bounds(c.a, memo), m.bounds(c.b, memo)
	switch c.op {
	case OSlt:
		if c.a.w == 0 {
			return false, false
		}
		half := uint64(1) << (c.a.w - 1)
		an, bn := a.lo >= half, b.lo >= half // negative throughout
		if !an && a.hi >= half || !bn && b.hi >= half {
			return false, false
		}
		if an != bn {
			return an, true
		}
		fallthrough
	case OUlt:
		if a.hi < b.lo {
			return true, true
		}
		if a.lo >= b.hi {
			return false, true
		}
		if c.a.op == OAdd && (c.a.a == c.b || c.a.b == c.b) {
			p, q := m.bounds(c.a.a, memo), m.bounds(c.a.b, memo)
			if s, cy := bits.Add64(p.hi, q.hi, 0); cy == 0 && s <= mask(c.a.w) {
				return false, true
			}
		}
	case OEq:
		if a.hi < b.lo || b.hi < a.lo {
			return false, true
		}
		if m.narrowed(c.a, c.b, a, memo) || m.narrowed(c.b, c.a, b, memo) {
			return true, true
		}
	}
	return false, false
}

// narrowed: is y the extension of a truncation of x which loses nothing?
func (m *machine) narrowed(x, y *Term, r rng, memo map[*Term]rng) bool {
	if y.op != OZext && y.op != OSext || y.a.op != OExtract || y.a.val != 0 || y.a.a != x {
		return false
	}
	w := y.a.w
	if r.hi <= mask(w) && (y.op == OZext || r.hi <= mask(w-1)) {
		return true
	}
	return y.op == OSext && x.op == ONeg && m.bounds(x.a, memo).hi <= uint64(1)<<(w-1)
}

// simplify takes the branches of conditional terms whose conditions the path decides.
func (m *machine) simplify(t *Term, memo map[*Term]*Term) *Term {
	if !t.hasIte() {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	tc := m.tc
	r := t
	switch t.op {
	case OIte:
		g := m.simplify(t.a, memo)
		if v, ok := m.implied(g); ok {
			if v {
				r = m.simplify(t.b, memo)
			} else {
				r = m.simplify(t.c, memo)
			}
		} else {
			r = tc.Ite(g, m.simplify(t.b, memo), m.simplify(t.c, memo))
		}
	case ONot:
		r = tc.Not(m.simplify(t.a, memo))
	case OAnd:
		r = tc.And(m.simplify(t.a, memo), m.simplify(t.b, memo))
	case OOr:
		r = tc.Or(m.simplify(t.a, memo), m.simplify(t.b, memo))
	case OEq:
		r = tc.Eq(m.simplify(t.a, memo), m.simplify(t.b, memo))
	case OUlt:
		r = tc.Ult(m.simplify(t.a, memo), m.simplify(t.b, memo))
	case OSlt:
		r = tc.Slt(m.simplify(t.a, memo), m.simplify(t.b, memo))
	case OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OBand, OBor, OBxor, OShl, OLshr, OAshr:
		r = tc.Bin(t.op, m.simplify(t.a, memo), m.simplify(t.b, memo))
	case OZext, OSext:
		r = tc.Resize(m.simplify(t.a, memo), t.w, t.op == OSext)
	case ONeg:
		r = tc.Neg(m.simplify(t.a, memo))
	}
	memo[t] = r
	return r
}

// learn takes the bounds from a comparison with a constant.
func (m *machine) learn(c *Term) {
	neg := c.op == ONot
	if neg {
		c = c.a
	}
	if c.op == OEq && !neg && c.b.op == OConst && c.b.val == 0 && c.a.op == OLshr && c.a.b.op == OConst && c.a.b.val < 64 {
		t := c.a.a
		r, ok := m.cmp[t]
		if !ok {
			r = rng{t.lo, t.hi}
		}
		if h := mask(uint8(c.a.b.val)); h < r.hi {
			r.hi = h
		}
		m.cmp[t] = r
		return
	}
	if c.op == OSlt && (c.a.op == OConst) != (c.b.op == OConst) {
		m.learnSigned(c, neg)
		return
	}
	if c.op != OUlt {
		return
	}
	t := c.a
	up := true // an upper bound of t
	k := c.b
	if k.op != OConst {
		t, k, up = c.b, c.a, false
	}
	if k.op != OConst || t.op == OConst {
		return
	}
	r, ok := m.cmp[t]
	if !ok {
		r = rng{t.lo, t.hi}
	}
	v := k.val
	switch {
	case up && !neg && v > 0 && v-1 < r.hi:
		r.hi = v - 1
	case up && neg && v > r.lo:
		r.lo = v
	case !up && !neg && v < mask(t.w) && v+1 > r.lo:
		r.lo = v + 1
	case !up && neg && v < r.hi:
		r.hi = v
	}
	m.cmp[t] = r
}

// learnSigned does so for a signed comparison, as far as an unsigned range can say it.
func (m *machine) learnSigned(c *Term, neg bool) {
	half := uint64(1) << (c.a.w - 1)
	t, k, below := c.a, c.b.val, true // t < k
	if c.a.op == OConst {
		t, k, below = c.b, c.a.val, false // k < t
	}
	if below != neg { // t < k, or t <= k
		if neg {
			if k == half-1 {
				return
			}
			k++
		}
		if k == half {
			return // impossible
		}
		r, ok := m.cmp[t]
		if !ok {
			r = rng{t.lo, t.hi}
		}
		switch {
		case k == 0 || k > half: // negative, below k
			r.lo, r.hi = max(r.lo, half), min(r.hi, (k-1)&mask(t.w))
		case r.hi < half: // not negative
			r.hi = min(r.hi, k-1)
		}
		m.cmp[t] = r
		return
	}
	if !neg { // t > k
		if k == half-1 {
			return
		}
		k = (k + 1) & mask(t.w)
	}
	r, ok := m.cmp[t] // t >= k
	if !ok {
		r = rng{t.lo, t.hi}
	}
	if k < half {
		first := r.hi >= half
		r.lo, r.hi = max(r.lo, k), min(r.hi, half-1)
		if first { // upper bounds from before count now
			m.cmp[t] = r
			for _, q := range m.pc {
				n := q.op == ONot
				if n {
					q = q.a
				}
				if q.op == OSlt && (q.a == t && q.b.op == OConst && !n || q.b == t && q.a.op == OConst && n) {
					m.learnSigned(q, n)
				}
			}
			return
		}
	} else if r.lo >= half {
		r.lo = max(r.lo, k)
	}
	m.cmp[t] = r
}

// divided simplifies a division by a constant, knowing the ranges its inputs have on this path.
func (m *machine) divided(o Op, a, b *Term, memo map[*Term]rng) *Term {
	tc := m.tc
	if b.op != OConst || b.val < 2 || a.op == OConst {
		return tc.Bin(o, a, b)
	}
	w := a.w
	half := uint64(1) << (w - 1)
	if (o == OSDiv || o == OSRem) && a.op == ONeg && b.val < half && m.bounds(a.a, memo).hi < half {
		return tc.Neg(m.divided(o, a.a, b, memo))
	}
	if o == OSDiv || o == OSRem {
		if m.bounds(a, memo).hi >= half || b.val >= half {
			return tc.Bin(o, a, b)
		}
		if o == OSDiv {
			o = OUDiv
		} else {
			o = OURem
		}
	}
	if m.bounds(a, memo).hi < b.val {
		if o == OUDiv {
			return tc.Const(w, 0)
		}
		return a
	}
	// a = x*k + y
	var x, y *Term
	mul := func(t *Term) bool {
		if t.op != OMul || t.b.op != OConst || t.b.val == 0 || t.b.val%b.val != 0 {
			return false
		}
		h, l := bits.Mul64(m.bounds(t.a, memo).hi, t.b.val)
		return h == 0 && l <= mask(w)
	}
	switch {
	case mul(a):
		x = a
	case a.op == OAdd:
		s, cy := bits.Add64(m.bounds(a.a, memo).hi, m.bounds(a.b, memo).hi, 0)
		if cy == 0 && s <= mask(w) {
			if mul(a.a) {
				x, y = a.a, a.b
			} else if mul(a.b) {
				x, y = a.b, a.a
			}
		}
	}
	if x == nil {
		return tc.Bin(o, a, b)
	}
	rest := tc.Const(w, 0)
	if y != nil {
		rest = m.divided(o, y, b, memo)
	}
	if o == OURem {
		return rest
	}
	return tc.Bin(OAdd, tc.Bin(OMul, x.a, tc.Const(w, x.b.val/b.val)), rest)
}

func (m *machine) bounds(t *Term, memo map[*Term]rng) rng {
	if t.lo == t.hi || t.sup == 0 {
		return rng{t.lo, t.hi}
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r rng
	if t.op == OVar {
		r = rng{t.lo, t.hi}
		if t.w <= 8 {
			d := &m.dom[t.val]
			lo, hi := 256, -1
			for i := 0; i < 4; i++ {
				if d[i] != 0 {
					if lo == 256 {
						lo = i*64 + bits.TrailingZeros64(d[i])
					}
					hi = i*64 + 63 - bits.LeadingZeros64(d[i])
				}
			}
			if hi >= 0 {
				r = rng{uint64(lo), uint64(hi)}
			}
		}
	} else {
		var k [3]rng
		for i, x := range [3]*Term{t.a, t.b, t.c} {
			if x != nil {
				k[i] = m.bounds(x, memo)
			}
		}
		r.lo, r.hi = rangeOf(t, k[0], k[1], k[2])
		if t.op == OAdd && t.b.op == OConst && t.a.op == OSub { // x - y + k
			x, y := m.bounds(t.a.a, memo), m.bounds(t.a.b, memo)
			l, c1 := bits.Add64(x.lo, t.b.val, 0)
			h, c2 := bits.Add64(x.hi, t.b.val, 0)
			if c1 == 0 && c2 == 0 && h <= mask(t.w) && l >= y.hi {
				r.lo, r.hi = max(r.lo, l-y.hi), min(r.hi, h-y.lo)
			}
		}
		if r.lo < t.lo {
			r.lo = t.lo
		}
		if r.hi > t.hi {
			r.hi = t.hi
		}
	}
	if k, ok := m.cmp[t]; ok {
		if k.lo > r.lo {
			r.lo = k.lo
		}
		if k.hi < r.hi {
			r.hi = k.hi
		}
	}
	memo[t] = r
	return r
}

func (m *machine) markMulti(t *Term, seen map[*Term]bool) {
	if t == nil || t.sup == 0 || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		m.multi[t.val] = true
		return
	}
	if t.sup > 0 {
		m.multi[t.sup-1] = true
		return
	}
	m.markMulti(t.a, seen)
	m.markMulti(t.b, seen)
	m.markMulti(t.c, seen)
}

func (m *machine) addPC(c *Term) {
	if c.op == OConst {
		return
	}
	if v, ok := m.known[c]; ok && v {
		return
	}
	m.known[c] = true
	if c.op == ONot {
		m.known[c.a] = false
		if c.a.op == OOr { // not (a or b)
			m.addPC(m.tc.Not(c.a.a))
			m.addPC(m.tc.Not(c.a.b))
			return
		}
	}
	if c.op == OAnd {
		m.addPC(c.a)
		m.addPC(c.b)
		return
	}
	m.pc = append(m.pc, c)
	m.learn(c)
	if c.sup > 0 {
		k := int(c.sup) - 1
		v := m.vars[k]
		if v.w <= 8 {
			t := m.tc.table(c, v.w)
			for i := 0; i < 4; i++ {
				m.dom[k][i] &= t[i]
			}
		} else {
			m.multi[k] = true
		}
	} else {
		m.markMulti(c, map[*Term]bool{})
	}
}

// slice returns the part of the path condition that shares inputs with c (transitively) and those
// inputs. The rest is satisfied by the current model and mentions none of them.
func (m *machine) slice(c *Term) ([]*Term, []*Term) {
	set := append([]uint64(nil), c.vset()...)
	used := make([]bool, len(m.pc))
	var skip []bool
	for _, d := range m.defs {
		// a definition nothing refers to holds for every value of what is defined
		if bitsMeet(d.set, set) {
			continue
		}
		pinned := false
		own := -1
		for i, q := range m.pc {
			if q == d.eq {
				own = i
			} else if !d.terms[q] && bitsMeet(q.vset(), d.set) {
				pinned = true
				break
			}
		}
		if !pinned && own >= 0 {
			if skip == nil {
				skip = make([]bool, len(m.pc))
			}
			skip[own] = true
		}
	}
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, q := range m.pc {
			if used[i] || skip != nil && skip[i] {
				continue
			}
			qs := q.vset()
			if bitsMeet(qs, set) {
				used[i] = true
				changed = true
				for len(set) < len(qs) {
					set = append(set, 0)
				}
				for j, w := range qs {
					set[j] |= w
				}
			}
		}
	}
	for i, q := range m.pc {
		if used[i] {
			out = append(out, q)
		}
	}
	var vars []*Term
	for _, v := range m.vars {
		if v != nil {
			if k := v.val; int(k/64) < len(set) && set[k/64]>>(k&63)&1 == 1 {
				vars = append(vars, v)
			}
		}
	}
	return out, vars
}

type qres struct {
	r    SatRes
	vals []uint64
}

// solve decides pc /\ c; the model extends the current one outside the slice.
func (m *machine) solve(c *Term) (SatRes, []uint64) {
	cs, vars := m.slice(c)
	key := make([]byte, 0, 4*len(cs)+4)
	add := func(t *Term) { key = append(key, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24)) }
	for _, q := range cs {
		add(q)
	}
	add(c)
	q, ok := m.qcache[string(key)]
	if !ok {
		q.r, q.vals = m.sol.check(cs, c, vars)
		if q.r != Unknown {
			m.qcache[string(key)] = q
		}
	}
	if q.r != Sat {
		return q.r, nil
	}
	model := make([]uint64, len(m.vars))
	copy(model, m.model)
	for i, v := range vars {
		model[v.val] = q.vals[i]
	}
	m.patchModel(model)
	return Sat, model
}

// feasible: is pc /\ c satisfiable?  Returns a model.
func (m *machine) feasible(c *Term) (SatRes, []uint64) {
	if c.sup > 0 {
		k := int(c.sup) - 1
		v := m.vars[k]
		if v.w <= 8 && !m.multi[k] {
			t := m.tc.table(c, v.w)
			for i := 0; i < 4; i++ {
				if x := m.dom[k][i] & t[i]; x != 0 {
					model := make([]uint64, len(m.vars))
					copy(model, m.model)
					b := 0
					for x&1 == 0 {
						x >>= 1
						b++
					}
					model[k] = uint64(i*64 + b)
					m.st.domDecided++
					return Sat, model
				}
			}
			m.st.domDecided++
			return Unsat, nil
		}
	}
	return m.solve(c)
}

func sigOf(c *Term) uint32 {
	return uint32(c.op)<<24 ^ uint32(c.sup+1)<<8 ^ uint32(c.w)
}

func (m *machine) pushItem(d decision, model []uint64) {
	dec := make([]decision, len(m.trail)+1)
	copy(dec, m.trail)
	dec[len(m.trail)] = d
	m.ex.push(m.wid, &workItem{dec, model})
}

func (m *machine) replaying() bool { return m.pos < len(m.item.dec) }

func (m *machine) nextDec(kind uint8, sig uint32) decision {
	d := m.item.dec[m.pos]
	if d.kind != kind || d.sig != sig {
		panic(pathEnd{"diverged", fmt.Sprintf("replay diverged at %d/%d: recorded kind %d sig %x, now kind %d sig %x%s", m.pos, len(m.item.dec), d.kind, d.sig, kind, sig, m.where())})
	}
	m.pos++
	m.trail = append(m.trail, d)
	return d
}

// branch decides a symbolic condition on this path, scheduling the other side.
func (m *machine) branch(c *Term) bool {
	if v, ok := m.implied(c); ok {
		return v
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	sig := sigOf(c)
	if m.replaying() {
		d := m.nextDec(0, sig)
		v := d.val == 1
		if v {
			m.addPC(c)
		} else {
			m.addPC(m.tc.Not(c))
		}
		return v
	}
	cur := m.tc.eval(c, m.model) == 1
	if debugPC {
		for _, q := range m.pc {
			if m.tc.eval(q, m.model) != 1 {
				panic(fmt.Sprintf("model %v (item model %v) violates the path condition %s: dec %d/%v %s", m.model, m.item.model, q.String(), len(m.trail), m.item.dec, m.where()))
			}
		}
	}
	oc := c
	if cur {
		oc = m.tc.Not(c)
	}
	r, model := m.feasible(oc)
	switch r {
	case Sat:
		m.pushItem(decision{0, b2u(!cur), sig}, model)
	case Unknown:
		m.ex.note("solver-unknown", "branch"+m.where())
	}
	m.trail = append(m.trail, decision{0, b2u(cur), sig})
	if cur {
		m.addPC(c)
	} else {
		m.addPC(m.tc.Not(c))
	}
	return cur
}

var debugPC = os.Getenv("GOSYM_DEBUG") != ""

const neqBit = 1 << 31

func (m *machine) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.lo == t.hi {
		return t.lo
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	sig := sigOf(t) &^ neqBit
	for n := 0; ; n++ {
		if t.sup > 0 && m.vars[t.sup-1].w <= 8 {
			v := m.tc.eval(t, m.model)
			if r, ok := m.implied(m.tc.Eq(t, m.tc.Const(t.w, v))); ok && r {
				return v
			}
		}
		if m.replaying() {
			d := m.item.dec[m.pos]
			if d.kind != 1 || d.sig&^neqBit != sig {
				panic(pathEnd{"diverged", "concretize" + m.where()})
			}
			m.pos++
			m.trail = append(m.trail, d)
			eq := m.tc.Eq(t, m.tc.Const(t.w, d.val))
			if d.sig&neqBit != 0 {
				m.addPC(m.tc.Not(eq))
				continue
			}
			m.addPC(eq)
			return d.val
		}
		if n > 5000 {
			m.unsupported("concretization of a wide value")
		}
		v := m.tc.eval(t, m.model)
		eq := m.tc.Eq(t, m.tc.Const(t.w, v))
		r, model := m.feasible(m.tc.Not(eq))
		switch r {
		case Sat:
			m.pushItem(decision{1, v, sig | neqBit}, model)
		case Unknown:
			m.ex.note("solver-unknown", "concretize"+m.where())
		}
		if m.ex.profile && m.th.top != nil && m.th.top.fn != nil {
			m.brCount["concretize "+m.th.top.fn.name]++
		}
		m.trail = append(m.trail, decision{1, v, sig})
		m.addPC(eq)
		return v
	}
}

func (m *machine) choose(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	sig := uint32(n)
	if m.replaying() {
		return m.nextDec(2, sig).val
	}
	for k := n - 1; k >= 1; k-- {
		m.pushItem(decision{2, k, sig}, append([]uint64(nil), m.model...))
	}
	m.trail = append(m.trail, decision{2, 0, sig})
	return 0
}

func (m *machine) assume(c *Term) {
	if v, ok := m.implied(c); ok {
		if !v {
			panic(pathEnd{"pruned", ""})
		}
		return
	}
	if m.tc.eval(c, m.model) == 1 {
		m.addPC(c)
		return
	}
	r, model := m.feasible(c)
	switch r {
	case Sat:
		m.model = model
		m.addPC(c)
	case Unsat:
		panic(pathEnd{"pruned", ""})
	default:
		m.ex.note("solver-unknown", "assume"+m.where())
		panic(pathEnd{"pruned", ""})
	}
}

// assert decides a verification condition.
func (m *machine) assert(c *Term, label string) {
	m.st.asserts[label]++
	if c.op == OConst {
		m.st.vcConcrete++
		if c.val == 0 {
			m.report("assert", label, "")
			panic(pathEnd{"violation", label})
		}
		return
	}
	if c.hasIte() {
		c = m.simplify(c, map[*Term]*Term{})
	}
	if v, ok := m.implied(c); ok && v {
		m.st.vcs++
		m.st.vcProved++
		return
	}
	if m.spec > 0 {
		panic(specAbort{})
	}
	sig := sigOf(c)
	if m.replaying() {
		d := m.nextDec(3, sig)
		if d.val == 1 {
			m.addPC(c)
		} else {
			m.known[c] = true
		}
		return
	}
	m.st.vcs++
	asked := m.sol.Queries
	r, vmodel := m.solve(m.tc.Not(c))
	if m.sl2 != nil && m.sol.Queries > asked { // not an answer of before

		cs, _ := m.slice(c)
		r2, _ := m.sl2.check(cs, m.tc.Not(c), nil)
		switch {
		case r2 == r:
			m.st.crossAgree++
		case r2 == Unknown || r == Unknown:
			m.st.crossUn++
			if m.st.crossUn == 5 {
				// a second opinion that does not come is not worth the time
				m.sl2.close()
				m.sl2 = nil
			}
		default:
			m.st.crossDisagree++
			m.ex.note("solver-disagreement", label)
		}
	}
	switch r {
	case Unsat:
		m.st.vcProved++
		m.known[c] = true
		m.trail = append(m.trail, decision{3, 0, sig})
	case Sat:
		model := vmodel
		if m.tc.eval(c, model) != 0 {
			m.ex.note("bad-model", label)
		}
		m.reportModel("assert", label, "", model)
		m.trail = append(m.trail, decision{3, 1, sig})
		m.assume(c)
	default:
		m.ex.note("solver-unknown", "assert "+label)
		m.trail = append(m.trail, decision{3, 0, sig})
	}
}

// newVar draws a symbolic value.
func (m *machine) newVar(kind, label string, w uint8) *Term {
	k := len(m.draws)
	v := m.tc.Var(w, k)
	m.draws = append(m.draws, draw{kind: kind, label: label, w: w, t: v})
	for len(m.vars) <= k {
		m.vars = append(m.vars, nil)
		m.dom = append(m.dom, [4]uint64{})
		m.multi = append(m.multi, false)
	}
	m.vars[k] = v
	m.multi[k] = false
	var d [4]uint64
	if w <= 8 {
		n := 1 << w
		if w == 0 {
			n = 2
		}
		for i := 0; i < n; i++ {
			d[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	m.dom[k] = d
	for len(m.model) <= k {
		m.model = append(m.model, 0)
	}
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

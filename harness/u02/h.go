package h

import (
	"errors"
	"sync"
	"time"

	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds limits of 1..3, up to 3 tasks of both kinds in any mix, any of them failing, a task that adds a task, closing at any moment, two rounds on one worker; up to 4 tasks that fail one well after the other; every schedule with up to 2 (thorough 3) preemptions at synchronisation operations; up to 129 (thorough 1025) rounds on one worker
//sym:race
//sym:stress 50

// board is what the tasks write down.
type board struct {
	mu            sync.Mutex
	ran, now, max int
	runs          []int
	errs          []error
}

func (b *board) enter(i int) {
	b.mu.Lock()
	b.runs[i]++
	b.ran++
	b.now++
	if b.now > b.max {
		b.max = b.now
	}
	b.mu.Unlock()
}

func (b *board) leave() {
	b.mu.Lock()
	b.now--
	b.mu.Unlock()
}

// task draws a task: a plain one, or one that succeeds or fails.
func (b *board) task(i int, fails *bool) interface{} {
	if sym.Choose("task", 2) == 0 {
		return func() { b.enter(i); sym.Yield(); b.leave() }
	}
	fail := sym.Bool("fails")
	*fails = sym.Or(*fails, fail)
	err := errors.New("failed")
	b.errs = append(b.errs, err)
	return func() error {
		b.enter(i)
		sym.Yield()
		b.leave()
		if fail {
			return err
		}
		return nil
	}
}

func (b *board) failed(err error) bool {
	for _, e := range b.errs {
		if e == err {
			return true
		}
	}
	return false
}

// Tasks added from one place, then waited for.
//
//sym:preempt 2 3
//sym:covers failure success full reused
func H_tasks() {
	sym.Race()
	limit := 1 + sym.Choose("limit", 3)
	n := sym.Choose("tasks", 4)
	b := &board{runs: make([]int, 5)}
	fails := false
	w := utils.NewWorker(limit)
	var ts []interface{}
	for i := 0; i < n; i++ {
		ts = append(ts, b.task(i, &fails))
	}
	for _, t := range ts {
		w.RunTask(t)
	}
	err := w.Wait()
	b.mu.Lock()
	defer b.mu.Unlock()
	sym.Assert(b.now == 0, "all-finished")
	sym.Assert(b.max <= limit, "within-the-limit")
	if b.max == limit && n > limit {
		sym.Cover("full")
	}
	for _, r := range b.runs[:n] {
		sym.Assert(r <= 1, "at-most-once")
		sym.Assert(sym.Or(fails, r == 1), "exactly-once")
	}
	anyFailed := false
	for i, r := range b.runs[:n] {
		if f, ok := ts[i].(func() error); ok && r == 1 {
			b.mu.Unlock()
			anyFailed = f() != nil || anyFailed
			b.mu.Lock()
		}
	}
	if anyFailed {
		sym.Cover("failure")
		sym.Assert(err != nil && b.failed(err), "failure-reported")
		return
	}
	sym.Cover("success")
	sym.Assert(err == nil, "no-failure")
	sym.Assert(!fails, "failing-task-ran") // the first failing task is only skipped after another failed
	if n > 2 {
		return
	}
	again := 0
	b.mu.Unlock()
	w.RunTask(func() { b.mu.Lock(); again++; b.mu.Unlock() })
	w.RunTask(func() error { b.mu.Lock(); again++; b.mu.Unlock(); return nil })
	err = w.Wait()
	b.mu.Lock()
	sym.Assert(err == nil && again == 2, "second-round")
	sym.Cover("reused")
}

// A worker that is closed: what was added before still runs and its error is reported.
//
//sym:preempt 2 3
//sym:covers failure
func H_close() {
	sym.Race()
	limit := 1 + sym.Choose("limit", 2)
	n := 1 + sym.Choose("tasks", 2)
	b := &board{runs: make([]int, 5)}
	fails := false
	w := utils.NewWorker(limit)
	other := sym.Choose("other", 2) == 1
	done := make(chan bool, 1)
	var ts []interface{}
	for i := 0; i < n; i++ {
		ts = append(ts, b.task(i, &fails))
		if fails {
			n = i + 1 // tasks added after a failure may be dropped
		}
	}
	for _, t := range ts {
		w.RunTask(t)
	}
	if other {
		go func() { w.Close(); done <- true }()
	} else {
		w.Close()
		done <- true
	}
	err := w.Wait()
	<-done
	w.Close()
	w.RunTask(func() { b.enter(0) })
	again := w.Wait()
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, r := range b.runs[:n] {
		sym.Assert(r == 1, "exactly-once")
	}
	if fails {
		sym.Cover("failure")
	}
	sym.Assert((err != nil) == fails && (err == nil || b.failed(err)), "error-iff-failed")
	sym.Assert(again == nil, "reported-once")
}

// A task that adds a task.
//
//sym:preempt 2 3
func H_nested() {
	sym.Race()
	limit := 2 + sym.Choose("limit", 2)
	b := &board{runs: make([]int, 5)}
	fails := false
	inner := b.task(0, &fails)
	outer := sym.Bool("outer fails")
	err1 := errors.New("outer")
	w := utils.NewWorker(limit)
	w.RunTask(func() error {
		b.enter(1)
		w.RunTask(inner)
		b.leave()
		if outer {
			return err1
		}
		return nil
	})
	if sym.Choose("more", 2) == 1 {
		w.RunTask(func() { b.enter(2); b.leave() })
	}
	err := w.Wait()
	b.mu.Lock()
	defer b.mu.Unlock()
	sym.Assert(b.now == 0 && b.max <= limit, "within-the-limit")
	sym.Assert(b.runs[0] == 1 && b.runs[1] == 1, "exactly-once")
	sym.Assert((err != nil) == (fails || outer) && (err == nil || err == err1 || b.failed(err)), "error-iff-failed")
}

type named func()

// Tasks that are no functions the worker knows fail instead of blocking.
func H_unknown() {
	w := utils.NewWorker(1)
	ran := 0
	switch sym.Choose("task", 3) {
	case 0:
		w.RunTask("no task")
	case 1:
		w.RunTask(nil)
	case 2:
		w.RunTask(func(int) { ran++ })
	}
	err := w.Wait()
	sym.Assert(err != nil && ran == 0, "reported")
}

// Many rounds on one worker, a task in each.
//
//sym:preempt 0 0
func H_rounds() {
	n := hx.Size("rounds", 4, sym.Bound(129, 1025))
	w := utils.NewWorker([]int{1, 2, 64}[sym.Choose("limit", 3)])
	ran := 0
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			w.RunTask(func() { ran++ })
		} else {
			w.RunTask(func() error { ran++; return nil })
		}
		sym.Assert(w.Wait() == nil, "nothing-failed")
		sym.Assert(ran == i+1, "each-once")
	}
	bad := errors.New("failed")
	w.RunTask(func() error { return bad })
	sym.Assert(w.Wait() == bad, "failure-reported")
}

// Of several tasks that fail one well after the other, the first is reported.
//
//sym:preempt 0 0
//sym:covers first
func H_first() {
	n := 2 + sym.Choose("tasks", 3)
	w := utils.NewWorker(n + sym.Choose("places", 2))
	order := sym.Choose("order", 2) == 1
	var errs []error
	var gates []chan bool
	done := make(chan bool, n)
	for i := 0; i < n; i++ {
		gate, err := make(chan bool, 1), errors.New("failed")
		errs, gates = append(errs, err), append(gates, gate)
		w.RunTask(func() error {
			<-gate
			done <- true
			return err
		})
	}
	first := -1
	for i := 0; i < n; i++ {
		k := i
		if order {
			k = n - 1 - i
		}
		if first < 0 {
			first = k
		}
		gates[k] <- true
		<-done
		if !sym.Symbolic() {
			time.Sleep(20 * time.Millisecond) // it has long been reported when the next fails
		}
	}
	sym.Assert(w.Wait() == errs[first], "first-failure-reported")
	sym.Cover("first")
}

// Package clock is a clock the harness sets, in place of time.Now and what follows it: for everything in a
// symbolic run, in a native run for the files named in the //sym:native directive.
package clock

import "time"

const Replace = `
time.Now = Now
time.Since = Since
time.Until = Until
time.AfterFunc = afterFunc
(*time.Timer).Stop = stop
(*time.Timer).Reset = reset
`

// Start is where the clock stands at first.
var Start = time.Unix(1795089600, 0) // 2026-11-19 12:00:00 UTC

var now = Start

func Now() time.Time { return now }

func Since(t time.Time) time.Duration { return now.Sub(t) }

func Until(t time.Time) time.Duration { return t.Sub(now) }

func Set(t time.Time) { now = t }

// Alarm is a function that waits for its time.
type Alarm struct {
	D    time.Duration // how long it waits
	F    func()
	from time.Time
	t    *time.Timer
	off  bool
}

// At is its time.
func (a *Alarm) At() time.Time { return a.from.Add(a.D) }

var alarms []*Alarm

func wait(d time.Duration, f func()) *Alarm {
	a := &Alarm{D: d, F: f, from: now, t: new(time.Timer)}
	alarms = append(alarms, a)
	return a
}

func (a *Alarm) stop() bool {
	was := !a.off
	a.off = true
	return was
}

func (a *Alarm) reset(d time.Duration) bool {
	was := !a.off
	a.off = false
	a.D, a.from = d, now
	return was
}

// in symbolic runs, for those of package time

func of(t *time.Timer) *Alarm {
	for _, a := range alarms {
		if a.t == t {
			return a
		}
	}
	panic("not a timer of the clock")
}

func afterFunc(d time.Duration, f func()) *time.Timer { return wait(d, f).t }
func stop(t *time.Timer) bool                         { return of(t).stop() }
func reset(t *time.Timer, d time.Duration) bool       { return of(t).reset(d) }

// in native runs, instead of those of package time

type Timer struct {
	C <-chan time.Time
	a *Alarm
}

func AfterFunc(d time.Duration, f func()) *Timer { return &Timer{a: wait(d, f)} }
func (t *Timer) Stop() bool                      { return t.a.stop() }
func (t *Timer) Reset(d time.Duration) bool      { return t.a.reset(d) }

// Waiting are the functions that wait.
func Waiting() (w []*Alarm) {
	for _, a := range alarms {
		if !a.off {
			w = append(w, a)
		}
	}
	return
}

// Ring runs a function that waits; the clock is to stand at its time.
func (a *Alarm) Ring() {
	a.off = true
	a.F()
}

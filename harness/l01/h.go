package h

import (
	"errors"
	"log"
	"runtime"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds the eight levels against every level of the logger and of the process from -1 to 9, with and without a format, plain and request loggers, prefixes and parsers of a prefix; messages, prefixes and request ids of 1 to 3 (thorough 5) arbitrary bytes, one or two of them, and 6 formats; flat or not, colored or not, with a stack by level, by call or not; panics of 5 kinds of value under Recover; places up to two callers above the call; messages of up to 4097 (thorough 65537) bytes and up to 129 (1025) records, of the sizes next to powers of two and round numbers
//sym:assume the records are written to a Go log.Logger without flags, or to an own printer

type writer struct{ writes []string }

func (w *writer) Write(p []byte) (int, error) {
	w.writes = append(w.writes, string(p))
	return len(p), nil
}

type printer struct{ prints [][]interface{} }

func (p *printer) Print(v ...interface{}) { p.prints = append(p.prints, v) }

var names = []string{"", "[EMERGENCY]", "[ALERT]", "[CRITCIAL]", "[ERROR]", "[WARN]", "[NOTICE]", "[INFO]", "[DEBUG]"}

// call logs at a level, with a format or without.
func call(l strip.Logger, level int, f bool, format string, v ...interface{}) {
	if f {
		[]func(string, ...interface{}){nil, l.Emergencyf, l.Alertf, l.Critcialf, l.Errorf, l.Warnf, l.Noticef, l.Infof, l.Debugf}[level](format, v...)
		return
	}
	[]func(...interface{}){nil, l.Emergency, l.Alert, l.Critcial, l.Error, l.Warn, l.Notice, l.Info, l.Debug}[level](v...)
}

// H_levels: a record is written if its level is one the logger and the process want, and then once.
func H_levels() {
	p := &printer{}
	var l strip.LoggerAdv = strip.NewLogger(p)
	if sym.Choose("request", 2) == 1 {
		l = strip.NewReqLogger(p, "id")
	}
	own, all := int(strip.LevelDebug), int(strip.LevelDebug)
	if sym.Choose("set", 2) == 1 {
		own = sym.IntRange("level", -1, 9)
		l.SetLevel(strip.Level(own))
	}
	if sym.Choose("global", 2) == 1 {
		all = sym.IntRange("process", -1, 9)
		strip.GlobalLevel = strip.Level(all)
		defer func() { strip.GlobalLevel = strip.LevelDebug }()
	}
	level := 1 + sym.Choose("of", 8)
	call(l, level, sym.Choose("f", 2) == 1, "%s", "x")
	want := sym.And(level <= own, level <= all)
	sym.Assert(sym.Iff(want, len(p.prints) == 1), "written")
	sym.Assert(sym.Implies(!want, len(p.prints) == 0), "not-written")
	if len(p.prints) == 1 {
		sym.Cover("written")
		sym.Assert(len(p.prints[0]) == 1, "one-text")
		s := p.prints[0][0].(string)
		sym.Assert(strings.HasPrefix(s, names[level]), "tag")
		sym.Assert(strings.HasSuffix(s, " x"), "message")
	}
}

// H_message: what is in a record.
func H_message() {
	w := &writer{}
	out := log.New(w, "", 0)
	l, want := logger(out)
	size := sym.Bound(3, 5)
	a, b := sym.String("a", sym.Choose("a-size", size+1)), ""
	f := sym.Choose("form", 10)
	var msg string
	level := 1 + sym.Choose("level", 8)
	if f > 0 {
		b = sym.String("b", sym.Choose("b-size", 2))
	}
	switch f {
	case 0:
		call(l, level, false, "", a)
		msg = a + "\n"
	case 1:
		call(l, level, false, "", a, b)
		msg = a + " " + b + "\n"
	case 2:
		call(l, level, true, "%s", a)
		msg = a
	case 3:
		call(l, level, true, "x%s\n%s", a, b)
		msg = "x" + a + "\n" + b
	case 4:
		call(l, level, true, "%d%%", 7)
		msg = "7%"
	case 5:
		call(l, level, true, "%v %s", errors.New(a), b, strip.LineOpt{Hidden: true})
		msg = a + " " + b
	case 6:
		call(l, level, false, "", a, b, strip.LineOpt{Hidden: true})
		msg = a + " " + b + "\n"
	case 7:
		call(l, level, false, "", a, nil)
		msg = a + " <nil>\n"
	case 8:
		call(l, level, false, "", 7, nil, nil)
		msg = "7 <nil> <nil>\n"
	case 9:
		call(l, level, true, "%s %v", a, nil)
		msg = a + " <nil>"
	}
	check(w, want(level), msg)
}

type form struct {
	flat  bool
	color bool
	head  string
}

// logger draws a logger, and what its records start with.
func logger(out strip.LogPrinter) (strip.LoggerAdv, func(level int) form) {
	var l strip.LoggerAdv
	prefix := ""
	switch sym.Choose("logger", 3) {
	case 0:
		l = strip.NewLogger(out)
	case 1:
		l = strip.NewLogger(out)
		prefix = sym.String("prefix", 1)
		l.SetPrefix(prefix)
	case 2:
		id := sym.String("id", 1)
		l = strip.NewReqLogger(out, id)
		prefix = "[" + id + "]"
		sym.Assert(l.(strip.ReqLogger).ReqId() == id, "request-id")
		if sym.Choose("and-prefix", 2) == 1 {
			l.SetPrefix("p")
			prefix += "p"
		}
	}
	if sym.Choose("parser", 2) == 1 {
		l.SetPrefixParser(func(v []interface{}) (string, []interface{}) { return "<" + strconv.Itoa(len(v)) + ">", v })
		prefix += "<>"
	}
	f := form{flat: true}
	if sym.Choose("flat", 2) == 1 {
		l.SetFlatLine(false)
		f.flat = false
	}
	if sym.Choose("color", 2) == 1 {
		l.SetColorMode(true)
		f.color = true
	}
	return l, func(level int) form {
		f.head = names[level] + prefix
		return f
	}
}

// escaped is a text with its line breaks shown.
func escaped(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, '\\', 'n')
		} else {
			out = append(out, s[i])
		}
	}
	return string(out)
}

func check(w *writer, f form, msg string) {
	sym.Assert(len(w.writes) == 1, "one-write")
	got := w.writes[0]
	if i := strings.Index(f.head, "<>"); i >= 0 { // the parser puts the number of values there
		j := strings.Index(got, "<")
		for k := j; ; k++ {
			if k+2 >= len(got) {
				sym.Fail("prefix-parser")
			}
			if got[k] == '<' && got[k+2] == '>' && got[k+1] >= '0' && got[k+1] <= '9' {
				sym.Assert(got[k+1] >= '1' && got[k+1] <= '3', "values")
				got = got[:k+1] + got[k+2:]
				break
			}
		}
	}
	sym.Assert(got[len(got)-1] == '\n', "newline")
	want := f.head
	if f.flat {
		sym.Cover("flat")
		sym.Assert(!strings.Contains(got[:len(got)-1], "\n"), "one-line")
		want = escaped(want)
		msg = escaped(strings.TrimSuffix(msg, "\n"))
	} else {
		sym.Cover("lines")
		msg = strings.TrimSuffix(msg, "\n")
	}
	if f.color {
		sym.Cover("colored")
		sym.Assert(strings.HasPrefix(got, "\x1b[1;") && len(got) > 7 && got[6] == 'm', "color")
		sym.Assert(got[7:] == want+"\x1b[0m "+msg+"\n", "colored-record")
		return
	}
	sym.Assert(got == want+" "+msg+"\n", "record")
}

// H_stack: the stack comes after the message, when it is wanted.
func H_stack() {
	p := &printer{}
	l := strip.NewLogger(p)
	flat := sym.Choose("flat", 2) == 1
	l.SetFlatLine(flat)
	from := sym.Choose("from", 10)
	l.EnableLogStack(strip.Level(from))
	level := 1 + sym.Choose("level", 8)
	msg := []string{"m", "PANIC: x", "STACK: x", "PANIC", "xPANIC "}[sym.Choose("message", 5)]
	opt := sym.Choose("opt", 3)
	f := sym.Choose("f", 2) == 1
	switch opt {
	case 0:
		call(l, level, f, msg)
		if !f {
			p.prints = nil
			call(l, level, f, "", msg)
		}
	case 1:
		call(l, level, f, "%s", msg, strip.LineOpt{Stack: true})
	case 2:
		call(l, level, f, "%s", msg, strip.LineOpt{})
	}
	sym.Assert(len(p.prints) == 1 && len(p.prints[0]) == 1, "one-print")
	got := p.prints[0][0].(string)
	sym.Assert(strings.HasPrefix(got, names[level]+" "+msg), "message")
	rest := got[len(names[level])+1+len(msg):]
	if from >= level || opt == 1 {
		if msg == "PANIC: x" || msg == "STACK: x" {
			sym.Assert(strings.Trim(rest, "\n") == "", "no-second-stack")
		} else if msg != "PANIC" { // five letters and a line break or not
			sym.Cover("stack")
			brk := "\n"
			if flat {
				brk = "\\n"
			}
			sym.Assert(strings.HasPrefix(rest, brk), "stack-apart")
			sym.Assert(strings.Contains(rest, ".go:"), "stack")
		}
	} else {
		sym.Cover("none")
		sym.Assert(strings.Trim(rest, "\n") == "", "no-stack")
	}
	if flat {
		sym.Assert(!strings.Contains(got, "\n"), "one-line")
	}
}

// H_line: line information names the place of the call, or of a caller of it.
func H_line() {
	p := &printer{}
	var l strip.LoggerAdv = strip.NewLogger(p)
	if sym.Choose("request", 2) == 1 {
		l = strip.NewReqLogger(p, "id")
	}
	l.SetLineInfo(true)
	l.SetShortLine(sym.Choose("short", 2) == 1)
	shown, up := true, 0
	var opt []interface{}
	stack := false
	switch sym.Choose("option", 5) {
	case 1:
		up = sym.Choose("up", 3)
		opt = append(opt, strip.LineOpt{Depth: up})
	case 4:
		up, stack = sym.Choose("up", 3), true
		opt = append(opt, strip.LineOpt{Depth: up, Stack: true})
	case 2:
		shown = false
		opt = append(opt, strip.LineOpt{Hidden: true})
	case 3:
		up = sym.Choose("up", 3)
		l.SetFuncDepth(4 + up)
	}
	level, f := 1+sym.Choose("level", 8), sym.Choose("f", 2) == 1
	line := func() int { _, _, n, _ := runtime.Caller(1); return n }
	var at [3]int
	outer := func() { at[1] = line(); at[0] = place(l, level, f, opt) }
	func() { at[2] = line(); outer() }()
	sym.Assert(len(p.prints) == 1, "once")
	got := p.prints[0][0].(string)
	if shown {
		sym.Cover("shown")
		i := strings.Index(got, "[\"")
		sym.Assert(i >= 0, "shown")
		j := strings.Index(got, "\"] ")
		sym.Assert(j > i && strings.HasSuffix(got[:j], "h.go:"+strconv.Itoa(at[up])), "place")
		if k := strings.Index(got[j:], ".go:"); stack {
			sym.Cover("stack")
			sym.Assert(k > 0 && strings.HasPrefix(got[j+k:], ".go:"+strconv.Itoa(at[up])+" "), "stack-from-there")
		} else {
			sym.Assert(k < 0, "no-stack")
		}
	} else {
		sym.Cover("hidden")
		sym.Assert(!strings.Contains(got, ".go"), "hidden")
	}
}

// place logs at a level, and says from which line.
func place(l strip.Logger, level int, f bool, opt []interface{}) int {
	_, _, line, _ := runtime.Caller(0)
	formats := []func(string, ...interface{}){nil, l.Emergencyf, l.Alertf, l.Critcialf, l.Errorf, l.Warnf, l.Noticef, l.Infof, l.Debugf}
	plain := []func(...interface{}){nil, l.Emergency, l.Alert, l.Critcial, l.Error, l.Warn, l.Notice, l.Info, l.Debug}
	if f {
		formats[level]("x", opt...)
		return line + 4
	}
	plain[level](append([]interface{}{"x"}, opt...)...)
	return line + 7
}

type fault struct{ s string }

// H_recover: what a function panics with is given back and logged, and nothing else is.
func H_recover() {
	p := &printer{}
	l := strip.NewLogger(p)
	s := sym.String("s", 2)
	kind := sym.Choose("panic", 5)
	ran := false
	f := func() {
		ran = true
		switch kind {
		case 1:
			panic("t" + s)
		case 2:
			panic(errors.New("t" + s))
		case 3:
			panic(42)
		case 4:
			panic(&fault{s})
		}
	}
	level := sym.Choose("level", 9)
	own := sym.IntRange("own", 0, 9)
	l.SetLevel(strip.Level(own))
	var err interface{}
	if level == 0 {
		level = int(strip.LevelError)
		err = l.Recover(f)
	} else {
		err = l.Recover(f, strip.Level(level))
	}
	sym.Assert(ran, "ran")
	if kind == 0 {
		sym.Assert(err == nil, "no-error")
		sym.Assert(len(p.prints) == 0, "nothing-logged")
		return
	}
	sym.Cover("panicked")
	text := "t" + s
	switch kind {
	case 1:
		sym.Assert(err == interface{}("t"+s), "value")
	case 2:
		sym.Assert(err.(error).Error() == "t"+s, "value")
	case 3:
		sym.Assert(err == interface{}(42), "value")
		text = "42"
	case 4:
		sym.Assert(err.(*fault).s == s, "value")
		text = ""
	}
	sym.Assert(sym.Iff(level <= own, len(p.prints) == 1), "logged")
	if len(p.prints) > 0 {
		sym.Assert(len(p.prints) == 1, "logged-once")
		got := p.prints[0][0].(string)
		sym.Assert(strings.HasPrefix(got, names[level]+" "+escaped(text)), "panic-text")
		sym.Assert(!strings.Contains(got, "\n"), "one-line")
	}
}

// Long messages, and many of them.
//
//sym:covers long many
func H_large() {
	w := &writer{}
	l := strip.NewLogger(log.New(w, "", 0))
	if sym.Choose("what", 2) == 0 {
		sym.Cover("long")
		f := form{flat: true, head: names[4]}
		if sym.Choose("flat", 2) == 1 {
			l.SetFlatLine(false)
			f.flat = false
		}
		if sym.Choose("color", 2) == 1 {
			l.SetColorMode(true)
			f.color = true
		}
		a := hx.Long("message", sym.Bound(4097, 65537), "\n%\x00\xff")
		switch sym.Choose("form", 3) {
		case 0:
			call(l, 4, false, "", a)
			check(w, f, a+"\n")
		case 1:
			call(l, 4, true, "%s", a)
			check(w, f, a)
		case 2:
			call(l, 4, true, "%s|%s", "x", a)
			check(w, f, "x|"+a)
		}
		return
	}
	sym.Cover("many")
	n := hx.Size("records", 4, sym.Bound(129, 1025))
	for i := 0; i < n; i++ {
		call(l, 1+i%4, i%2 == 1, "%d", i)
	}
	sym.Assert(len(w.writes) == n, "one-write")
	for i, s := range w.writes {
		sym.Assert(s == names[1+i%4]+" "+strconv.Itoa(i)+"\n", "record")
	}
}

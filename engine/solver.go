package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// Solver is one incremental SMT process; its assertion stack mirrors a path condition.
type Solver struct {
	bin     []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	gen     uint32
	idx     int // 0 main, 1 cross-check
	timeout int // ms

	Queries, NSat, NUnsat, NUnknown int
	Time                            time.Duration
	errs                            []string
}

func newSolver(bin []string, timeoutMs int, idx int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMs, idx: idx}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		fatalf("cannot start solver %v: %v", s.bin, err)
	}
	s.gen++ // fresh emission generation
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n")
	if strings.Contains(s.bin[0], "cvc5") {
		fmt.Fprintf(s.in, "(set-option :tlimit-per %d)\n(set-logic QF_BV)\n", s.timeout)
	} else {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

// check decides pc /\ extra.  On Sat the values of vars are returned.
func (s *Solver) check(pc []*Term, extra *Term, vars []*Term) (SatRes, []uint64) {
	t0 := time.Now()
	defer func() {
		s.Time += time.Since(t0)
		if d := time.Since(t0); slowQ && d > 2*time.Second {
			fmt.Fprintln(os.Stderr, "SLOW", d)
			for _, q := range pc {
				fmt.Fprintln(os.Stderr, "  pc", q.String())
			}
			fmt.Fprintln(os.Stderr, "  q ", extra.String())
		}
	}()
	s.Queries++
	var sb strings.Builder
	for _, q := range pc {
		q.emit(&sb, s.idx, s.gen)
	}
	if extra != nil {
		extra.emit(&sb, s.idx, s.gen)
	}
	for _, v := range vars {
		v.emit(&sb, s.idx, s.gen)
	}
	sb.WriteString("(push 1)\n")
	for _, q := range pc {
		fmt.Fprintf(&sb, "(assert %s)\n", q.name())
	}
	if extra != nil {
		fmt.Fprintf(&sb, "(assert %s)\n", extra.name())
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.errs = append(s.errs, "write: "+err.Error())
		s.restart()
		s.NUnknown++
		return Unknown, nil
	}
	res := Unknown
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.errs = append(s.errs, "read: "+err.Error())
		s.restart()
		s.NUnknown++
		return Unknown, nil
	}
	switch strings.TrimSpace(line) {
	case "sat":
		res = Sat
		s.NSat++
	case "unsat":
		res = Unsat
		s.NUnsat++
	case "unknown":
		s.NUnknown++
	default:
		// an (error line: nothing this process says can be trusted any more
		s.errs = append(s.errs, strings.TrimSpace(line))
		s.restart()
		s.NUnknown++
		return Unknown, nil
	}
	var model []uint64
	if res == Sat && len(vars) > 0 {
		sb.Reset()
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.name())
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		io.WriteString(s.in, sb.String())
		txt, ok := s.readSexp()
		if !ok {
			s.errs = append(s.errs, "get-value: "+txt)
			s.restart()
			return Unknown, nil
		}
		vals := parseValues(txt, len(vars))
		if vals == nil {
			s.errs = append(s.errs, "get-value parse: "+txt)
			s.restart()
			return Unknown, nil
		}
		model = vals
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res, model
}

func (s *Solver) readSexp() (string, bool) {
	var sb strings.Builder
	depth := 0
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String(), false
		}
		sb.WriteString(line)
		for _, ch := range line {
			if ch == '(' {
				depth++
			} else if ch == ')' {
				depth--
			}
		}
		if depth == 0 {
			break
		}
	}
	t := sb.String()
	return t, !strings.HasPrefix(t, "(error")
}

func parseValues(txt string, n int) []uint64 {
	res := make([]uint64, 0, n)
	// ((name value) (name value) ...), value: #x.. #b.. true false (_ bvN w)
	fields := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i < len(fields); {
		i++ // name
		if i >= len(fields) {
			return nil
		}
		f := fields[i]
		i++
		var v uint64
		var err error
		switch {
		case f == "true":
			v = 1
		case f == "false":
			v = 0
		case strings.HasPrefix(f, "#x"):
			v, err = strconv.ParseUint(f[2:], 16, 64)
		case strings.HasPrefix(f, "#b"):
			v, err = strconv.ParseUint(f[2:], 2, 64)
		case f == "_" && i+1 < len(fields):
			v, err = strconv.ParseUint(strings.TrimPrefix(fields[i], "bv"), 10, 64)
			i += 2
		default:
			return nil
		}
		if err != nil {
			return nil
		}
		res = append(res, v)
	}
	if len(res) != n {
		return nil
	}
	return res
}

var slowQ = os.Getenv("GOSYM_SLOW") != ""

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type config struct {
	prop, tier, repo, verif, only string
	seed                          int64
	budget                        time.Duration
	keep, verbose, profile        bool
	noMerge, noNative             bool
	maxPaths, workers             int
	solverName                    string
	scratch                       string
}

type harnessInfo struct {
	name      string
	expected  []string // cover labels that must be reached
	preempt   [2]int
	maxSteps  int64
	maxDepth  int
	maxPaths  int
	isolated  bool
	weight    float64
	schedStop bool
}

type propInfo struct {
	dir       string
	files     map[string]string // name -> abs path
	bounds    []string
	assumes   []string
	replaces  [][2]string
	src       []string
	noMerge   bool
	stubs     []string
	natRepl   [][2]string
	harnesses []*harnessInfo
	raceBuild bool
	stress    int
}

var tagsSym = "purego,math_big_pure_go,netgo,osusergo,gosym"

func main() {
	var c config
	flag.StringVar(&c.prop, "prop", "", "property id")
	flag.StringVar(&c.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&c.repo, "repo", "/repo", "")
	flag.StringVar(&c.verif, "verif", "/verif", "")
	flag.StringVar(&c.only, "only", "", "run only this harness function")
	flag.DurationVar(&c.budget, "budget", 0, "time budget for exploration")
	flag.BoolVar(&c.keep, "keep", false, "keep scratch directory")
	flag.BoolVar(&c.verbose, "v", false, "")
	flag.BoolVar(&c.profile, "profile", false, "print where paths fork")
	flag.BoolVar(&c.noMerge, "nomerge", false, "")
	flag.BoolVar(&c.noNative, "nonative", false, "skip native validation")
	flag.IntVar(&c.maxPaths, "maxpaths", 0, "")
	flag.IntVar(&c.workers, "workers", 0, "")
	flag.StringVar(&c.solverName, "solver", "z3-new", "z3, z3-new or cvc5")
	cpu := flag.String("cpuprofile", "", "")
	replay := flag.String("replay", "", "replay a recorded violation natively")
	flag.Parse()
	if *cpu != "" {
		if f, err := os.Create(*cpu); err == nil {
			pprof.StartCPUProfile(f)
			go func() { time.Sleep(40 * time.Second); pprof.StopCPUProfile(); f.Close() }()
		}
	}
	c.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if c.budget == 0 {
		c.budget = 500 * time.Second
		if c.tier == "thorough" {
			c.budget = 780 * time.Second
		}
	}
	if c.workers == 0 {
		c.workers = runtime.NumCPU()
		if c.workers > 8 {
			c.workers = 8
		}
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	debug.SetMaxStack(1 << 30)
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatalf("%v", err)
	}
	c.scratch = d
	code := 2
	if *replay != "" {
		code = c.replayFile(*replay)
	} else {
		code = c.check()
	}
	if !c.keep {
		os.RemoveAll(d)
	}
	os.Exit(code)
}

// loadProp reads the harness directory of a property.
func (c *config) loadProp() *propInfo {
	pi := &propInfo{dir: filepath.Join(c.verif, "harness", strings.ToLower(c.prop)), files: map[string]string{}}
	ents, err := os.ReadDir(pi.dir)
	if err != nil {
		fatalf("no harness for %s: %v", c.prop, err)
	}
	reFn := regexp.MustCompile(`(?m)^func (H_\w+)\(\)`)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		abs := filepath.Join(pi.dir, e.Name())
		pi.files[e.Name()] = abs
		data, err := os.ReadFile(abs)
		if err != nil {
			fatalf("%v", err)
		}
		pi.src = append(pi.src, string(data))
		cur := &harnessInfo{}
		for _, line := range strings.Split(string(data), "\n") {
			if m := reFn.FindStringSubmatch(line); m != nil {
				cur.name = m[1]
				pi.harnesses = append(pi.harnesses, cur)
				cur = &harnessInfo{}
				continue
			}
			if !strings.HasPrefix(line, "//sym:") {
				continue
			}
			f := strings.Fields(line[6:])
			rest := strings.TrimSpace(strings.TrimPrefix(line[6:], f[0]))
			num := func(i int) int { n, _ := strconv.Atoi(f[i]); return n }
			switch f[0] {
			case "bounds":
				pi.bounds = append(pi.bounds, rest)
			case "assume":
				pi.assumes = append(pi.assumes, rest)
			case "replace":
				pi.replaces = append(pi.replaces, [2]string{f[1], f[2]})
			case "stubs":
				pi.stubs = append(pi.stubs, f[1:]...)
			case "native":
				pi.natRepl = append(pi.natRepl, [2]string{f[1], f[2]})
			case "race":
				pi.raceBuild = true
			case "nomerge": // fork at every undecided branch: no merged values, simpler terms
				pi.noMerge = true
			case "stress":
				pi.stress = num(1)
			case "preempt":
				cur.preempt = [2]int{num(1), num(len(f) - 1)}
			case "steps":
				cur.maxSteps = int64(num(1))
			case "depth":
				cur.maxDepth = num(1)
			case "covers":
				cur.expected = append(cur.expected, f[1:]...)
			default:
				fatalf("unknown directive %s in %s", f[0], abs)
			}
		}
	}
	sort.SliceStable(pi.harnesses, func(i, j int) bool { return pi.harnesses[i].name < pi.harnesses[j].name })
	return pi
}

// overlay: virtual path -> real path
func (c *config) overlayFiles(pi *propInfo) map[string]string {
	ov := map[string]string{}
	base := filepath.Join(c.repo, "zz_verif")
	ov[filepath.Join(base, "sym", "sym.go")] = filepath.Join(c.verif, "sym", "sym.go")
	hx, _ := filepath.Glob(filepath.Join(c.verif, "harness", "hx", "*.go"))
	for _, f := range hx {
		ov[filepath.Join(base, "hx", filepath.Base(f))] = f
	}
	for _, data := range pi.src {
		for _, lib := range []string{"symfs", "kv", "mac", "clock", "gz"} {
			if strings.Contains(data, repoMod+"/zz_verif/"+lib+"\"") {
				files, _ := filepath.Glob(filepath.Join(c.verif, "harness", lib, "*.go"))
				for _, f := range files {
					ov[filepath.Join(base, lib, filepath.Base(f))] = f
				}
			}
		}
	}
	for n, abs := range pi.files {
		ov[filepath.Join(base, "h", n)] = abs
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\th \"" + repoMod + "/zz_verif/h\"\n\t\"" + repoMod + "/zz_verif/sym\"\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, h := range pi.harnesses {
		sb.WriteString("\t\t\"" + h.name + "\": h." + h.name + ",\n")
	}
	sb.WriteString("\t})\n}\n")
	mainFile := filepath.Join(c.scratch, "main.go")
	if err := os.WriteFile(mainFile, []byte(sb.String()), 0644); err != nil {
		fatalf("%v", err)
	}
	ov[filepath.Join(base, "m", "main.go")] = mainFile
	return ov
}

func (c *config) modfile(pi *propInfo) string {
	mod, err := os.ReadFile(filepath.Join(c.repo, "go.mod"))
	if err != nil {
		fatalf("%v", err)
	}
	sum, _ := os.ReadFile(filepath.Join(c.repo, "go.sum"))
	if len(pi.stubs) > 0 {
		var sb strings.Builder
		sb.Write(mod)
		sb.WriteString("\n")
		for _, s := range [][2]string{{"github.com/bradfitz/gomemcache", "gomemcache"}, {"github.com/mediocregopher/radix.v2", "radix.v2"}, {"github.com/globalsign/mgo", "mgo"}} {
			if !slices.Contains(pi.stubs, s[1]) {
				continue
			}
			fmt.Fprintf(&sb, "replace %s => %s\n", s[0], filepath.Join(c.verif, "stubs", s[1]))
		}
		mod = []byte(sb.String())
	}
	f := filepath.Join(c.scratch, "go.mod")
	os.WriteFile(f, mod, 0644)
	os.WriteFile(filepath.Join(c.scratch, "go.sum"), sum, 0644)
	return f
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GO111MODULE=on", "GOWORK=off")
}

type native struct {
	bin  string
	err  error
	done chan bool
}

// buildNative compiles the harness with the real toolchain, in the background.
func (c *config) buildNative(pi *propInfo, ov map[string]string, modfile string) *native {
	n := &native{bin: filepath.Join(c.scratch, "native"), done: make(chan bool)}
	repl := map[string]string{}
	for k, v := range ov {
		repl[k] = v
	}
	var rws [][2]string
	for _, r := range pi.natRepl {
		files, _ := filepath.Glob(filepath.Join(c.repo, r[0]))
		for _, f := range files {
			if !strings.HasSuffix(f, "_test.go") {
				rws = append(rws, [2]string{f, r[1]})
			}
		}
	}
	for i, r := range rws { // generated from the current source by a rewriting rule
		src := r[0]
		data, err := os.ReadFile(src)
		if err != nil {
			n.err = err
			close(n.done)
			return n
		}
		out, err := rewrite(r[1], data)
		if err != nil {
			n.err = err
			close(n.done)
			return n
		}
		dst := filepath.Join(c.scratch, fmt.Sprintf("rw%d.go", i))
		os.WriteFile(dst, out, 0644)
		repl[src] = dst
	}
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(c.scratch, "overlay.json")
	os.WriteFile(ovf, js, 0644)
	go func() {
		defer close(n.done)
		args := []string{"build", "-mod=mod", "-modfile=" + modfile, "-overlay=" + ovf, "-o", n.bin}
		env := goEnv()
		if pi.raceBuild {
			args = append(args, "-race")
		} else {
			env = append(env, "CGO_ENABLED=0")
		}
		args = append(args, repoMod+"/zz_verif/m")
		cmd := exec.Command("go", args...)
		cmd.Dir = c.repo
		cmd.Env = env
		if out, err := cmd.CombinedOutput(); err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return n
}

type natResult struct {
	lines   []string
	stderr  string
	timeout bool
	exit    error
}

func (r *natResult) has(prefix string) string {
	for _, l := range r.lines {
		if strings.HasPrefix(l, prefix) {
			return l[len(prefix):]
		}
	}
	return ""
}

type traceFile struct {
	Property string    `json:"property"`
	Harness  string    `json:"harness"`
	Thorough bool      `json:"thorough"`
	Kind     string    `json:"kind,omitempty"`
	Label    string    `json:"label,omitempty"`
	Msg      string    `json:"msg,omitempty"`
	Draws    []drawOut `json:"draws"`
	Text     []string  `json:"inputs,omitempty"`
	Schedule []string  `json:"schedule,omitempty"`
}
type drawOut struct {
	Kind  string `json:"k"`
	Label string `json:"l"`
	Val   uint64 `json:"v"`
}

func outDraws(ds []draw) []drawOut {
	r := []drawOut{}
	for _, d := range ds {
		r = append(r, drawOut{d.kind, d.label, d.val})
	}
	return r
}

// text form of a trace: consecutive bytes of one label joined to a string
func textDraws(ds []draw) []string {
	r := []string{}
	for i := 0; i < len(ds); {
		d := ds[i]
		if d.kind == "byte" {
			var b []byte
			j := i
			for j < len(ds) && ds[j].kind == "byte" && ds[j].label == d.label {
				b = append(b, byte(ds[j].val))
				j++
			}
			r = append(r, d.label+"="+strconv.Quote(string(b)))
			i = j
			continue
		}
		switch d.kind {
		case "int", "int64", "int32", "int16", "int8":
			w := d.w
			if w == 8 && d.kind == "int" {
				r = append(r, fmt.Sprintf("%s=%d", d.label, d.val))
			} else {
				r = append(r, fmt.Sprintf("%s=%d", d.label, sext(d.val, w)))
			}
		default:
			r = append(r, fmt.Sprintf("%s=%d", d.label, d.val))
		}
		i++
	}
	return r
}

var natSeq struct {
	sync.Mutex
	n int
}

func (c *config) runNative(n *native, tf *traceFile, timeout time.Duration) *natResult {
	natSeq.Lock()
	natSeq.n++
	k := natSeq.n
	natSeq.Unlock()
	in := filepath.Join(c.scratch, fmt.Sprintf("in%d.json", k))
	out := filepath.Join(c.scratch, fmt.Sprintf("out%d", k))
	wd := filepath.Join(c.scratch, fmt.Sprintf("wd%d", k))
	os.Mkdir(wd, 0755)
	defer os.RemoveAll(wd)
	js, _ := json.Marshal(tf)
	os.WriteFile(in, js, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 16000000; exec \"$0\"", n.bin)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Dir = wd
	cmd.Env = []string{"SYM_REPLAY=" + in, "SYM_OUT=" + out, "HOME=" + wd, "TMPDIR=" + wd, "TZ=UTC", "PATH=/usr/bin:/bin", "GORACE=halt_on_error=0"}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err := cmd.Run()
	r := &natResult{stderr: eb.String(), exit: err, timeout: ctx.Err() != nil}
	data, _ := os.ReadFile(out)
	for _, l := range strings.Split(string(data), "\n") {
		if l != "" {
			r.lines = append(r.lines, l)
		}
	}
	os.Remove(in)
	os.Remove(out)
	return r
}

// reproduced: the native run shows the violation the engine reported.
func (c *config) reproduced(n *native, tf *traceFile, stress int) (bool, string) {
	runs := 1
	if stress > 0 && (len(tf.Schedule) > 0 || tf.Kind == "deadlock" || tf.Kind == "race") {
		runs = stress
	}
	last := ""
	for i := 0; i < runs; i++ {
		r := c.runNative(n, tf, 20*time.Second)
		last = strings.Join(r.lines, " | ")
		if len(last) > 600 {
			last = last[:600]
		}
		if len(r.stderr) > 0 {
			last += " stderr: " + firstLine(r.stderr)
		}
		switch tf.Kind {
		case "assert":
			if r.has("VIOL ") != "" {
				return true, last
			}
		case "panic":
			if r.has("PANIC") != "" || strings.Contains(r.stderr, "panic:") || strings.Contains(r.stderr, "fatal error:") {
				return true, last
			}
		case "overflow":
			if strings.Contains(r.stderr, "stack overflow") || strings.Contains(r.stderr, "stack exceeds") || r.timeout {
				return true, last
			}
		case "nontermination":
			if r.timeout || strings.Contains(r.stderr, "out of memory") || strings.Contains(r.stderr, "stack exceeds") {
				return true, last
			}
		case "hugealloc":
			a, _ := strconv.ParseUint(strings.TrimSpace(r.has("ALLOC ")), 10, 64)
			if a > 32<<20 || strings.Contains(r.stderr, "out of memory") || r.has("PANIC") != "" {
				return true, last
			}
		case "deadlock":
			if r.timeout || strings.Contains(r.stderr, "all goroutines are asleep") {
				return true, last
			}
		case "race":
			if strings.Contains(r.stderr, "DATA RACE") {
				return true, last
			}
		}
		// any assertion the harness reports natively is a failure of the real code
		if r.has("VIOL ") != "" {
			return true, last
		}
	}
	return false, last
}

type finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func (c *config) known() []finding {
	var r struct {
		Findings []finding `json:"findings"`
	}
	data, err := os.ReadFile(filepath.Join(c.verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(data, &r); err != nil {
		fatalf("known_findings.json: %v", err)
	}
	return r.Findings
}

func (c *config) solverCmd(name string) []string {
	switch name {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--produce-models", "--lang", "smt2"}
	case "z3-new":
		return []string{"z3-new", "-in"}
	}
	return []string{"z3", "-in"}
}

func (c *config) check() int {
	start := time.Now()
	pi := c.loadProp()
	ov := c.overlayFiles(pi)
	mf := c.modfile(pi)
	var nat *native
	if !c.noNative {
		nat = c.buildNative(pi, ov, mf)
	}
	srcs := map[string][]byte{}
	for k, v := range ov {
		data, err := os.ReadFile(v)
		if err != nil {
			fatalf("%v", err)
		}
		srcs[k] = data
	}
	p, err := loadProgram(c.repo, srcs, mf, []string{repoMod + "/zz_verif/h"}, tagsSym)
	if err != nil {
		fmt.Fprintf(os.Stderr, "gosym: %v\n", err)
		return 2
	}
	hp := p.all[repoMod+"/zz_verif/h"]
	// functions the standard library links to another package's
	for from, to := range map[string][2]string{"mime/multipart.readMIMEHeader": {"net/textproto", "readMIMEHeader"}} {
		if sp := p.all[to[0]]; sp != nil && sp.Func(to[1]) != nil {
			p.replace[from] = sp.Func(to[1])
		}
	}
	for _, lib := range []string{"symfs", "mac", "clock", "gz"} {
		fp := p.all[repoMod+"/zz_verif/"+lib]
		if fp == nil {
			continue
		}
		for _, l := range strings.Split(constant.StringVal(fp.Const("Replace").Value.Value), "\n") {
			if f := strings.Split(l, " = "); len(f) == 2 {
				p.replace[f[0]] = fp.Func(f[1])
			}
		}
	}
	for _, r := range pi.replaces {
		f := hp.Func(r[1])
		if f == nil {
			if x := p.all[repoMod+"/zz_verif/hx"]; x != nil {
				f = x.Func(r[1])
			}
		}
		if f == nil {
			fatalf("replacement %s not found", r[1])
		}
		p.replace[r[0]] = f
	}
	loadS := time.Since(start).Seconds()

	type run struct {
		h *harnessInfo
		e *explorer
		s float64
	}
	var runs []*run
	todo := 0
	for _, h := range pi.harnesses {
		if c.only == "" || c.only == h.name {
			todo++
		}
	}
	deadline := start.Add(c.budget)
	kn := c.known()
	for _, h := range pi.harnesses {
		if c.only != "" && c.only != h.name {
			continue
		}
		fn := hp.Func(h.name)
		if fn == nil {
			fatalf("harness %s not found", h.name)
		}
		remaining := time.Until(deadline)
		share := remaining
		if todo > 1 {
			share = remaining * 2 / time.Duration(todo+1)
		}
		todo--
		e := &explorer{p: p, harness: fn, workers: c.workers, solver: c.solverCmd(c.solverName), qTimeout: 20000, deadline: time.Now().Add(share),
			seed: c.seed, nWitness: 12, thorough: c.tier == "thorough", noMerge: c.noMerge || pi.noMerge, profile: c.profile, maxPaths: c.maxPaths,
			maxSteps: h.maxSteps, maxDepth: h.maxDepth, preempt: h.preempt[0]}
		if e.thorough {
			e.preempt = h.preempt[1]
			e.cross = c.solverCmd("cvc5")
			e.nWitness = 60
		}
		e.stopAt = func(v *violation) bool {
			for _, k := range kn {
				if k.Fixed == "" && k.Property == c.prop && k.Harness == h.name && k.Label == v.Label {
					return false
				}
			}
			return true
		}
		t0 := time.Now()
		e.run()
		r := &run{h, e, time.Since(t0).Seconds()}
		runs = append(runs, r)
		if c.verbose || c.profile {
			fmt.Printf("%s: %d paths (%d pruned), %d VCs (%d concrete), %d queries, %d merges, steps %d, solver %.1fs, wall %.1fs, incomplete %v\n", h.name, e.total.paths, e.total.pruned,
				e.total.vcs, e.total.vcConcrete, e.total.queries, e.total.merges, e.total.steps, e.total.solverTime.Seconds(), r.s, e.incomplete)
			fmt.Printf("   covers %v\n", e.total.covers)
			for _, s := range sortedKeys(e.unsupp) {
				fmt.Println("   ", s)
			}
			if c.profile {
				ks := sortedKeys(e.total.brCount)
				sort.SliceStable(ks, func(i, j int) bool { return e.total.brCount[ks[i]] > e.total.brCount[ks[j]] })
				for i, k := range ks {
					if i > 25 {
						break
					}
					fmt.Printf("   %6d %s\n", e.total.brCount[k], k)
				}
			}
		}
	}
	exploreS := time.Since(start).Seconds() - loadS

	if nat != nil {
		<-nat.done
		if nat.err != nil {
			fmt.Fprintf(os.Stderr, "gosym: %v\n", nat.err)
			return 2
		}
	}
	// ---- verdicts
	code := 0
	nviol := 0
	knownSeen := map[string]bool{}
	var notes []string
	reported := map[string]bool{}
	unconfirmed := 0
	for _, r := range runs {
		for _, v := range r.e.violations {
			tf := &traceFile{Property: c.prop, Harness: r.h.name, Thorough: c.tier == "thorough", Kind: v.Kind, Label: v.Label, Msg: v.Msg, Draws: outDraws(v.Draws), Text: textDraws(v.Draws)}
			for _, s := range v.Sched {
				tf.Schedule = append(tf.Schedule, fmt.Sprintf("g%d->g%d at %s", s.From, s.To, s.Where))
			}
			key := r.h.name + "/" + v.Label
			if reported[key] {
				continue
			}
			ok, how := false, "native replay skipped"
			if nat != nil {
				ok, how = c.reproduced(nat, tf, pi.stress)
			}
			if !ok {
				fmt.Printf("counterexample %s/%s (%s): %s\n   inputs: %s\n   native: %s\n", c.prop, key, v.Kind, v.Msg, strings.Join(tf.Text, " "), how)
				if len(tf.Schedule) > 0 {
					fmt.Printf("   schedule: %s\n", strings.Join(tf.Schedule, "; "))
				}
			}
			if !ok {
				unconfirmed++
				notes = append(notes, "not reproduced natively: "+key)
				continue
			}
			reported[key] = true
			isKnown := false
			for _, k := range kn {
				if k.Fixed == "" && k.Property == c.prop && k.Harness == r.h.name && k.Label == v.Label {
					isKnown = true
					if !knownSeen[key] {
						fmt.Printf("KNOWN-FINDING: property=%s %s [%s/%s]\n", c.prop, k.What, k.Harness, k.Label)
					}
					knownSeen[key] = true
				}
			}
			if isKnown {
				continue
			}
			nviol++
			dir := filepath.Join(c.verif, "replays")
			os.MkdirAll(dir, 0755)
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.prop, nviol))
			js, _ := json.MarshalIndent(tf, "", " ")
			os.WriteFile(path, js, 0644)
			fmt.Printf("violated: %s in %s: %s\n  %s\n  inputs: %s\n  real code: %s\n", c.prop, r.h.name, v.Label, firstLine(v.Msg), strings.Join(tf.Text, " "), how)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
			code = 1
		}
	}
	// ---- validate witnesses against the real code
	validated, mismatches := 0, 0
	var samples []any
	if nat != nil && nviol == 0 {
		type job struct {
			h string
			w *witness
		}
		var jobs []job
		for _, r := range runs {
			seen := map[*witness]bool{}
			for _, k := range sortedKeys(r.e.covWit) {
				if w := r.e.covWit[k]; w != nil && !seen[w] {
					seen[w] = true
					jobs = append(jobs, job{r.h.name, w})
				}
			}
			for _, w := range r.e.witnesses {
				if w != nil && !seen[w] {
					seen[w] = true
					jobs = append(jobs, job{r.h.name, w})
				}
			}
		}
		max := 60
		if c.tier == "thorough" {
			max = 400
		}
		if len(jobs) > max {
			jobs = jobs[:max]
		}
		res := make([]string, len(jobs))
		var wg sync.WaitGroup
		sem := make(chan bool, c.workers)
		for i, j := range jobs {
			wg.Add(1)
			sem <- true
			go func(i int, j job) {
				defer func() { <-sem; wg.Done() }()
				tf := &traceFile{Property: c.prop, Harness: j.h, Thorough: c.tier == "thorough", Draws: outDraws(j.w.Draws)}
				res[i] = compareWitness(c.runNative(nat, tf, 30*time.Second), j.w, len(j.w.Sched) > 0)
			}(i, j)
		}
		wg.Wait()
		for i, j := range jobs {
			if res[i] == "" {
				validated++
			} else {
				mismatches++
				if mismatches <= 5 {
					fmt.Printf("witness mismatch in %s: %s\n   inputs: %s\n", j.h, res[i], strings.Join(textDraws(j.w.Draws), " "))
				}
			}
			if len(samples) < 6 && i%(len(jobs)/6+1) == 0 {
				var obs []string
				for _, o := range j.w.Obs {
					obs = append(obs, o.Label+"="+o.Val)
				}
				samples = append(samples, map[string]any{"harness": j.h, "inputs": textDraws(j.w.Draws), "observed": obs})
			}
		}
		if mismatches > 0 {
			notes = append(notes, fmt.Sprintf("%d witnesses behave differently in the native run", mismatches))
		}
	}
	for _, r := range runs {
		for _, v := range r.e.violations {
			if len(samples) < 8 {
				samples = append(samples, map[string]any{"harness": r.h.name, "violation": v.Label, "inputs": textDraws(v.Draws)})
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"none": "no completed path"})
	}
	// ---- totals
	funcs := map[string]bool{}
	var tot stats
	incomplete := map[string]int{}
	var perH []any
	missing := 0
	for _, r := range runs {
		t := &r.e.total
		tot.paths += t.paths
		tot.pruned += t.pruned
		tot.vcs += t.vcs
		tot.vcConcrete += t.vcConcrete
		tot.vcProved += t.vcProved
		tot.queries += t.queries
		tot.nsat += t.nsat
		tot.nunsat += t.nunsat
		tot.nunknown += t.nunknown
		tot.solverTime += t.solverTime
		tot.steps += t.steps
		tot.decisions += t.decisions
		tot.merges += t.merges
		tot.domDecided += t.domDecided
		tot.crossAgree += t.crossAgree
		tot.crossDisagree += t.crossDisagree
		tot.crossUn += t.crossUn
		for f := range t.funcs {
			funcs[f.name] = true
		}
		for k, v := range r.e.incomplete {
			incomplete[k] += v
			notes = append(notes, fmt.Sprintf("%s: %s x%d", r.h.name, k, v))
		}
		for _, s := range sortedKeys(r.e.unsupp) {
			notes = append(notes, r.h.name+": "+s)
		}
		for _, cv := range r.h.expected {
			if t.covers[cv] == 0 && len(r.e.violations) == 0 {
				missing++
				notes = append(notes, r.h.name+": cover not reached: "+cv)
			}
		}
		if t.paths == 0 {
			missing++
			notes = append(notes, r.h.name+": no path completed")
		}
		perH = append(perH, map[string]any{"harness": r.h.name, "paths": t.paths, "pruned": t.pruned, "vcs_to_solver": t.vcs, "vcs_concrete": t.vcConcrete, "queries": t.queries,
			"solver_s": round(t.solverTime.Seconds()), "wall_s": round(r.s), "covers": t.covers, "assertions_checked": t.asserts, "max_inputs": t.maxDraws, "exhausted_within_bounds": len(r.e.incomplete) == 0, "preemption_bound": r.e.preempt})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": tot.decisions + tot.paths + tot.pruned, "transitions": tot.steps, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive": len(incomplete) == 0 && missing == 0,
			"meaning":    "states: symbolic states at decision points and path ends; transitions: SSA instructions executed symbolically; traces: solver models of explored paths re-run on the natively compiled real code with identical observations",
			"paths":      tot.paths, "paths_pruned": tot.pruned, "regions_merged": tot.merges,
			"queries": tot.queries, "sat": tot.nsat, "unsat": tot.nunsat, "unknown": tot.nunknown, "solver_s": round(tot.solverTime.Seconds()),
			"branches_decided_by_byte_domain": tot.domDecided, "vcs_discharged_by_solver": tot.vcProved, "vcs_concrete": tot.vcConcrete,
			"cross_solver_agree": tot.crossAgree, "cross_solver_unknown": tot.crossUn, "cross_solver_disagree": tot.crossDisagree,
			"functions_encoded": fl, "bounds": pi.bounds, "harnesses": perH, "incomplete": notes, "solver": c.solverName, "known_findings_seen": sortedKeys(knownSeen),
			"load_s": round(loadS), "explore_s": round(exploreS),
		},
		"assumptions": append([]string{"the engine's model of the Go runtime, reflect, sync and the functions listed in DESIGN.md; validated on witnesses by native replay"}, pi.assumes...),
		"wall_s":      round(time.Since(start).Seconds()), "violations": nviol,
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0755)
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), js, 0644); err != nil {
		fatalf("%v", err)
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d VCs discharged, %d queries, %.1fs solver, %d witnesses validated, %.1fs\n", c.prop, c.tier, len(runs), tot.paths, tot.vcProved, tot.queries,
		tot.solverTime.Seconds(), validated, time.Since(start).Seconds())
	if code == 0 && (unconfirmed > 0 || mismatches > 0 || tot.paths == 0 || tot.crossDisagree > 0) {
		return 2
	}
	return code
}

func round(x float64) float64 { return float64(int(x*1000)) / 1000 }

func compareWitness(r *natResult, w *witness, sched bool) string {
	if v := r.has("VIOL "); v != "" {
		return "native run violates " + v
	}
	if v := r.has("PANIC"); v != "" {
		return "native run panics:" + v
	}
	if v := r.has("DIVERGED"); v != "" {
		return "native run diverged" + v
	}
	if r.has("ASSUME-FAILED") != "" {
		return "native run fails an assumption"
	}
	ended := false
	var obs []string
	for _, l := range r.lines {
		if l == "END" {
			ended = true
		}
		if strings.HasPrefix(l, "OBS ") {
			obs = append(obs, l[4:])
		}
		if l == "ASSUME-FAILED" {
			return "native run fails an assumption"
		}
	}
	if !ended {
		return fmt.Sprintf("native run did not end (timeout %v): %s", r.timeout, firstLine(r.stderr))
	}
	if sched {
		return "" // another schedule may run natively; only termination without violation is compared
	}
	if len(obs) != len(w.Obs) {
		return fmt.Sprintf("%d observations natively, %d symbolically", len(obs), len(w.Obs))
	}
	for i, o := range w.Obs {
		want := strings.ReplaceAll(o.Label+" "+o.Val, "\n", "\\n")
		if obs[i] != want {
			return fmt.Sprintf("observation %d: native %q, symbolic %q", i, obs[i], want)
		}
	}
	return ""
}

func (c *config) replayFile(path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var tf traceFile
	if err := json.Unmarshal(data, &tf); err != nil {
		fatalf("%v", err)
	}
	c.prop = tf.Property
	pi := c.loadProp()
	nat := c.buildNative(pi, c.overlayFiles(pi), c.modfile(pi))
	<-nat.done
	if nat.err != nil {
		fatalf("%v", nat.err)
	}
	ok, how := c.reproduced(nat, &tf, pi.stress)
	fmt.Println("inputs:", strings.Join(tf.Text, " "))
	fmt.Println("native:", how)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		return 1
	}
	fmt.Println("not reproduced on the current tree")
	return 0
}

// clocked are the functions of package time that package clock has too.
var clocked = map[string]bool{"Now": true, "Since": true, "Until": true, "AfterFunc": true, "Timer": true}

func rewrite(rule string, src []byte) ([]byte, error) {
	switch rule {
	case "clock": // time.Now and what depends on it is the harness's clock
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, "x.go", src, 0)
		if err != nil {
			return nil, err
		}
		timed := false
		for _, im := range file.Imports {
			timed = timed || im.Path.Value == `"time"` && im.Name == nil
		}
		if !timed {
			return src, nil
		}
		var at []int
		ast.Inspect(file, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok && clocked[s.Sel.Name] {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == "time" && x.Obj == nil {
					at = append(at, fset.Position(x.Pos()).Offset)
				}
			}
			return true
		})
		if len(at) == 0 {
			return src, nil
		}
		sort.Ints(at)
		end := fset.Position(file.Name.End()).Offset
		out := string(src[:end]) + "; import zzclock \"" + repoMod + "/zz_verif/clock\""
		for _, o := range at {
			out += string(src[end:o]) + "zzclock"
			end = o + len("time")
		}
		return []byte(out + string(src[end:]) + "\nvar _ = time.Now\n"), nil
	default:
		return nil, fmt.Errorf("unknown rewriting rule %s", rule)
	}
}

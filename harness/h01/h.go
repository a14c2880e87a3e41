package h

import (
	"os"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/utils/helpers"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
	"github.com/wujiu2020/strip/zz_verif/symfs"
)

//sym:bounds list flags: up to 2 values of up to 3 (thorough 4) characters and up to 3 (4) values of up to 2, of "a", "b", comma, blank, tab and one other character; configuration: any 2 (thorough 3) of the 18 files (default, application, override; with and without the run mode; in the directory of the executable, the working directory and the one given) and 2 added ones, each with arbitrary one-digit values for up to two keys, of the default and of a named section, or unreadable; directories apart, the same, relative or none; run modes dev, test and prod; six names of applications, among them none and those of the other files; lists of up to 257 (thorough 1025) values
//sym:assume the environment has no variable that overrides the keys

// entries is what a list value holds: what stands between commas, without blanks around it.
func entries(v string) (out []string) {
	from := 0
	for i := 0; i <= len(v); i++ {
		if i < len(v) && v[i] != ',' {
			continue
		}
		a, b := from, i
		for a < b && (v[a] == ' ' || v[a] == '\t') {
			a++
		}
		for a < b && (v[b-1] == ' ' || v[b-1] == '\t') {
			b--
		}
		if a < b {
			out = append(out, v[a:b])
		}
		from = i + 1
	}
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func H_list() { list(2, sym.Bound(3, 4)) }

func H_many() { list(sym.Bound(3, 4), 2) }

func list(max, size int) {
	var s helpers.SliceValue
	var want []string
	n := sym.Choose("values", max+1)
	for i := 0; i < n; i++ {
		l := strconv.Itoa(i)
		v := sym.StringOf(l, sym.Choose("size", size+1), "ab, \t=")
		sym.Assert(s.Set(v) == nil, "set")
		want = append(want, entries(v)...)
		sym.Assert(same(s, want), "accumulates")
	}
	if len(want) > 1 {
		sym.Cover("several")
	}
	// what it is shown as gives the same list again
	var back helpers.SliceValue
	sym.Assert(back.Set(s.String()) == nil && same(back, want), "string")
	// each once, in the order they came
	var uniq []string
	for i, v := range want {
		first := true
		for _, u := range want[:i] {
			if u == v {
				first = false
			}
		}
		if first {
			uniq = append(uniq, v)
		}
	}
	if len(uniq) < len(want) {
		sym.Cover("repeated")
	}
	s.Unique()
	sym.Assert(same(s, uniq), "unique")
}

type env struct {
	A string `conf:"a"`
	B string `conf:"b"`
	S struct {
		A string `conf:"a"`
	} `conf:"s"`
}

// H_files has some of the files and looks at what the keys are.
func H_files() {
	mode := []string{"dev", "test", "prod"}[sym.Choose("mode", 3)]
	files(mode, sym.Choose("dirs", 3), 2, sym.Bound(2, 3))
}

func H_content() { files("dev", 0, 2, 5) }

func H_three() { files("test", 0, sym.Bound(1, 3), 3) }

func H_dirs() { files("prod", 3+sym.Choose("dirs", 4), 2, sym.Bound(2, 5)) }

// the application's name
var shop = "shop"

// Names of applications: none, with dots, and those of the other files.
func H_names() {
	shop = []string{"", "a.b", "default", "override", "dev"}[sym.Choose("app", 5)]
	defer func() { shop = "shop" }()
	files("dev", 2*sym.Choose("dirs", 2), 1, 2)
}

func files(mode string, dirs, max, contents int) {
	app, logs := hx.App()
	app.Config.RunMode = strip.Mode(mode)
	wd := symfs.Dir()
	exe, dir := wd+"/exe", wd+"/given"
	switch dirs {
	case 1:
		dir = ""
	case 2:
		dir = "given" // relative to the working directory
	case 3:
		exe = wd
	case 4:
		dir = wd
	case 5:
		exe, dir = wd, wd
	case 6:
		dir = exe
	}
	symfs.Mkdirs("exe")
	symfs.Mkdirs("given")
	args := os.Args
	os.Args = []string{exe + "/server"}
	defer func() { os.Args = args }()

	// the files in order, and the place each has there
	full := func(d string) string {
		if d == "given" {
			d = wd + "/given"
		}
		return strings.TrimPrefix(strings.TrimPrefix(d, wd), "/")
	}
	where := []string{full(exe), full(wd)}
	if dir != "" {
		where = append(where, full(dir))
	}
	var order []string
	for _, name := range []string{"default", shop, "override"} {
		for _, d := range where {
			for _, ext := range []string{".ini", "." + mode + ".ini"} {
				p := name + ext
				if d != "" {
					p = d + "/" + p
				}
				order = append(order, p)
			}
		}
	}
	added := []string{"extra/one.ini", "two.ini"}
	var adds []string
	switch sym.Choose("added", 3) {
	case 1:
		adds = []string{wd + "/" + added[0], wd + "/" + added[1]}
		order = append(order, added[0], added[1])
	case 2:
		adds = []string{wd + "/" + added[1], wd + "/" + added[0]}
		order = append(order, added[1], added[0])
	}

	// values by file
	type content struct {
		path    string
		a, b, s string
		broken  bool
	}
	var have []content
	n := sym.Choose("files", max+1)
	at := 0
	for i := 0; i < n && at < len(order); i++ {
		l := strconv.Itoa(i)
		at += sym.Choose("next", len(order)-at)
		c := content{path: order[at]}
		at++
		for _, h := range have {
			if h.path == c.path {
				sym.Stop()
			}
		}
		text := ""
		switch sym.Choose("content", contents) {
		case 1:
			c.a = sym.StringOf(l+"-a", 1, "0123456789")
			text = "a = " + c.a + "\n"
		case 3:
			c.b = sym.StringOf(l+"-b", 1, "0123456789")
			text = "b = " + c.b + "\n"
		case 0:
			c.a, c.s = sym.StringOf(l+"-a", 1, "0123456789"), sym.StringOf(l+"-s", 1, "0123456789")
			text = "a=" + c.a + "\n[s]\na=" + c.s + "\n"
		case 2:
			text = "a =\n" // nothing to override with
		case 4:
			c.broken = true
			text = "a = 5\nno assignment\n"
		}
		symfs.File(c.path, text)
		have = append(have, c)
	}
	// files for other modes and applications are not looked at
	symfs.File("default.other.ini", "a = other")
	symfs.File("given/other.ini", "b = other")

	var want env
	loaded := 0
	for _, p := range order { // a file that comes twice counts where it comes last
		for _, c := range have {
			if c.path != p || c.broken {
				continue
			}
			loaded++
			if c.a != "" {
				want.A = c.a
			}
			if c.b != "" {
				want.B = c.b
			}
			if c.s != "" {
				want.S.A = c.s
			}
		}
	}
	if loaded > 1 {
		sym.Cover("overridden")
	}
	var got env
	conf := helpers.LoadConfigFiles(app, shop, &got, dir, adds...)
	sym.Assert(conf.Find("a") == want.A, "a")
	sym.Assert(conf.Find("b") == want.B, "b")
	sym.Assert(conf.Find("s::a") == want.S.A, "section")
	sym.Assert(app.Config.Find("a") == want.A && app.Config.Find("b") == want.B, "imported")
	sym.Assert(got.A == want.A && got.B == want.B && got.S.A == want.S.A, "decoded")
	if loaded == 0 {
		sym.Cover("none")
		sym.Assert(conf == config.Global, "global")
	}
	_ = logs
}

// Many values, some of them repeated.
func H_long() {
	var s helpers.SliceValue
	var want []string
	n := hx.Size("values", 4, sym.Bound(257, 1025))
	k := []int{1, 3, 100, n}[sym.Choose("different", 4)]
	joined := sym.Choose("joined", 2) == 1
	text := ""
	for i := 0; i < n; i++ {
		v := strconv.Itoa(i % k)
		want = append(want, v)
		if joined {
			text += v + ","
			continue
		}
		sym.Assert(s.Set(v) == nil, "set")
	}
	if joined {
		sym.Assert(s.Set(text) == nil, "set")
	}
	sym.Assert(same(s, want), "accumulates")
	var back helpers.SliceValue
	sym.Assert(back.Set(s.String()) == nil && same(back, want), "string")
	if k > n {
		k = n
	}
	s.Unique()
	sym.Assert(same(s, want[:k]), "unique")
}

package h

import (
	"os"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
	"strconv"
	"strings"
)

//sym:bounds chains of up to 3 configurations, every combination of 3 keys (plain, in a section, in another section with the same key) defined in the environment, at each level and as a default, with values of 0..1 arbitrary characters; names of up to 5 (thorough 6) characters; chains of up to 129 (thorough 513) configurations

var keys = []struct{ name, section, key, env string }{
	{"k.one", "default", "k.one", "K_ONE"},
	{"sec::k", "sec", "k", "SEC_K"},
	{"other::k", "other", "k", "OTHER_K"},
	{"k", "default", "k", "K"},
}

func value(label string) string {
	return sym.StringOf(label, sym.Choose(label+" length", 2), "abcXYZ019_")
}

//sym:covers env first second third default missing
func H_precedence() {
	type def struct {
		text string
		set  bool
	}
	ki := sym.Choose("key", len(keys))
	oi := (ki + 1 + sym.Choose("otherkey", len(keys)-1)) % len(keys)
	k, o := keys[ki], keys[oi]
	depth := 1 + sym.Choose("depth", 3)
	var c config.Configer
	places := make([]string, 0, 4)
	if sym.Choose("env", 2) == 1 {
		v := value("env")
		os.Setenv(k.env, v)
		places = append(places, v)
	} else {
		places = append(places, "")
	}
	if sym.Choose("otherenv", 2) == 1 {
		os.Setenv(o.env, "O")
	}
	levels := make([]string, depth)
	for i := depth - 1; i >= 0; i-- { // the last one is the outermost
		text := ""
		if sym.Choose("other", 2) == 1 {
			text += "[" + o.section + "]\n" + o.key + " = o\n"
		}
		if sym.Choose("set", 2) == 1 {
			levels[i] = value("value")
			text += "[" + k.section + "]\n" + k.key + " = " + levels[i] + "\n"
		}
		n, err := config.LoadIniFromReader(strings.NewReader(text))
		sym.Assert(err == nil, "loads")
		if c != nil {
			n.SetParent(c)
		}
		c = n
	}
	places = append(places, levels...)
	want, at := "", -1
	for i, p := range places {
		if p != "" && at < 0 {
			want, at = p, i
		}
	}
	sym.Assert(c.Find(k.name) == want, "precedence")
	app := &strip.Config{}
	if sym.Choose("configured", 2) == 1 {
		app.Configer = c
	} else {
		want, at = "", -1
	}
	sym.Assert(app.Find(k.name) == want, "precedence-without-default")
	d := value("default")
	if at < 0 {
		want = d
		sym.Cover("default")
	}
	sym.Assert(app.Find(k.name, d) == want, "precedence-with-default")
	switch at {
	case 0:
		sym.Cover("env")
	case 1:
		sym.Cover("first")
	case 2:
		sym.Cover("second")
	case 3:
		sym.Cover("third")
	}
	if want == "" {
		sym.Cover("missing")
	}
	// looking up changes nothing
	l := c.ListSection(k.section)
	if l != nil {
		l[k.key] = "changed"
		l["new"] = "new"
	}
	if app.Configer != nil {
		sym.Assert(app.Find(k.name, d) == want, "changed-by-a-lookup")
		sym.Assert(app.Find("new") == "" && app.Find(k.section+"::new") == "", "changed-through-a-list")
	}
}

// Any name finds only what is defined under exactly that section and key.
//
//sym:covers found missing
func H_names() {
	c, err := config.LoadIniFromReader(strings.NewReader("a=1\na:b=x\nb.c=3\n[s]\na=4\n[s.b]\nc=5\n"))
	sym.Assert(err == nil, "loads")
	p, err := config.LoadIniFromReader(strings.NewReader("a=11\nd=6\n[s]\nd=7\n"))
	sym.Assert(err == nil, "loads")
	c.SetParent(p)
	name := sym.StringOf("name", sym.Choose("len", sym.Bound(6, 7)), "abcds:.")
	sec, key := "default", name
	if i := strings.Index(name, "::"); i >= 0 {
		sec, key = name[:i], name[i+2:]
		if sec == "" {
			sec = "default"
		}
	}
	want := ""
	for _, e := range [][3]string{
		{"default", "a", "b=x"}, {"default", "b.c", "3"}, {"s", "a", "4"}, {"s.b", "c", "5"}, {"default", "d", "6"}, {"s", "d", "7"},
	} {
		if sec == e[0] && key == e[1] {
			want = e[2]
		}
	}
	got := c.Find(name)
	sym.Assert(got == want, "exactly-the-named-entry")
	if want == "" {
		sym.Cover("missing")
	} else {
		sym.Cover("found")
	}
}

// A long chain of configurations: the nearest one that defines a name counts.
func H_deep() {
	n := hx.Size("levels", 4, sym.Bound(129, 513))
	near := []int{0, n / 2, n - 1}[sym.Choose("near", 3)]
	app := &strip.Config{}
	var last config.Configer
	for i := n - 1; i >= 0; i-- {
		text := "own" + strconv.Itoa(i) + " = " + strconv.Itoa(i) + "\n"
		if i >= near {
			text += "k = " + strconv.Itoa(i) + "\n[s]\nk = s" + strconv.Itoa(i) + "\n"
		}
		c, err := config.LoadIniFromReader(strings.NewReader(text))
		sym.Assert(err == nil, "loads")
		if last != nil {
			c.SetParent(last)
		}
		last = c
	}
	app.Configer = last
	sym.Assert(app.Find("k") == strconv.Itoa(near) && app.Find("s::k") == "s"+strconv.Itoa(near), "nearest")
	for i := 0; i < n; i++ {
		sym.Assert(app.Find("own"+strconv.Itoa(i)) == strconv.Itoa(i), "inherited")
	}
	sym.Assert(app.Find("none") == "" && app.Find("none", "d") == "d", "default")
}

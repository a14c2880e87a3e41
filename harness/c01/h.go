package h

import (
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds every text of up to 6 (thorough 7) characters over letters, = : # ; [ ] - blank, newline and carriage return; up to 4 (5) lines of every kind in every order with symbolic names and values; lines of up to 5 (thorough 6) characters that also hold quotes and NUL, bytes of any value up to 2 (3), between other entries, with and without a byte order mark and a final newline; quoted keys and values with 3 (4) arbitrary characters inside; readers that return the text in pieces or fail; values and comments of up to 8193 (thorough 65537) characters, keys of up to 4097, up to 257 (1025) lines and 129 (513) sections, of the sizes next to powers of two and round numbers

// The model: one line after the other, as the format is documented.
type ini map[string]map[string]string

func parse(text string) (m ini, ok bool) {
	m = ini{}
	sec := "default"
	count := 1
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' || l[0] == ';' {
			continue
		}
		if l[0] == '[' && l[len(l)-1] == ']' {
			sec = strings.TrimSpace(l[1 : len(l)-1])
			if sec == "" {
				return m, false
			}
			if m[sec] == nil {
				m[sec] = map[string]string{}
			}
			count = 1
			continue
		}
		at := -1
		for i := 0; i < len(l) && at < 0; i++ {
			if l[i] == '=' || l[i] == ':' {
				at = i
			}
		}
		if at <= 0 {
			return m, false
		}
		key, value := strings.TrimSpace(l[:at]), strings.TrimSpace(l[at+1:])
		if key == "-" {
			key = "#" + string(rune('0'+count))
			count++
		}
		if m[sec] == nil {
			m[sec] = map[string]string{}
		}
		m[sec][key] = value
	}
	return m, true
}

func compare(c config.Configer, m ini) {
	for sec, kv := range m {
		got := c.ListSection(sec)
		sym.Assert(len(got) == len(kv), "entries-of-a-section")
		for k, v := range kv {
			g, ok := got[k]
			sym.Assert(ok && g == v, "value-of-a-line")
			name := sec + "::" + k
			if strings.Index(name, "::") != len(sec) {
				continue // such a name is read as another section's
			}
			if sec == "default" {
				name = k
				if strings.Contains(k, "::") {
					continue
				}
			}
			if v != "" {
				sym.Assert(c.Find(name) == v, "find")
			}
		}
	}
	for _, sec := range []string{"default", "a", "b", "", "ab"} {
		if m[sec] == nil {
			sym.Assert(len(c.ListSection(sec)) == 0, "no-such-section")
		}
	}
}

func load(text string) (config.Configer, error) {
	return config.LoadIniFromReader(strings.NewReader(text))
}

//sym:covers parsed refused section value
func H_text() {
	text := sym.StringOf("text", sym.Choose("len", sym.Bound(7, 8)), "ab=:[]#-; \n\r")
	c, err := load(text)
	m, ok := parse(text)
	sym.Assert((err == nil) == ok, "refused-exactly-when-malformed")
	if err != nil {
		sym.Assert(c == nil, "no-half-loaded-config")
		sym.Cover("refused")
		return
	}
	sym.Cover("parsed")
	if len(m["default"]) > 0 {
		sym.Cover("value")
	}
	if len(m["a"])+len(m["b"]) > 0 {
		sym.Cover("section")
	}
	compare(c, m)
}

// Lines of every kind in every order, their names and values symbolic.
//
//sym:covers refused twice numbered
func H_lines() {
	n := 1 + sym.Choose("lines", sym.Bound(4, 5))
	text := ""
	chars := "ab"
	for i := 0; i < n; i++ {
		switch sym.Choose("kind", 5) {
		case 0:
			text += "[" + sym.StringOf("section", 1, chars) + "]"
		case 1:
			text += sym.StringOf("key", 1, chars) + sym.StringOf("is", 1, "=:") + sym.StringOf("value", 2, "a=:#]")
		case 2:
			text += " - =" + sym.StringOf("value", 1, "ab ")
		case 3:
			text += sym.StringOf("comment", 1, "#;a[") + "=x"
		case 4:
			text += sym.StringOf("odd", 1, "ab[ \r")
		}
		text += "\n"
	}
	c, err := load(text)
	m, ok := parse(text)
	sym.Assert((err == nil) == ok, "refused-exactly-when-malformed")
	if err != nil {
		sym.Cover("refused")
		return
	}
	if len(m) > 1 {
		sym.Cover("twice")
	}
	for _, kv := range m {
		if _, ok := kv["#2"]; ok {
			sym.Cover("numbered")
		}
	}
	compare(c, m)
}

// Any line between two others: it is refused, or the others stand.
//
//sym:covers refused kept
func H_between() {
	line := ""
	switch sym.Choose("kind", 2) {
	case 0:
		line = sym.StringOf("line", sym.Choose("len", sym.Bound(6, 7)), "a=: #-\"`\x00")
	case 1:
		line = sym.String("line", sym.Choose("len", sym.Bound(3, 4)))
		for i := 0; i < len(line); i++ {
			sym.Assume(line[i] != '\n' && line[i] != '[' && line[i] != 'k')
		}
	}
	bom := []string{"", "\xef\xbb\xbf"}[sym.Choose("bom", 2)]
	end := []string{"", "\n"}[sym.Choose("end", 2)]
	c, err := load(bom + "k1 = v1\n" + line + "\nk2: v2\n[s]\nk3=v3\n\n# x\nk4=v4" + end)
	if err != nil {
		sym.Cover("refused")
		return
	}
	sym.Cover("kept")
	sym.Assert(c.Find("k1") == "v1", "line-before")
	sym.Assert(c.Find("k2") == "v2", "line-after")
	sym.Assert(c.Find("s::k3") == "v3" && c.Find("s::k4") == "v4", "section-after")
	sym.Assert(len(c.ListSection("s")) == 2, "section-size")
}

// Quotes keep what is inside exactly.
//
//sym:covers key value
func H_quoted() {
	in := sym.StringOf("inside", sym.Choose("len", sym.Bound(4, 5)), "a= :#\"`[;")
	at := sym.Choose("where", 5)
	q := []string{"\"", "`", "\"\"\"", "`", "\"\"\""}[at]
	text := ""
	if at < 3 {
		sym.Assume(!strings.Contains(in, q))
		if at == 2 {
			sym.Assume(!strings.HasSuffix(in, "\"") && !strings.HasPrefix(in, "\""))
		}
		if at == 0 {
			sym.Assume(in != "" && in[0] != '"')
		}
		text = q + in + q + " = v\n"
	} else {
		text = "k = " + q + in + q + "\n"
	}
	c, err := load(text + "z = 1\n")
	sym.Assert(err == nil, "accepted")
	sym.Assert(c.Find("z") == "1", "next-line")
	list := c.ListSection("default")
	if at < 3 {
		sym.Cover("key")
		if in == "" {
			return
		}
		if in == "-" {
			return
		}
		sym.Assert(len(list) == 2 && list[in] == "v", "quoted-key")
	} else {
		sym.Cover("value")
		sym.Assert(len(list) == 2 && list["k"] == in, "quoted-value")
	}
}

type pieces struct {
	data string
	step int
	err  error
	late bool // the error comes with a read of its own
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.data) == 0 {
		return 0, p.err
	}
	n := p.step
	if n > len(p.data) {
		n = len(p.data)
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, p.data[:n])
	p.data = p.data[n:]
	if p.data == "" && !p.late {
		return n, p.err
	}
	return n, nil
}

//sym:covers whole failed
func H_readers() {
	text := []string{"k = v\n[s]\na=1", "\xef\xbb\xbfk=v", "k", "", "[s]\na=1\n", "k=" + strings.Repeat("v", 5000) + "\nz=1"}[sym.Choose("text", 6)]
	r := &pieces{data: text, step: []int{1, 2, 3, 7, 4096}[sym.Choose("step", 5)], err: io.EOF, late: sym.Choose("late", 2) == 1}
	fails := sym.Choose("fails", 2) == 1
	if fails {
		r.err = errors.New("broken")
	}
	c, err := config.LoadIniFromReader(r)
	if fails {
		sym.Assert(err != nil && c == nil, "read-error-reported")
		sym.Cover("failed")
		return
	}
	m, ok := parse(strings.TrimPrefix(text, "\xef\xbb\xbf"))
	sym.Assert((err == nil) == ok, "refused-exactly-when-malformed")
	if err == nil {
		compare(c, m)
		sym.Cover("whole")
	}
}

// Files of any size: long names and values, many lines, many sections.
//
//sym:covers long many
func H_large() {
	var text []string
	m := ini{"default": {}, "s": {}}
	put := func(sec, k, v string) {
		text = append(text, k+" = "+v)
		m[sec][k] = v
	}
	put("default", "first", "1")
	switch sym.Choose("what", 5) {
	case 0:
		sym.Cover("long")
		put("default", "k", hx.Long("value", sym.Bound(65537, 65537), "xY0=:;#[]"))
	case 1:
		sym.Cover("long")
		put("default", hx.Long("key", 4097, "xY0"), "v")
	case 2:
		sym.Cover("long")
		text = append(text, "# "+hx.Long("comment", sym.Bound(8193, 65537), "=:;#[]"))
	case 3:
		sym.Cover("many")
		for i, n := 0, hx.Size("lines", 7, sym.Bound(257, 1025)); i < n; i++ {
			put("default", "k"+strconv.Itoa(i), strconv.Itoa(i*7))
		}
	case 4:
		sym.Cover("many")
		for i, n := 0, hx.Size("sections", 7, sym.Bound(129, 513)); i < n; i++ {
			s := "s" + strconv.Itoa(i)
			m[s] = map[string]string{}
			text = append(text, "["+s+"]")
			put(s, "k", strconv.Itoa(i))
		}
	}
	text = append(text, "[s]")
	put("s", "last", "2")
	end := []string{"\n", "\r\n"}[sym.Choose("end", 2)]
	c, err := load(strings.Join(text, end))
	sym.Assert(err == nil, "well-formed-refused")
	compare(c, m)
}

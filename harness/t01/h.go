package h

import (
	"net/http"
	"strings"

	"github.com/wujiu2020/strip"
	static "github.com/wujiu2020/strip/static-serve"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
	"github.com/wujiu2020/strip/zz_verif/symfs"
)

//sym:bounds a directory with a file, a file in a subdirectory and an index, beside files outside of it; request paths of up to 5 (thorough 8) characters over slash, dot, the letters of all names, backslash, percent and NUL, with and without the prefix in front; prefixes given in 5 ways; GET, HEAD and other methods (any 3 letters); skipped prefixes and AnyMethod; paths of up to 257 (thorough 1025) repeated steps up, down or nowhere
//sym:assume the served directory contains no symbolic links

// The tree: www is served, the rest must never be.
func tree() {
	symfs.File("www/a", "file a")
	symfs.File("www/s/a", "file s/a")
	symfs.File("www/s/index.html", "index of s")
	symfs.File("a", "secret")
	symfs.File("s/a", "secret")
	symfs.File("www2/a", "secret")
	symfs.File("w/a", "secret")
}

var content = map[string]string{"/a": "file a", "/s/a": "file s/a", "/s/index.html": "index of s", "/s": "dir", "/": "dir"}

// resolve is the path below the root, dots and repeated slashes removed.
func resolve(p string) string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return "/" + strings.Join(out, "/")
}

type result struct {
	rec    *hx.Rec
	passed bool
	path   string
}

func serve(prefix, dir, method, path string, opts ...static.StaticOption) result {
	app, _ := hx.App()
	r := result{}
	app.Filter(static.ServeFilter(prefix, dir, opts...))
	h := func(req *http.Request, rw http.ResponseWriter) {
		r.passed, r.path = true, req.URL.Path
		sym.Assert(len(rw.Header()) == 1, "header-left-behind")
	}
	app.NotFound(h)
	app.Routers(strip.Get(h))
	r.rec = hx.Serve(app, method, path)
	return r
}

func check(r result, method, path, rest string) {
	got := string(r.rec.Body)
	sym.Assert(!strings.Contains(got, "secret"), "outside-of-the-root")
	sym.Assert(!r.passed, "not-served")
	to := resolve(rest)
	want, ok := content[to]
	if strings.IndexByte(to, 0) >= 0 {
		ok = false
	}
	switch {
	case !ok:
		sym.Assert(r.rec.Code() == 404, "missing-file-is-404")
		sym.Cover("missing")
	case want == "dir" && !strings.HasSuffix(path, "/"):
		sym.Assert(r.rec.Code() == 302, "directory-redirects")
		sym.Cover("redirect")
	case to == "/":
		sym.Assert(r.rec.Code() == 404, "no-index-is-404")
		sym.Cover("noindex")
	default:
		if to == "/s" {
			want = "index of s"
			sym.Cover("index")
		} else {
			sym.Cover("file")
		}
		sym.Assert(r.rec.Code() == 200, "file-is-200")
		if method == "HEAD" {
			want = ""
		}
		sym.Assert(got == want, "exactly-the-file")
	}
}

func anyPath(label string, n int) string {
	return sym.StringOf(label, n, "/.asAw2\\\x00")
}

//sym:covers file index redirect missing noindex
func H_paths() {
	tree()
	path := "/" + anyPath("path", sym.Choose("len", sym.Bound(6, 9)))
	r := serve("", symfs.Dir()+"/www", "GET", path)
	check(r, "GET", path, path)
}

//sym:covers file index redirect missing noindex passed
func H_prefix() {
	tree()
	prefix := []string{"/p", "p", "p/", "/p/", "/p//"}[sym.Choose("prefix", 5)]
	n := sym.Choose("len", sym.Bound(6, 9))
	path := "/p" + anyPath("path", n)
	if sym.Choose("other", 2) == 1 {
		path = "/" + sym.StringOf("path", n, "pP/.as")
	}
	method := []string{"GET", "HEAD"}[sym.Choose("head", 2)]
	r := serve(prefix, symfs.Dir()+"/www/", method, path)
	if path != "/p" && !strings.HasPrefix(path, "/p/") {
		sym.Assert(r.passed && r.path == path, "passed-on-unchanged")
		sym.Cover("passed")
		return
	}
	check(r, method, path, path[2:])
}

//sym:covers file passed skipped missing
func H_options() {
	tree()
	opt := static.StaticOption{AnyMethod: sym.Bool("any")}
	if sym.Choose("skip", 2) == 1 {
		opt.SkipPrefix = []string{"/x", "/s/"}
	}
	method := []string{"GET", "HEAD", ""}[sym.Choose("known", 3)]
	if method == "" {
		method = sym.StringOf("method", 3, "EGTPUge")
	}
	path := []string{"/p/a", "/p/s/a", "/p/x", "/p/s/../a", "/p/../../a", "/q/a"}[sym.Choose("path", 6)]
	r := serve("/p", symfs.Dir()+"/www", method, path, opt)
	rest := path[2:]
	switch {
	case !opt.AnyMethod && method != "GET" && method != "HEAD", path[:2] != "/p":
		sym.Assert(r.passed && r.path == path, "passed-on-unchanged")
		sym.Cover("passed")
	case opt.SkipPrefix != nil && (strings.HasPrefix(rest, "/x") || strings.HasPrefix(rest, "/s/")):
		sym.Assert(r.passed && r.path == path, "skipped-passes-on")
		sym.Cover("skipped")
	default:
		check(r, method, path, rest)
	}
}

// Long paths: many steps up and down.
//
//sym:covers file missing
func H_long() {
	tree()
	n := hx.Size("steps", 4, sym.Bound(257, 1025))
	step := []string{"/..", "/.", "/", "/s/..", "/s/../..", "/x/.."}[sym.Choose("step", 6)]
	rest := strings.Repeat(step, n) + []string{"/a", "/s/a", "/www/a", "/../a", "/"}[sym.Choose("end", 5)]
	if sym.Choose("prefix", 2) == 1 {
		check(serve("/p", symfs.Dir()+"/www", "GET", "/p"+rest), "GET", "/p"+rest, rest)
		return
	}
	check(serve("", symfs.Dir()+"/www", "GET", rest), "GET", rest, rest)
}

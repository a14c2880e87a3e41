package h

import (
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	static "github.com/wujiu2020/strip/static-serve"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
	"github.com/wujiu2020/strip/zz_verif/symfs"
)

//sym:bounds a served name that is missing, a file of 0..2 arbitrary bytes, or a directory with a file, nothing or a directory as its index; asked for in 7 ways with GET and HEAD; no fallback, an existing one or a missing one; requests one after another; redirects of all paths of up to 4 (thorough 6) characters over slash, dot, the directory's name and backslash in front of the directory; files of up to 65537 bytes of the sizes next to powers of two and round numbers
//sym:assume the fallback file is not a directory; stat and read of an open file do not fail

type world struct {
	kind, fallback int
	data           string
}

const (
	missing = iota
	file
	withIndex
	noIndex
	dirIndex
)

func setup() *world {
	w := &world{kind: sym.Choose("kind", 5), fallback: sym.Choose("fallback", 3)}
	if w.kind == file || w.kind == withIndex {
		w.data = sym.String("data", sym.Choose("size", 3))
	}
	symfs.Mkdirs("www")
	switch w.kind {
	case file:
		symfs.File("www/x", w.data)
	case withIndex:
		symfs.File("www/x/index.html", w.data)
	case noIndex:
		symfs.File("www/x/other", "other")
	case dirIndex:
		symfs.File("www/x/index.html/y", "y")
	}
	symfs.File("www/fb", "fallback")
	return w
}

//sym:covers file index redirect missing passed fallback
func H_outcomes() {
	w := setup()
	opt := static.StaticOption{TryFilesThen: []string{"", "fb", "/nofb"}[w.fallback]}
	app, _ := hx.App()
	passed := false
	app.Filter(static.ServeFilter("", symfs.Dir()+"/www", opt))
	app.NotFound(func() { passed = true })
	for i, n := 0, 1+sym.Choose("again", 2); i < n; i++ {
		path := []string{"/x", "/x/", "/x/.", "/x//", "/x/index.html", "/./x", "/x/index.html/"}[sym.Choose("path", 7)]
		method := []string{"GET", "HEAD"}[sym.Choose("head", 2)]
		passed = false
		rec := hx.NewRec()
		req := hx.Request(method, path)
		req.URL.RawQuery = "q=1"
		app.ServeHTTP(rec, req)
		sym.Assert(symfs.Open() == 0, "file-left-open")

		want, code := "", 0
		slash := strings.HasSuffix(path, "/")
		deep := strings.HasPrefix(path, "/x/index.html")
		switch {
		case w.kind == file && !deep, w.kind == withIndex && deep, w.kind == withIndex && slash:
			want, code = w.data, 200
			sym.Cover("file")
			if slash && !deep {
				sym.Cover("index")
			}
		case w.kind > file && !slash && (!deep || w.kind == dirIndex):
			code = 302
			sym.Cover("redirect")
			sym.Assert(rec.Sent.Get("Location") == strings.Replace(path, "/.", "", 1)+"/?q=1" || strings.Contains(path, "."), "redirect-to-the-directory")
		case w.kind == dirIndex && !deep:
			// neither a file nor an index: passes on
			sym.Assert(passed && len(rec.Body) == 0, "passes-on")
			sym.Cover("passed")
			continue
		case w.fallback == 1 && !(slash && w.kind >= withIndex && (w.kind == noIndex || deep)):
			want, code = "fallback", 200
			sym.Cover("fallback")
		case w.fallback == 1 && rec.Code() == 200:
			want, code = "fallback", 200 // a directory without index: fallback or 404
		default:
			code = 404
			sym.Cover("missing")
		}
		sym.Assert(!passed, "answered")
		sym.Assert(rec.Code() == code, "status")
		if code == 200 {
			if method == "HEAD" {
				want = ""
			}
			sym.Assert(string(rec.Body) == want, "exactly-the-file")
		}
	}
}

//sym:covers redirect
func H_redirect() {
	symfs.Mkdirs("www/x")
	app, _ := hx.App()
	app.Filter(static.ServeFilter("", symfs.Dir()+"/www"))
	app.NotFound(func(rw http.ResponseWriter) { rw.WriteHeader(418) })
	app.Routers(strip.Get(func(rw http.ResponseWriter) { rw.WriteHeader(418) }))
	path := "/" + sym.StringOf("path", sym.Choose("len", sym.Bound(5, 7)), "/.x\\")
	if sym.Choose("dir", 2) == 1 {
		path += "/x"
	}
	rec := hx.Serve(app, "GET", path)
	if rec.Code() != 302 {
		return
	}
	sym.Cover("redirect")
	to, err := url.Parse(sym.Concrete(rec.Sent.Get("Location")))
	sym.Assert(err == nil, "location-parses")
	sym.Assert(to.Scheme == "" && to.Host == "" && strings.HasPrefix(to.Path, "/"), "redirect-stays-on-the-host")
	sym.Assert(to.Path == "/x/" || to.Path == "/", "redirect-to-the-directory")
}

// Files of any size.
func H_large() {
	s := hx.Long("data", 65537, "\x00\n\xff")
	symfs.Mkdirs("www")
	symfs.File("www/x", s)
	app, _ := hx.App()
	app.Filter(static.ServeFilter("", symfs.Dir()+"/www"))
	rec := hx.NewRec()
	app.ServeHTTP(rec, hx.Request("GET", "/x"))
	sym.Assert(rec.Code() == 200 && string(rec.Body) == s, "exactly-the-file")
	if l := rec.Sent.Get("Content-Length"); l != "" {
		sym.Assert(l == strconv.Itoa(len(s)), "length-of-the-file")
	}
	sym.Assert(symfs.Open() == 0, "file-left-open")
}

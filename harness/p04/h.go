package h

import (
	"net/http"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	"github.com/wujiu2020/strip/zz_verif/hx"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds every presence of the headers; X-Real-IP texts of 1 to 3, 7, 9 and 12 and URI texts of up to 3 arbitrary bytes; addresses of 7 forms (IPv4, name, IPv6 bare and bracketed, with a zone) with up to 2 symbolic characters each, with and without a port of 1..2 digits, with up to 1 space around, in lists of up to 3 (thorough: longer texts)
//sym:assume a header that is present is not empty, except a blank X-Forwarded-For; the peer address is what net/http sets (host and port, IPv6 in brackets); the forwarded host and scheme are single values

// address draws an address: the host as it must come out, and the text with a port if asked.
// bracket keeps the brackets of an IPv6 literal in the host, as a URL needs them.
func address(port, bracket bool) (host, text string) {
	hex := "0aF"
	k := sym.Choose("form", 7)
	switch k {
	case 0:
		host = "1" + sym.StringOf("digit", 1, "0129") + ".2.3.4"
	case 1:
		host = sym.StringOf("name", sym.Bound(1, 2), "az-0") + ".b"
	case 2:
		host = "::1"
	case 3:
		host = "2001:" + sym.StringOf("hex", sym.Bound(1, 2), hex) + "::" + sym.StringOf("hex", 1, hex)
	case 4:
		host = "fe80::1%" + sym.StringOf("zone", 1, "e0")
	case 5:
		host = "12" + sym.StringOf("digit", 1, "67") + ".0.0.1"
	case 6:
		host = "::ffff:1.2.3." + sym.StringOf("digit", 1, "0129")
	}
	v6 := k >= 2 && k != 5
	text = host
	if v6 && (port || bracket || sym.Choose("brackets", 2) == 1) {
		text = "[" + host + "]"
	}
	if v6 && bracket {
		host = text
	}
	if port {
		text += ":" + sym.StringOf("port", 1+sym.Choose("portlen", 2), "0189")
	}
	return
}

func maybePort() bool { return sym.Choose("port", 2) == 1 }

func space(l string) string { return sym.StringOf(l, sym.Choose(l, 2), " \t") }

//sym:covers real forwarded peer
func H_ip() {
	req := hx.Request("GET", "/")
	peer, addr := address(true, false)
	req.RemoteAddr = addr
	want := peer
	if peer == "::1" {
		want = "127.0.0.1"
	}
	if sym.Choose("real", 2) == 1 {
		sym.Cover("real")
		want = sym.String("real", []int{1, 2, 3, 7, 9, 12}[sym.Choose("len", 6)])
		req.Header.Set("X-Real-Ip", want)
		if sym.Choose("both", 2) == 1 {
			req.Header.Set("X-Forwarded-For", "9.9.9.9")
		}
	} else if sym.Choose("forwarded", 2) == 1 {
		sym.Cover("forwarded")
		h, t := address(maybePort(), false)
		want = h
		list := space("before") + t + space("after")
		for i, n := 0, sym.Choose("more", 3); i < n; i++ {
			list += "," + []string{" 5.6.7.8", "::2", "", "[::3]:80"}[sym.Choose("next", 4)]
		}
		req.Header.Set("X-Forwarded-For", list)
	} else {
		sym.Cover("peer")
		if sym.Choose("blank", 2) == 1 { // names no address
			req.Header.Set("X-Forwarded-For", space("before")+space("after"))
		}
	}
	sym.Assert(params.RealIp(req) == want, "real-ip")
}

func draw(req *http.Request) (host, proto string) {
	host, req.Host = address(maybePort(), true)
	if sym.Choose("forwardedhost", 2) == 1 {
		h, t := address(maybePort(), true)
		host = h
		req.Header.Set("X-Forwarded-Host", t)
	}
	proto = "http"
	if s := sym.Choose("scheme", 3); s > 0 {
		req.URL.Scheme = []string{"", "http", "https"}[s]
		proto = req.URL.Scheme
	}
	if sym.Choose("forwardedproto", 2) == 1 {
		proto = sym.StringOf("proto", 1+sym.Choose("len", 2), "hts")
		req.Header.Set("X-Forwarded-Proto", proto)
	}
	return
}

func H_host() {
	req := hx.Request("GET", "/")
	host, proto := draw(req)
	sym.Assert(params.RealHost(req) == host, "real-host")
	sym.Assert(params.RealProto(req) == proto, "real-proto")
}

// The real URI and URL.
//
//sym:covers original own bad
func H_url() {
	req := hx.Request("GET", "/")
	host, proto := "h", "http"
	req.Host = "h:80"
	req.URL.Path = "/own" + sym.StringOf("path", 2, "/a ")
	req.URL.RawQuery = sym.StringOf("query", sym.Choose("qlen", 3), "a=&")
	path, query := req.URL.Path, req.URL.RawQuery
	if sym.Choose("original", 2) == 1 {
		sym.Cover("original")
		path = "/" + sym.StringOf("orig", sym.Choose("len", sym.Bound(3, 4)), "/a.b")
		text := path
		query = ""
		if sym.Choose("q", 2) == 1 {
			query = sym.StringOf("oquery", sym.Choose("oqlen", 3), "a=&/")
			text += "?" + query
		}
		if sym.Choose("malformed", 2) == 1 {
			sym.Cover("bad")
			text = []string{"x", "", "/%zz", "http://[::1", "a b"}[sym.Choose("kind", 5)]
			req.Header["X-Original-Uri"] = []string{text}
			if text == "" {
				return
			}
			_, err := params.RealURL(req)
			sym.Assert(err != nil, "malformed-accepted")
			return
		}
		req.Header.Set("X-Original-URI", text)
		sym.Assert(params.RealURI(req) == text, "real-uri")
	} else {
		sym.Cover("own")
		sym.Assert(params.RealURI(req) == req.URL.RequestURI(), "real-uri")
	}
	before := *req.URL
	u, err := params.RealURL(req)
	sym.Assert(err == nil, "well-formed-rejected")
	if err == nil {
		sym.Assert(u.Host == host && u.Scheme == proto, "url-host")
		sym.Assert(u.Path == path, "url-path")
		sym.Assert(u.RawQuery == query, "url-query")
	}
	sym.Assert(*req.URL == before, "request-changed")
}

// A handler's parameters answer the same questions for its own request.
func H_params() {
	req := hx.Request("GET", "/x")
	req.URL.RawQuery = "q=1"
	peer, host, proto, uri := "5.6.7.8", "h", "http", "/x?q=1"
	req.RemoteAddr, req.Host, req.URL.Host = "5.6.7.8:9", "h:80", "elsewhere"
	switch sym.Choose("what", 3) {
	case 0:
		peer, req.RemoteAddr = address(true, false)
		if peer == "::1" {
			peer = "127.0.0.1"
		}
	case 1:
		host, proto = draw(req)
	case 2:
		uri = "/o?r=" + sym.StringOf("uri", 2, "ab=/")
		req.Header.Set("X-Original-URI", uri)
	}
	ran := 0
	app, _ := hx.App()
	app.Provide(params.ParamsParser())
	app.Routers(strip.Router("/x", strip.Get(func(p *params.Params) {
		ran++
		sym.Assert(p.RealIp() == peer, "params-ip")
		sym.Assert(p.RealHost() == host, "params-host")
		sym.Assert(p.RealProto() == proto, "params-proto")
		sym.Assert(p.RealURI() == uri, "params-uri")
		u, err := p.RealURL()
		sym.Assert(err == nil && u.Host == host && u.Scheme == proto && u.Path+"?"+u.RawQuery == uri, "params-url")
	})))
	app.ServeHTTP(hx.NewRec(), req)
	sym.Assert(ran == 1, "handler-ran")
}

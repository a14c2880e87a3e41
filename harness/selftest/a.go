package h

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/wujiu2020/strip/zz_verif/sym"
)

type T struct {
	A int `json:"a,omitempty"`
	B string
	c bool
	D []string
	E map[string]int
}

func (t *T) Hello(x int) string { return "hi " + strconv.Itoa(x) }

//sym:covers neg pos
func H_strconv() {
	s := sym.StringOf("s", sym.Bound(3, 4), "-+0123456789x")
	n, err := strconv.Atoi(s)
	sym.Observe("n", n)
	sym.Observe("e", err != nil)
	if err == nil {
		if n < 0 {
			sym.Cover("neg")
		} else {
			sym.Cover("pos")
		}
		sym.Assert(n < 10000 && n > -1000, "range")
	}
}

func H_fmt() {
	sym.Observe("1", fmt.Sprintf("%d %s %v %q %5.2f %x %+v %T", 12, "a", []int{1, 2}, "q\n", 3.14159, "hex", T{A: 1, B: "x", D: []string{"z"}}, &T{}))
	sym.Observe("2", fmt.Sprint(errors.New("foo"), nil, true, 'x', map[string]int{"b": 1, "a": 2}))
	s := sym.ASCII("s", 3)
	sym.Observe("3", fmt.Sprintf("<%s|%5s|%v>", s, s, s))
	sym.Observe("4", fmt.Errorf("w: %w", errors.New("in")).Error())
}

func H_json() {
	b, err := json.Marshal(T{A: 3, B: "x<y>\u2028", D: []string{"p", "q"}, E: map[string]int{"z": 1, "a": 2}})
	sym.Observe("b", string(b))
	sym.Observe("e", err)
	var t T
	err = json.Unmarshal([]byte(`{"a": 12, "B":"foo\n", "D":["1","2"], "E": {"k": 5}}`), &t)
	sym.Observe("e", err)
	sym.Observe("t", fmt.Sprintf("%+v", t))
	s := sym.ASCII("s", 2)
	b, err = json.Marshal(s)
	sym.Observe("s", string(b))
	sym.Observe("e", err)
}

func H_refl() {
	t := &T{}
	v := reflect.ValueOf(t)
	m := v.MethodByName("Hello")
	out := m.Call([]reflect.Value{reflect.ValueOf(5)})
	sym.Observe("out", out[0].String())
	for i := 0; i < v.Elem().NumField(); i++ {
		f := v.Elem().Type().Field(i)
		sym.Observe("f", f.Name+" "+f.Type.String()+" "+string(f.Tag)+" "+strconv.FormatBool(v.Elem().Field(i).CanSet()))
	}
	v.Elem().FieldByName("B").SetString(sym.ASCII("x", 2))
	sym.Observe("B", t.B)
	sym.Observe("deq", reflect.DeepEqual(t, &T{B: "ab"}))
	sym.Observe("mt", v.Type().Method(0).Type.String())
}

func H_url() {
	s := sym.StringOf("s", 4, "a%2F/+&=?#")
	u, err := url.Parse("/" + s)
	sym.Observe("err", err != nil)
	if err == nil {
		sym.Observe("path", u.Path)
		sym.Observe("q", u.RawQuery)
	}
	q, err := url.ParseQuery(s)
	sym.Observe("err", err != nil)
	var ks []string
	for k := range q {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sym.Observe("ks", ks)
}

type rec struct {
	h http.Header
	c int
	b []byte
}

func (r *rec) Header() http.Header         { return r.h }
func (r *rec) Write(b []byte) (int, error) { r.b = append(r.b, b...); return len(b), nil }
func (r *rec) WriteHeader(c int)           { r.c = c }

func H_http() {
	r := &rec{h: http.Header{}}
	req, err := http.NewRequest("GET", "http://h/p?x=1", strings.NewReader("zz"))
	sym.Observe("e", err)
	http.Error(r, "bad", 400)
	sym.Observe("c", r.c)
	sym.Observe("b", r.b)
	sym.Observe("ct", r.h.Get("content-type"))
	r = &rec{h: http.Header{}}
	http.Redirect(r, req, "/foo", 302)
	sym.Observe("c", r.c)
	sym.Observe("loc", r.h["Location"])
	http.SetCookie(r, &http.Cookie{Name: "n", Value: "v", Path: "/", MaxAge: 10, HttpOnly: true})
	sym.Observe("ck", r.h["Set-Cookie"])
	req.Header.Set("Cookie", "a=b; c="+sym.StringOf("v", 2, "ab;\" "))
	for _, c := range req.Cookies() {
		sym.Observe("cookie", c.Name+"="+c.Value)
	}
	sym.Observe("f", req.FormValue("x"))
	sym.Observe("t", time.Unix(1700000000, 0).UTC().Format(time.RFC1123))
	tt, err := time.Parse("2006-01-02 15:04:05", "2024-02-29 10:20:30")
	sym.Observe("t", tt.Unix())
	sym.Observe("e", err)
}

func H_conc() {
	ch := make(chan int, 1)
	done := make(chan bool)
	n := 0
	go func() {
		for x := range ch {
			n += x
		}
		done <- true
	}()
	ch <- 1
	ch <- 2
	close(ch)
	<-done
	sym.Assert(n == 3, "sum")
	sym.Observe("n", n)
	func() {
		defer func() { sym.Observe("rec", fmt.Sprint(recover())) }()
		var a []int
		_ = a[sym.IntRange("i", 0, 3)]
	}()
}

// Package redis stands in for github.com/mediocregopher/radix.v2/redis: the same API over an in-memory
// server that follows Redis' meaning of the commands, records every command and fails when told to.
package redis

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
)

type RespType int

const (
	SimpleStr RespType = 1 << iota
	BulkStr
	IOErr
	AppErr
	Int
	Array
	Nil

	Str = SimpleStr | BulkStr
	Err = IOErr | AppErr
)

var (
	errBadType = errors.New("wrong type")
	errNotInt  = errors.New("could not convert to int")
	ErrRespNil = errors.New("response is nil")
	ErrDown    = errors.New("redis: connection reset")
)

type Resp struct {
	typ RespType
	s   string
	i   int64
	a   []*Resp
	Err error
}

func (r *Resp) IsType(t RespType) bool { return r.typ&t > 0 }

func (r *Resp) Bytes() ([]byte, error) {
	s, err := r.Str()
	if err != nil {
		return nil, err
	}
	return []byte(s), nil
}

func (r *Resp) Str() (string, error) {
	if r.Err != nil {
		return "", r.Err
	}
	if r.IsType(Nil) {
		return "", ErrRespNil
	}
	if !r.IsType(Str) {
		return "", errBadType
	}
	return r.s, nil
}

func (r *Resp) Int() (int, error) {
	i, err := r.Int64()
	return int(i), err
}

func (r *Resp) Int64() (int64, error) {
	if r.Err != nil {
		return 0, r.Err
	}
	if r.IsType(Nil) {
		return 0, ErrRespNil
	}
	if r.typ == Int {
		return r.i, nil
	}
	if s, err := r.Str(); err == nil {
		return strconv.ParseInt(s, 10, 64)
	}
	return 0, errNotInt
}

func (r *Resp) Array() ([]*Resp, error) {
	if r.Err != nil {
		return nil, r.Err
	}
	if r.IsType(Nil) {
		return nil, ErrRespNil
	}
	if !r.IsType(Array) {
		return nil, errBadType
	}
	return r.a, nil
}

func (r *Resp) List() ([]string, error) {
	a, err := r.Array()
	if err != nil {
		return nil, err
	}
	var l []string
	for _, x := range a {
		s, err := x.Str()
		if err != nil && err != ErrRespNil {
			return nil, err
		}
		l = append(l, s)
	}
	return l, nil
}

func ok() *Resp               { return &Resp{typ: SimpleStr, s: "OK"} }
func null() *Resp             { return &Resp{typ: Nil} }
func num(i int64) *Resp       { return &Resp{typ: Int, i: i} }
func appErr(msg string) *Resp { return &Resp{typ: AppErr, Err: errors.New(msg)} }
func ioErr() *Resp            { return &Resp{typ: IOErr, Err: ErrDown} }

// Entry is a key as the server keeps it.
type Entry struct {
	Key      string
	Value    string
	Expires  bool
	Deadline int64 // seconds on the server's clock
}

// Server is the fake server.
type Server struct {
	Entries []*Entry
	Fail    func(op, key string) int // 0: go on, 1: fail before, 2: fail after
	Touched func(op, key string)     // told of every command
	Out     int                      // connections taken and not given back
	Taken   int                      // connections ever taken
}

// Now is the server's clock.
func (s *Server) Now() int64 { return time.Now().Unix() }

// Find returns a live entry.
func (s *Server) Find(key string) *Entry {
	for _, e := range s.Entries {
		if e.Key == key {
			if e.Expires && e.Deadline <= s.Now() {
				return nil
			}
			return e
		}
	}
	return nil
}

func (s *Server) drop(key string) {
	for i, e := range s.Entries {
		if e.Key == key {
			s.Entries = append(append([]*Entry{}, s.Entries[:i]...), s.Entries[i+1:]...)
			return
		}
	}
}

// Client is one connection.
type Client struct {
	Addr, Network string
	LastCritical  error
	Server        *Server
	pipe          [][2]interface{}
}

func (c *Client) Close() error { return nil }

func (c *Client) PipeAppend(cmd string, args ...interface{}) {
	c.pipe = append(c.pipe, [2]interface{}{cmd, args})
}

func (c *Client) PipeResp() *Resp {
	if len(c.pipe) == 0 {
		return &Resp{typ: AppErr, Err: errors.New("pipeline queue empty")}
	}
	p := c.pipe[0]
	c.pipe = c.pipe[1:]
	return c.Cmd(p[0].(string), p[1].([]interface{})...)
}

// text flattens an argument as the client sends it.
func text(a interface{}) []string {
	switch x := a.(type) {
	case string:
		return []string{x}
	case []byte:
		return []string{string(x)}
	case bool:
		if x {
			return []string{"1"}
		}
		return []string{"0"}
	case nil:
		return []string{""}
	case int:
		return []string{strconv.FormatInt(int64(x), 10)}
	case int32:
		return []string{strconv.FormatInt(int64(x), 10)}
	case int64:
		return []string{strconv.FormatInt(x, 10)}
	case uint:
		return []string{strconv.FormatInt(int64(x), 10)}
	case uint32:
		return []string{strconv.FormatInt(int64(x), 10)}
	case uint64:
		return []string{strconv.FormatInt(int64(x), 10)}
	case float32:
		return []string{strconv.FormatFloat(float64(x), 'f', -1, 32)}
	case float64:
		return []string{strconv.FormatFloat(x, 'f', -1, 64)}
	case error:
		return []string{x.Error()}
	case []interface{}:
		var l []string
		for _, y := range x {
			l = append(l, text(y)...)
		}
		return l
	case []string:
		return x
	}
	return []string{fmt.Sprint(a)}
}

func (c *Client) Cmd(cmd string, args ...interface{}) *Resp {
	op := strings.ToUpper(cmd)
	var l []string
	for _, a := range args {
		l = append(l, text(a)...)
	}
	key := ""
	if len(l) > 0 {
		key = l[0]
	}
	s := c.Server
	if s.Touched != nil {
		s.Touched(op, key)
	}
	fail := 0
	if s.Fail != nil {
		fail = s.Fail(op, key)
	}
	if fail == 1 {
		c.LastCritical = ErrDown
		return ioErr()
	}
	r := s.run(op, l)
	if fail == 2 {
		c.LastCritical = ErrDown
		return ioErr()
	}
	return r
}

const notInt = "ERR value is not an integer or out of range"

func (s *Server) run(op string, a []string) *Resp {
	arity := func(n int) bool { return len(a) == n }
	wrong := appErr("ERR wrong number of arguments for '" + strings.ToLower(op) + "' command")
	switch op {
	case "PING":
		return &Resp{typ: SimpleStr, s: "PONG"}
	case "FLUSHDB", "FLUSHALL":
		s.Entries = nil
		return ok()
	case "GET":
		if !arity(1) {
			return wrong
		}
		e := s.Find(a[0])
		if e == nil {
			return null()
		}
		return &Resp{typ: BulkStr, s: e.Value}
	case "MGET":
		r := &Resp{typ: Array}
		for _, k := range a {
			r.a = append(r.a, s.run("GET", []string{k}))
		}
		return r
	case "EXISTS", "DEL", "UNLINK":
		if len(a) == 0 {
			return wrong
		}
		n := int64(0)
		for _, k := range a {
			if s.Find(k) != nil {
				n++
				if op != "EXISTS" {
					s.drop(k)
				}
			}
		}
		return num(n)
	case "SETEX":
		if !arity(3) {
			return wrong
		}
		return s.run("SET", []string{a[0], a[2], "EX", a[1]})
	case "SET":
		if len(a) < 2 {
			return wrong
		}
		e := &Entry{Key: a[0], Value: a[1]}
		for i := 2; i < len(a); i++ {
			switch strings.ToUpper(a[i]) {
			case "EX", "PX":
				if i+1 >= len(a) {
					return appErr("ERR syntax error")
				}
				n, err := strconv.ParseInt(a[i+1], 10, 64)
				if err != nil {
					return appErr(notInt)
				}
				if strings.ToUpper(a[i]) == "PX" {
					if n > 0 && n < 1000 {
						n = 1000
					}
					n /= 1000
				}
				if n <= 0 || n > math.MaxInt64/1000-s.Now() {
					return appErr("ERR invalid expire time in 'set' command")
				}
				e.Expires, e.Deadline = true, s.Now()+n
				i++
			case "NX":
				if s.Find(a[0]) != nil {
					return null()
				}
			case "XX":
				if s.Find(a[0]) == nil {
					return null()
				}
			case "KEEPTTL":
				if o := s.Find(a[0]); o != nil {
					e.Expires, e.Deadline = o.Expires, o.Deadline
				}
			default:
				return appErr("ERR syntax error")
			}
		}
		s.drop(a[0])
		s.Entries = append(s.Entries, e)
		return ok()
	case "EXPIRE", "EXPIREAT":
		if !arity(2) {
			return wrong
		}
		n, err := strconv.ParseInt(a[1], 10, 64)
		if err != nil {
			return appErr(notInt)
		}
		if op == "EXPIREAT" {
			n -= s.Now()
		}
		if n > math.MaxInt64/1000-s.Now() || n < -math.MaxInt64/1000 {
			return appErr("ERR invalid expire time in 'expire' command")
		}
		e := s.Find(a[0])
		if e == nil {
			return num(0)
		}
		if n <= 0 {
			s.drop(a[0])
			return num(1)
		}
		e.Expires, e.Deadline = true, s.Now()+n
		return num(1)
	case "PERSIST":
		if !arity(1) {
			return wrong
		}
		e := s.Find(a[0])
		if e == nil || !e.Expires {
			return num(0)
		}
		e.Expires = false
		return num(1)
	case "TTL":
		if !arity(1) {
			return wrong
		}
		e := s.Find(a[0])
		switch {
		case e == nil:
			return num(-2)
		case !e.Expires:
			return num(-1)
		}
		return num(e.Deadline - s.Now())
	case "INCR", "DECR":
		if !arity(1) {
			return wrong
		}
		return s.run(op+"BY", []string{a[0], "1"})
	case "INCRBY", "DECRBY":
		if !arity(2) {
			return wrong
		}
		n, err := strconv.ParseInt(a[1], 10, 64)
		if err != nil {
			return appErr(notInt)
		}
		if op == "DECRBY" {
			if n == math.MinInt64 {
				return appErr("ERR decrement would overflow")
			}
			n = -n
		}
		e := s.Find(a[0])
		v := int64(0)
		if e != nil {
			if v, err = strconv.ParseInt(e.Value, 10, 64); err != nil {
				return appErr(notInt)
			}
		}
		if n > 0 && v > math.MaxInt64-n || n < 0 && v < math.MinInt64-n {
			return appErr("ERR increment or decrement would overflow")
		}
		if e == nil {
			s.drop(a[0])
			e = &Entry{Key: a[0]}
			s.Entries = append(s.Entries, e)
		}
		e.Value = strconv.FormatInt(v+n, 10)
		return num(v + n)
	}
	return appErr("ERR unknown command '" + op + "'")
}

// Failed is the response of a connection that could not be had.
func Failed(err error) *Resp { return &Resp{typ: IOErr, Err: err} }

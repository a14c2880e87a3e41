// Package mgo stands in for github.com/globalsign/mgo: the same API over an in-memory collection that
// follows MongoDB's meaning of queries and updates, records every command and fails when told to.
package mgo

import (
	"errors"
	"math"
	"strings"
	"time"

	"github.com/globalsign/mgo/bson"
)

var (
	ErrNotFound = errors.New("not found")
	ErrDown     = errors.New("no reachable servers")
)

type Index struct {
	Key         []string
	Unique      bool
	DropDups    bool
	Background  bool
	Sparse      bool
	ExpireAfter time.Duration
	Name        string
}

type ChangeInfo struct {
	Updated    int
	Removed    int
	Matched    int
	UpsertedId interface{}
}

type Doc = map[string]interface{}

// Server is the fake server: one collection.
type Server struct {
	Docs    []Doc
	Indexes []Index
	Fail    func(op string) int // 0: go on, 1: fail before, 2: fail after
}

type Session struct{ Server *Server }
type Database struct {
	Session *Session
	Name    string
}
type Collection struct {
	Database *Database
	Name     string
	FullName string
}

// NewCollection is the way into the fake.
func NewCollection(s *Server) *Collection {
	return &Collection{Database: &Database{Session: &Session{s}, Name: "db"}, Name: "c", FullName: "db.c"}
}

func (s *Server) do(op string, f func() error) error {
	fail := 0
	if s.Fail != nil {
		fail = s.Fail(op)
	}
	if fail == 1 {
		return ErrDown
	}
	err := f()
	if fail == 2 {
		return ErrDown
	}
	return err
}

func (s *Session) Ping() error { return s.Server.do("ping", func() error { return nil }) }

func (c *Collection) server() *Server { return c.Database.Session.Server }

func (c *Collection) EnsureIndex(i Index) error {
	s := c.server()
	return s.do("index", func() error { s.Indexes = append(s.Indexes, i); return nil })
}

func (c *Collection) EnsureIndexKey(key ...string) error { return c.EnsureIndex(Index{Key: key}) }

func asDoc(v interface{}) (Doc, error) {
	if v == nil {
		return Doc{}, nil
	}
	switch x := v.(type) {
	case bson.M:
		return Doc(x), nil
	case map[string]interface{}:
		return x, nil
	case bson.D:
		d := Doc{}
		for _, e := range x {
			d[e.Name] = e.Value
		}
		return d, nil
	}
	return nil, errors.New("unsupported kind of document")
}

func number(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case int64:
		return x, true
	}
	return 0, false
}

// compare orders two stored values of one kind.
func compare(a, b interface{}) (int, bool) {
	if x, ok := a.(time.Time); ok {
		if y, ok := b.(time.Time); ok {
			switch {
			case x.Before(y):
				return -1, true
			case y.Before(x):
				return 1, true
			}
			return 0, true
		}
		return 0, false
	}
	if x, ok := number(a); ok {
		if y, ok := number(b); ok {
			switch {
			case x < y:
				return -1, true
			case x > y:
				return 1, true
			}
			return 0, true
		}
		return 0, false
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			switch {
			case x == y:
				return 0, true
			case x < y:
				return -1, true
			}
			return 1, true
		}
		return 0, false
	}
	if x, ok := a.(bool); ok {
		if y, ok := b.(bool); ok && x == y {
			return 0, true
		}
	}
	return 0, false
}

var errQuery = errors.New("unsupported query or update")

func isOps(v interface{}) (Doc, bool) {
	switch v.(type) {
	case bson.M, map[string]interface{}, bson.D:
		d, _ := asDoc(v)
		for k := range d {
			return d, strings.HasPrefix(k, "$")
		}
	}
	return nil, false
}

func matches(d Doc, query interface{}) (bool, error) {
	q, err := asDoc(query)
	if err != nil {
		return false, err
	}
	for k, want := range q {
		if k == "$and" || k == "$or" {
			var l []interface{}
			switch x := want.(type) {
			case []bson.M:
				for _, e := range x {
					l = append(l, e)
				}
			case []interface{}:
				l = x
			default:
				return false, errQuery
			}
			any, all := false, true
			for _, e := range l {
				m, err := matches(d, e)
				if err != nil {
					return false, err
				}
				any, all = any || m, all && m
			}
			if k == "$or" && !any || k == "$and" && !all {
				return false, nil
			}
			continue
		}
		have, exists := d[k]
		ops, ok := isOps(want)
		if !ok {
			ops = Doc{"$eq": want}
		}
		for op, arg := range ops {
			if op == "$exists" {
				if b, _ := arg.(bool); b != exists {
					return false, nil
				}
				continue
			}
			arg, err := bson.Stored(arg)
			if err != nil {
				return false, err
			}
			c, ok := compare(have, arg)
			r := false
			switch op {
			case "$eq":
				r = ok && c == 0 || have == nil && arg == nil
			case "$ne":
				r = !(ok && c == 0 || have == nil && arg == nil)
			case "$lt":
				r = ok && c < 0
			case "$lte":
				r = ok && c <= 0
			case "$gt":
				r = ok && c > 0
			case "$gte":
				r = ok && c >= 0
			default:
				return false, errQuery
			}
			if !r {
				return false, nil
			}
		}
	}
	return true, nil
}

// find returns the indexes of the documents that match.
func (s *Server) find(query interface{}) ([]int, error) {
	var l []int
	for i, d := range s.Docs {
		m, err := matches(d, query)
		if err != nil {
			return nil, err
		}
		if m {
			l = append(l, i)
		}
	}
	return l, nil
}

// updated returns what an update makes of a document.
func updated(d Doc, update interface{}, insert bool) (Doc, error) {
	r := Doc{}
	ops, ok := isOps(update)
	if !ok {
		u, err := asDoc(update)
		if err != nil {
			return nil, err
		}
		if id, ok := d["_id"]; ok {
			r["_id"] = id
		}
		for k, v := range u {
			if r[k], err = bson.Stored(v); err != nil {
				return nil, err
			}
		}
		return r, nil
	}
	for k, v := range d {
		r[k] = v
	}
	for op, arg := range ops {
		fields, err := asDoc(arg)
		if err != nil {
			return nil, err
		}
		for k, v := range fields {
			sv, err := bson.Stored(v)
			if err != nil {
				return nil, err
			}
			switch op {
			case "$setOnInsert":
				if insert {
					r[k] = sv
				}
			case "$set":
				r[k] = sv
			case "$unset":
				delete(r, k)
			case "$inc":
				n, ok := number(sv)
				if !ok {
					return nil, errQuery
				}
				o, exists := d[k]
				x, ok := number(o)
				if exists && !ok {
					return nil, errors.New("Cannot apply $inc to a value of non-numeric type")
				}
				if n > 0 && x > math.MaxInt64-n || n < 0 && x < math.MinInt64-n {
					return nil, errors.New("Failed to apply $inc operations to current value")
				}
				r[k] = x + n
			default:
				return nil, errQuery
			}
		}
	}
	return r, nil
}

func (c *Collection) change(op string, query, update interface{}, upsert, all bool) (info *ChangeInfo, err error) {
	s := c.server()
	info = &ChangeInfo{}
	err = s.do(op, func() error {
		l, err := s.find(query)
		if err != nil {
			return err
		}
		if !all && len(l) > 1 {
			l = l[:1]
		}
		if len(l) == 0 {
			if !upsert {
				return ErrNotFound
			}
			d := Doc{}
			q, _ := asDoc(query)
			for k, v := range q {
				if _, ops := isOps(v); !ops && !strings.HasPrefix(k, "$") {
					if d[k], err = bson.Stored(v); err != nil {
						return err
					}
				}
			}
			n, err := updated(d, update, true)
			if err != nil {
				return err
			}
			if err := s.unique(n, -1); err != nil {
				return err
			}
			s.Docs = append(s.Docs, n)
			return nil
		}
		for _, i := range l {
			n, err := updated(s.Docs[i], update, false)
			if err != nil {
				return err
			}
			if err := s.unique(n, i); err != nil {
				return err
			}
			s.Docs[i] = n
			info.Updated++
			info.Matched++
		}
		return nil
	})
	if err != nil {
		info = nil
	}
	return
}

// unique refuses a second document with the same value of a unique field.
func (s *Server) unique(d Doc, at int) error {
	keys := []string{"_id"}
	for _, x := range s.Indexes {
		if x.Unique {
			keys = append(keys, x.Key...)
		}
	}
	for _, k := range keys {
		v, ok := d[k]
		if !ok {
			continue
		}
		for i, o := range s.Docs {
			if c, ok := compare(o[k], v); i != at && ok && c == 0 {
				return errors.New("E11000 duplicate key error")
			}
		}
	}
	return nil
}

func (c *Collection) Insert(docs ...interface{}) error {
	s := c.server()
	return s.do("insert", func() error {
		for _, x := range docs {
			n, err := updated(Doc{}, x, true)
			if err != nil {
				return err
			}
			if err := s.unique(n, -1); err != nil {
				return err
			}
			s.Docs = append(s.Docs, n)
		}
		return nil
	})
}

func (c *Collection) Upsert(q, u interface{}) (*ChangeInfo, error) {
	return c.change("upsert", q, u, true, false)
}
func (c *Collection) UpsertId(id, u interface{}) (*ChangeInfo, error) {
	return c.Upsert(bson.M{"_id": id}, u)
}
func (c *Collection) Update(q, u interface{}) error {
	_, err := c.change("update", q, u, false, false)
	return err
}
func (c *Collection) UpdateId(id, u interface{}) error { return c.Update(bson.M{"_id": id}, u) }
func (c *Collection) UpdateAll(q, u interface{}) (*ChangeInfo, error) {
	info, err := c.change("update", q, u, false, true)
	if err == ErrNotFound {
		return &ChangeInfo{}, nil
	}
	return info, err
}

func (c *Collection) remove(q interface{}, all bool) (n int, err error) {
	s := c.server()
	err = s.do("remove", func() error {
		l, err := s.find(q)
		if err != nil {
			return err
		}
		if !all {
			if len(l) == 0 {
				return ErrNotFound
			}
			l = l[:1]
		}
		var rest []Doc
		for i, d := range s.Docs {
			if n < len(l) && l[n] == i {
				n++
				continue
			}
			rest = append(rest, d)
		}
		s.Docs = rest
		return nil
	})
	return
}

func (c *Collection) Remove(q interface{}) error    { _, err := c.remove(q, false); return err }
func (c *Collection) RemoveId(id interface{}) error { return c.Remove(bson.M{"_id": id}) }
func (c *Collection) RemoveAll(q interface{}) (*ChangeInfo, error) {
	n, err := c.remove(q, true)
	if err != nil {
		return nil, err
	}
	return &ChangeInfo{Removed: n, Matched: n}, nil
}

type Query struct {
	c *Collection
	q interface{}
}

func (c *Collection) Find(q interface{}) *Query    { return &Query{c, q} }
func (c *Collection) FindId(id interface{}) *Query { return c.Find(bson.M{"_id": id}) }
func (q *Query) Select(interface{}) *Query         { return q }
func (q *Query) Limit(int) *Query                  { return q }

func (q *Query) One(out interface{}) error {
	s := q.c.server()
	return s.do("find", func() error {
		l, err := s.find(q.q)
		if err != nil {
			return err
		}
		if len(l) == 0 {
			return ErrNotFound
		}
		d, err := bson.Stored(s.Docs[l[0]])
		if err != nil {
			return err
		}
		return bson.Into(d.(map[string]interface{}), out)
	})
}

func (q *Query) Count() (n int, err error) {
	s := q.c.server()
	err = s.do("count", func() error {
		l, err := s.find(q.q)
		n = len(l)
		return err
	})
	return
}

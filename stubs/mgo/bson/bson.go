// Package bson stands in for github.com/globalsign/mgo/bson: documents, and an encoding that gives back
// what bson would give back.
package bson

import (
	"errors"
	"reflect"
	"strconv"
	"time"
)

type M map[string]interface{}
type DocElem struct {
	Name  string
	Value interface{}
}
type D []DocElem

// Stored returns what reading v back from a document gives.
func Stored(v interface{}) (interface{}, error) {
	switch x := v.(type) {
	case nil:
		return nil, nil
	case bool, string, float64, int64:
		return v, nil
	case int:
		if x != int(int32(x)) {
			return int64(x), nil
		}
		return x, nil
	case []byte:
		return append([]byte{}, x...), nil
	case time.Time:
		ms := x.Unix()*1000 + int64(x.Nanosecond()/1e6)
		return time.Unix(ms/1000, ms%1000*1e6), nil
	case M:
		return document(map[string]interface{}(x))
	case map[string]interface{}:
		return document(x)
	case error:
		return nil, errors.New("bson: cannot store an error")
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Bool:
		return r.Bool(), nil
	case reflect.String:
		return r.String(), nil
	case reflect.Int8, reflect.Int16, reflect.Int32:
		return int(r.Int()), nil
	case reflect.Int64:
		return r.Int(), nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return int(r.Uint()), nil
	case reflect.Uint, reflect.Uint64:
		if int64(r.Uint()) < 0 {
			return nil, errors.New("BSON has no uint64 type, and value is too large to fit correctly in an int64")
		}
		return int64(r.Uint()), nil
	case reflect.Float32, reflect.Float64:
		return r.Float(), nil
	case reflect.Ptr, reflect.Interface:
		if r.IsNil() {
			return nil, nil
		}
		return Stored(r.Elem().Interface())
	case reflect.Slice:
		if r.Type().Elem().Kind() == reflect.Uint8 {
			return append([]byte{}, r.Bytes()...), nil
		}
		l := []interface{}{}
		for i := 0; i < r.Len(); i++ {
			e, err := Stored(r.Index(i).Interface())
			if err != nil {
				return nil, err
			}
			l = append(l, e)
		}
		return l, nil
	}
	return nil, errors.New("Can't marshal " + r.Type().String() + " in a BSON document")
}

func document(m map[string]interface{}) (interface{}, error) {
	d := map[string]interface{}{}
	for k, v := range m {
		s, err := Stored(v)
		if err != nil {
			return nil, err
		}
		d[k] = s
	}
	return d, nil
}

var encoded []map[string]interface{}

// Marshal encodes a document: as the number under which it is remembered.
func Marshal(in interface{}) ([]byte, error) {
	v, err := Stored(in)
	if err != nil {
		return nil, err
	}
	d, ok := v.(map[string]interface{})
	if !ok {
		return nil, errors.New("Can't marshal as a BSON document")
	}
	encoded = append(encoded, d)
	return []byte("\x10\x00" + strconv.Itoa(len(encoded)-1) + "\x00"), nil
}

// Unmarshal decodes what Marshal made.
func Unmarshal(in []byte, out interface{}) error {
	n := len(in)
	if n < 4 || in[0] != 0x10 || in[1] != 0 || in[n-1] != 0 {
		return errors.New("Document is corrupted")
	}
	k, err := strconv.Atoi(string(in[2 : n-1]))
	if err != nil || k < 0 || k >= len(encoded) {
		return errors.New("Document is corrupted")
	}
	v, _ := document(encoded[k])
	return Into(v.(map[string]interface{}), out)
}

// Into gives a document to the variable out points to.
func Into(d map[string]interface{}, out interface{}) error {
	switch p := out.(type) {
	case *map[string]interface{}:
		*p = d
	case *M:
		*p = M(d)
	case *interface{}:
		*p = M(d)
	case map[string]interface{}:
		for k, v := range d {
			p[k] = v
		}
	case M:
		for k, v := range d {
			p[k] = v
		}
	default:
		return errors.New("Unmarshal needs a map or a pointer to one")
	}
	return nil
}

// Package mac has the ideal models the symbolic runs use for the cryptography of signed values: a keyed hash
// under which two tags agree exactly if key and message do, and an encoding in place of base64 that is
// one-to-one and refuses foreign characters, as base64 does.
package mac

import (
	"encoding/base64"
	"hash"

	"github.com/wujiu2020/strip/zz_verif/sym"
)

const Replace = `
crypto/hmac.New = New
(*encoding/base64.Encoding).EncodeToString = encode
(*encoding/base64.Encoding).DecodeString = decode
`

type made struct {
	key, msg string
}

var all []made

type mac struct {
	size int
	key  string
	msg  []byte
}

func New(h func() hash.Hash, key []byte) hash.Hash {
	return &mac{h().Size(), string(key), nil}
}

func (m *mac) Write(b []byte) (int, error) {
	m.msg = append(m.msg, b...)
	return len(b), nil
}

func (m *mac) Sum(b []byte) []byte {
	id := -1
	msg := string(m.msg)
	for i, x := range all {
		if len(x.key) == len(m.key) && len(x.msg) == len(msg) && sym.And(x.key == m.key, x.msg == msg) {
			id = i
			break
		}
	}
	if id < 0 {
		id = len(all)
		all = append(all, made{m.key, msg})
	}
	for i := 0; i < m.size; i++ {
		b = append(b, byte(17*id+23*i+101))
	}
	return b
}

func (m *mac) Reset()         { m.msg = nil }
func (m *mac) Size() int      { return m.size }
func (m *mac) BlockSize() int { return 64 }

func encode(e *base64.Encoding, src []byte) string {
	b := make([]byte, 0, 2*len(src))
	for _, c := range src {
		b = append(b, 'A'+c>>4, 'A'+c&15)
	}
	return string(b)
}

func decode(e *base64.Encoding, s string) ([]byte, error) {
	b := make([]byte, 0, len(s)/2)
	for i := 0; i+1 < len(s); i += 2 {
		hi, lo := s[i]-'A', s[i+1]-'A'
		if sym.Or(hi > 15, lo > 15) {
			return b, base64.CorruptInputError(i)
		}
		b = append(b, hi<<4|lo)
	}
	if len(s)%2 != 0 {
		return b, base64.CorruptInputError(len(s) - 1)
	}
	return b, nil
}

package h

import (
	"encoding/base64"
	"strings"
	"time"

	"github.com/wujiu2020/strip/sessions"
	_ "github.com/wujiu2020/strip/zz_verif/mac"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:stubs gomemcache radix.v2 mgo
//sym:bounds a value of 1..2 characters signed at any of the first 99 nanoseconds; the attacker replaces value and time by any text of up to 5 (thorough 6) characters of the format's alphabet, and changes, inserts or takes away any one byte anywhere in the signed text (every position, every byte); another secret of up to 2 bytes; a second signed value whose signature is used; 9 other spellings of the signature
//sym:assume HMAC is unforgeable (ideal model: tags agree exactly if key and message do; tags of what was not signed cannot be guessed), base64 encodes one-to-one (ideal model); secrets do not differ by trailing NUL bytes only (HMAC pads keys with them)

const secret = "k3"

type signed struct {
	raw  string
	at   int64
	text string // what is encoded
	tag  string
}

func sign(l, alphabet string, n int) signed {
	s := signed{raw: sym.StringOf(l+"value", n, alphabet), at: int64(sym.Byte(l + "time"))}
	sym.Assume(s.at >= 1)
	sym.Assume(s.at <= 99)
	v, ok := sessions.EncodeSecureValue(s.raw, secret, time.Unix(0, s.at))
	sym.Assert(ok, "signed")
	b, err := base64.URLEncoding.DecodeString(v)
	sym.Assert(err == nil, "base64")
	s.text = string(b)
	s.tag = s.text[strings.LastIndex(s.text, ",")+1:]
	return s
}

// never checks that a text is taken for what was signed or not taken at all.
func (s signed) never(text, label string) {
	v := base64.URLEncoding.EncodeToString([]byte(text))
	raw, at, ok := sessions.DecodeSecureValue(v, secret)
	if !ok {
		sym.Cover(label + "-rejected")
		return
	}
	sym.Cover(label + "-accepted")
	sym.Assert(sym.And(raw == s.raw, at.UnixNano() == s.at), label+"-only-what-was-signed")
}

// Any value and time, with a signature that was made for another.
func H_fields() {
	s := sign("", "a1,", 1+sym.Choose("length", 2))
	n := 3 + sym.Choose("forged-length", sym.Bound(3, 4))
	s.never(sym.StringOf("forged", n, "ab12,% ")+","+s.tag, "fields")
}

// Any one byte changed, put in, or taken away, or the text cut.
func H_byte() {
	s := sign("", "a1", 1+sym.Choose("length", 2))
	at := sym.Choose("at", len(s.text))
	c := sym.String("byte", 1)
	text := ""
	switch sym.Choose("how", 4) {
	case 0:
		sym.Assume(c != s.text[at:at+1])
		text = s.text[:at] + c + s.text[at+1:]
	case 1:
		text = s.text[:at] + c + s.text[at:]
	case 2:
		text = s.text[:at] + s.text[at+1:]
	case 3:
		text = s.text[:at]
	}
	v := base64.URLEncoding.EncodeToString([]byte(text))
	raw, t, ok := sessions.DecodeSecureValue(v, secret)
	if !ok {
		sym.Cover("byte-rejected")
		return
	}
	// what may be accepted says the same, with the whole signature
	sym.Cover("byte-accepted")
	sym.Assert(sym.And(raw == s.raw, t.UnixNano() == s.at), "byte-only-what-was-signed")
	sym.Assert(strings.HasSuffix(strings.TrimSpace(text), ","+s.tag) || strings.TrimSpace(text[strings.LastIndex(text, ",")+1:]) == s.tag, "byte-signature-whole")
}

// Another secret.
func H_secret() {
	s := sign("", "a1", 1+sym.Choose("length", 2))
	n := sym.Choose("secret-length", 3)
	k := sym.String("secret", n)
	if n > 0 {
		sym.Assume(k[n-1] != 0)
	}
	v := base64.URLEncoding.EncodeToString([]byte(s.text))
	_, _, ok := sessions.DecodeSecureValue(v, k)
	sym.Assert(ok == (k == secret), "only-its-secret")
}

// The signature of one signed value under the value and time of another.
func H_swapped() {
	a, b := sign("a-", "a1,%", 1+sym.Choose("a-length", 2)), sign("b-", "a1,%", 1+sym.Choose("b-length", 2))
	text := a.text[:len(a.text)-len(a.tag)] + b.tag
	v := base64.URLEncoding.EncodeToString([]byte(text))
	_, _, ok := sessions.DecodeSecureValue(v, secret)
	sym.Assert(ok == sym.And(a.raw == b.raw, a.at == b.at), "swapped")
}

// No signature, or any short text in its place.
func H_unsigned() {
	s := sign("", "a1", 1)
	f := sym.StringOf("forged", sym.Choose("forged-length", 4), "a1, 0f%")
	s.never(s.text[:len(s.text)-len(s.tag)]+f, "unsigned")
	v := base64.URLEncoding.EncodeToString([]byte(s.text[:len(s.text)-len(s.tag)] + f))
	_, _, ok := sessions.DecodeSecureValue(v, secret)
	sym.Assert(!ok, "unsigned-rejected")
}

// Any text that is no encoding at all.
func H_garbage() {
	s := sym.String("text", sym.Choose("length", sym.Bound(4, 5)))
	_, _, ok := sessions.DecodeSecureValue(s, secret)
	sym.Assert(!ok, "garbage-rejected")
}

// The signature spelled in another way: letters of the other case, all or one of them, longer, shorter, repeated.
func H_spelled() {
	s := sign("", "a1", 1+sym.Choose("length", 2))
	t := s.tag
	switch sym.Choose("how", 9) {
	case 0:
		t = strings.ToUpper(t)
	case 1: // one letter, the first or the last
		b, last := []byte(t), sym.Choose("last", 2) == 1
		for i := range b {
			j := i
			if last {
				j = len(b) - 1 - i
			}
			if b[j] >= 'a' && b[j] <= 'z' {
				b[j] -= 'a' - 'A'
				break
			}
		}
		t = string(b)
	case 2:
		t = "0x" + t
	case 3:
		t = "0" + t
	case 4:
		t += "0"
	case 5:
		t += "00"
	case 6:
		t += t
	case 7:
		t = t[:len(t)-1]
	case 8:
		t = t[:len(t)-2]
	}
	sym.Assume(t != s.tag)
	v := base64.URLEncoding.EncodeToString([]byte(s.text[:len(s.text)-len(s.tag)] + t))
	_, _, ok := sessions.DecodeSecureValue(v, secret)
	sym.Assert(!ok, "altered-signature")
}

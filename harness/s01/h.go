package h

import (
	"time"

	"github.com/wujiu2020/strip/sessions"
	"github.com/wujiu2020/strip/zz_verif/hx"
	_ "github.com/wujiu2020/strip/zz_verif/mac"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:stubs gomemcache radix.v2 mgo
//sym:bounds every value of up to 3 (thorough 4) bytes, up to 4 (thorough 6) of the characters the format uses, every secret of up to 2 (thorough 3) bytes, every creation time of 1970..2262 to the nanosecond; values of up to 4097 (thorough 16385) bytes of the sizes next to powers of two and round numbers
//sym:assume HMAC is a function of key and message, base64 encodes one-to-one (ideal models of both)

// moment is any time after 1970 that nanoseconds in 64 bits can say.
func moment() time.Time {
	sec, n := sym.Int64("sec"), int64(sym.Uint32("nsec")>>2)
	sym.Assume(sec >= 0)
	sym.Assume(sec <= 9223372035)
	sym.Assume(n <= 999999999)
	sym.Assume(sym.Or(sec > 0, n > 0))
	return time.Unix(sec, n)
}

// Every value, with every secret and time.
func H_roundTrip() {
	raw := sym.String("raw", sym.Choose("raw-length", sym.Bound(4, 5)))
	secret := sym.String("secret", sym.Choose("secret-length", sym.Bound(3, 4)))
	at := moment()
	v, ok := sessions.EncodeSecureValue(raw, secret, at)
	sym.Assert(ok == (raw != "" && secret != ""), "encode-ok")
	if !ok {
		sym.Cover("refused")
		sym.Assert(v == "", "no-value")
		return
	}
	sym.Cover("encoded")
	got, t, ok := sessions.DecodeSecureValue(v, secret)
	sym.Assert(ok, "decodes")
	sym.Assert(got == raw, "value")
	sym.Assert(t.Equal(at), "time")
	sym.Assert(sessions.GetRawFromSecureValue(v) == raw, "raw-alone")
}

// Values with the characters the format and its escaping use.
func H_specials() {
	raw := sym.StringOf("raw", sym.Choose("raw-length", sym.Bound(5, 7)), ",|%+ 2C=")
	sym.Assume(raw != "")
	at := time.Unix(1795089600, 0)
	v, ok := sessions.EncodeSecureValue(raw, "secret", at)
	sym.Assert(ok, "encode-ok")
	got, t, ok := sessions.DecodeSecureValue(v, "secret")
	sym.Assert(ok && got == raw && t.Equal(at), "same")
	sym.Assert(sessions.GetRawFromSecureValue(v) == raw, "raw-alone")
}

// Long values and secrets.
func H_long() {
	raw := hx.Long("raw", sym.Bound(4097, 16385), ",|%+ 2C=\x00\xff")
	secret := "secret"
	if sym.Choose("longsecret", 2) == 1 {
		raw, secret = "raw", raw
	}
	at := time.Unix(1795089600, 123456789)
	v, ok := sessions.EncodeSecureValue(raw, secret, at)
	sym.Assert(ok, "encode-ok")
	got, t, ok := sessions.DecodeSecureValue(v, secret)
	sym.Assert(ok && got == raw && t.Equal(at), "same")
	sym.Assert(sessions.GetRawFromSecureValue(v) == raw, "raw-alone")
}

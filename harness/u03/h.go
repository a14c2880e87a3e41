package h

import (
	"bytes"

	"github.com/wujiu2020/strip/utils"
	"github.com/wujiu2020/strip/zz_verif/sym"
)

//sym:bounds alphabets of 2..62 characters for numbers, numbers of up to 3 (thorough 4) symbolic digits and 6 numbers of up to 40 digits; random texts of 0..6 characters over alphabets of 1..256 characters with every value of every random byte, and of 20000 characters for the characters that occur
//sym:assume crypto/rand returns any bytes; in the check that every character occurs, well mixed ones

func alphabet(n int) []byte {
	a := make([]byte, n)
	for i := range a {
		a[i] = byte(i*7 + 3) // distinct: 7 is odd
	}
	return a
}

// Numbers in an alphabet.
//
//sym:covers zero leading
func H_numbers() {
	var ab []byte
	switch sym.Choose("alphabet", 5) {
	case 0:
		ab = utils.HexAlphabets
	case 1:
		ab = utils.LowercaseAlphabets
	case 2:
		ab = utils.DefaultAlphabets
	case 3:
		ab = alphabet(2)
	case 4:
		ab = alphabet(10)
	}
	digits := 1 + sym.Choose("digits", sym.Bound(3, 5))
	text := sym.StringOf("number", digits, "0123456789")
	n := uint64(0)
	for i := 0; i < len(text); i++ {
		n = n*10 + uint64(text[i]-'0')
	}
	tok := utils.NumberEncode(text, ab)
	if n == 0 {
		sym.Cover("zero")
	}
	if text[0] == '0' {
		sym.Cover("leading")
	}
	// the number is read back from its text, so distinct numbers have distinct texts
	v := uint64(0)
	for i := len(tok) - 1; i >= 0; i-- {
		k, in := 0, false
		for j, c := range ab {
			k = sym.Ite(c == tok[i], j, k)
			in = sym.Or(in, c == tok[i])
		}
		sym.Assert(in, "in-alphabet")
		v = v*uint64(len(ab)) + uint64(k)
	}
	sym.Assert(v == n, "denotes-the-number")
	if len(tok) > 0 {
		sym.Assert(tok[len(tok)-1] != ab[0], "shortest")
	}
	if digits > sym.Bound(2, 3) {
		return
	}
	canon := text
	for len(canon) > 1 && canon[0] == '0' {
		canon = canon[1:]
	}
	sym.Assert(utils.NumberDecode(tok, ab) == canon, "decoded")
}

var big = []string{"18446744073709551616", "1763553600000000001", "1763553600000000000", "9999999999999999999999999999999999999999", "340282366920938463463374607431768211456", "9223372036854775807"}

// Long numbers.
func H_long() {
	s := big[sym.Choose("number", len(big))]
	ab := [][]byte{utils.HexAlphabets, utils.DefaultAlphabets, alphabet(2), alphabet(256)}[sym.Choose("alphabet", 4)]
	tok := utils.NumberEncode(s, ab)
	for i := 0; i < len(tok); i++ {
		sym.Assert(bytes.IndexByte(ab, tok[i]) >= 0, "in-alphabet")
	}
	sym.Assert(utils.NumberDecode(tok, ab) == s, "decoded")
	if &ab[0] == &utils.DefaultAlphabets[0] {
		sym.Assert(utils.DefaultNumberEncode(s) == tok, "default")
	}
}

// Random texts: for every random byte.
//
//sym:covers default
func H_random() {
	sym.AnyRandom()
	n := sym.Choose("n", 7)
	size := []int{0, 1, 2, 16, 36, 62, 64, 100, 128, 255, 256}[sym.Choose("alphabet", 11)]
	ab := alphabet(size)
	var s string
	var err error
	switch sym.Choose("func", 4) {
	case 0:
		s, err = utils.RandomCreateString(n, ab...)
	case 1:
		var b []byte
		b, err = utils.RandomCreateBytes(n, ab...)
		s = string(b)
	case 2:
		s = utils.MustRandomCreateString(n, ab...)
	case 3:
		s = string(utils.MustRandomCreateBytes(n, ab...))
	}
	if size == 0 {
		ab = utils.DefaultAlphabets
		sym.Cover("default")
	}
	sym.Assert(err == nil && len(s) == n, "length")
	for i := 0; i < len(s); i++ {
		in := false
		for _, c := range ab {
			in = sym.Or(in, c == s[i])
		}
		sym.Assert(in, "in-alphabet")
	}
	for i, c := range alphabet(size) {
		if size > 0 {
			sym.Assert(ab[i] == c, "alphabet-kept")
		}
	}
}

// Every character can occur.
func H_occur() {
	size := []int{0, 1, 2, 16, 62, 128, 200, 255, 256}[sym.Choose("alphabet", 9)]
	ab := alphabet(size)
	s := utils.MustRandomCreateString(20000, ab...)
	if size == 0 {
		ab = utils.DefaultAlphabets
	}
	for _, c := range ab {
		sym.Assert(bytes.IndexByte([]byte(s), c) >= 0, "occurs")
	}
	sym.Assert(size == 1 || utils.MustRandomCreateString(20000, ab...) != s, "random")
}

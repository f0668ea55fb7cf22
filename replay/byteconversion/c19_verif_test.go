package byteconversion

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
)

// the value of one field, nil when it is not well-formed; digit by digit, without big.Int.SetString
func c19field(s string) *big.Int {
	r := new(big.Int)
	neg := strings.HasPrefix(s, "-")
	if neg {
		s = s[1:]
		if s == "" {
			return nil
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return nil
		}
		r.Mul(r, big.NewInt(10))
		r.Add(r, big.NewInt(int64(s[i]-'0')))
	}
	if neg {
		r.Neg(r)
	}
	return r
}

func (v *vrun) c19(s string) {
	v.run(func() string { return fmt.Sprintf("%q", s) }, func() {
		in := []byte(s)
		var want []*big.Int
		for _, f := range strings.Split(s, ",") {
			x := c19field(f)
			if x == nil {
				want = nil
				break
			}
			want = append(want, x)
		}
		got, err := ParseInput(in)
		if string(in) != s {
			v.fail("ParseInput changed its argument")
		}
		if want == nil {
			if err == nil {
				v.fail("ParseInput accepts it: %v", got)
			}
			if got != nil {
				v.fail("ParseInput returns a list with the error: %v", got)
			}
		} else {
			if err != nil {
				v.fail("ParseInput refuses it: %v", err)
			}
			if len(got) != len(want) {
				v.fail("ParseInput returns %v, expected %v", got, want)
			}
			v.keep(fmt.Sprintf("the list read from %q", s), func() string { return fmt.Sprint(got) })
			for i := range want {
				if got[i] == nil || got[i].Cmp(want[i]) != 0 {
					v.fail("ParseInput returns %v, expected %v", got, want)
				}
			}
		}
		if strings.Contains(s, ",") {
			return
		}
		one, err := ConvertToBigInt(in)
		if string(in) != s {
			v.fail("ConvertToBigInt changed its argument")
		}
		if want == nil {
			if err == nil {
				v.fail("ConvertToBigInt accepts it: %v", one)
			}
		} else if err != nil || one == nil || one.Cmp(want[0]) != 0 {
			v.fail("ConvertToBigInt returns %v, %v, expected %v", one, err, want[0])
		}
	})
}

func TestVerifC19(t *testing.T) {
	v := vstart(t)
	al := []byte("019-+, _xe.\x00\xff")
	var all func(p []byte, n int)
	all = func(p []byte, n int) {
		v.c19(string(p))
		if n == 0 {
			return
		}
		for _, c := range al {
			all(append(append([]byte{}, p...), c), n-1)
		}
	}
	all(nil, 4)
	for c := 0; c < 256; c++ { // every byte in every position of a short list
		for _, s := range []string{"12", "-12", "1,2", "-1,-2", "", ",", "007,-0"} {
			for i := 0; i <= len(s); i++ {
				v.c19(s[:i] + string([]byte{byte(c)}) + s[i:])
			}
		}
	}
	for _, c := range "\u00a0\u0085\u066b\u0661\u0663\u06f4\u0967\uff11\uff10\uff0d\uff0c\u2212\u2013\u2460\u00b2\ufeff\u200b\u3000\U0001d7d9" {
		for _, s := range []string{"12", "-12", "1,2", "-1,-2", "", ",", "007,-0"} {
			for i := 0; i <= len(s); i++ {
				v.c19(s[:i] + string(c) + s[i:])
			}
		}
	}
	dig := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + v.r.Intn(10))
		}
		return string(b)
	}
	for first := true; first || v.more(); first = false {
		var f []string
		for i := v.r.Intn(12); i >= 0; i-- {
			s := dig([]int{0, 1, 2, 18, 19, 20, 21, 40, 300}[v.r.Intn(9)])
			if v.r.Intn(3) == 0 && s != "" {
				s = "-" + s
			}
			if v.r.Intn(60) == 0 {
				k := v.r.Intn(len(s) + 1)
				s = s[:k] + string(al[v.r.Intn(len(al))]) + s[k:]
			}
			f = append(f, s)
		}
		v.c19(strings.Join(f, ","))
	}
	v.done()
}

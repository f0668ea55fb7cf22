package util

import (
	"fmt"
	"math/big"
	"testing"
)

func TestVerifC20(t *testing.T) {
	v := vstart(t)
	for v.more() {
		var u int64
		switch v.r.Intn(5) {
		case 0:
			u = 2
		case 1:
			u = int64(2 + v.r.Intn(60))
		case 2:
			u = int64(1)<<uint(1+v.r.Intn(62)) + int64(v.r.Intn(3)) - 1
			if u < 2 {
				u = 2
			}
		case 3:
			u = (1<<63 - 1) - int64(v.r.Intn(3))
		default:
			u = 2 + v.r.Int63n(1<<62)
		}
		l := int64(v.r.Intn(40))
		ul := new(big.Int).Exp(big.NewInt(u), big.NewInt(l), nil)
		x := v.scalar(ul)
		x0 := new(big.Int).Set(x)
		v.run(func() string { return fmt.Sprintf("Decompose x=%v u=%d l=%d", x0, u, l) }, func() {
			r, err := Decompose(x, u, l)
			if err != nil || int64(len(r)) != l {
				v.fail("got %v, %v", r, err)
			}
			v.keep(fmt.Sprintf("the digits of %v in base %d", x0, u), func() string { return fmt.Sprint(r) })
			s, w := new(big.Int), big.NewInt(1)
			for i := range r {
				if r[i] < 0 || r[i] >= u {
					v.fail("digit %d is %d", i, r[i])
				}
				s.Add(s, new(big.Int).Mul(big.NewInt(r[i]), w))
				w.Mul(w, big.NewInt(u))
			}
			if s.Cmp(new(big.Int).Mod(x0, ul)) != 0 {
				v.fail("digits %v sum to %v", r, s)
			}
			if x.Cmp(x0) != 0 {
				v.fail("argument changed to %v", x)
			}
		})
	}
	v.done()
}

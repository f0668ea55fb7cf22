package bulletproofs

import (
	"fmt"
	"math/big"
	"testing"
)

func TestVerifC02(t *testing.T) {
	v := vstart(t)
	for i := 0; v.more() || i < 30; i++ {
		n := v.vn()
		if i < 30 {
			n = vsizes[i/4%6]
		}
		top := new(big.Int).Lsh(big.NewInt(1), uint(n))
		var s *big.Int
		k := i % 4
		if i >= 24 && i < 30 {
			n, k = vsizes[i-24], 7
		}
		if i >= 30 {
			k = v.r.Intn(12)
		}
		switch k {
		case 0:
			s = big.NewInt(-1)
		case 1:
			s = new(big.Int).Set(top)
		case 2:
			s = new(big.Int).Neg(v.num(top))
			s.Sub(s, big.NewInt(1))
		case 3:
			s = new(big.Int).Add(top, v.num(top))
		case 4:
			s = new(big.Int).Lsh(big.NewInt(1), uint(int(n)+v.r.Intn(255-int(n))))
		case 5:
			s = new(big.Int).Mul(top, big.NewInt(int64(1+v.r.Intn(1000))))
			s.Add(s, v.num(top))
		case 6:
			s = new(big.Int).Neg(top)
			s.Add(s, v.num(top))
		case 7, 8: // inside the range in a machine word only
			s = new(big.Int).Lsh(big.NewInt(1+v.r.Int63n(1<<20)), []uint{31, 32, 63, 64, 96, 128, 192}[v.r.Intn(7)])
			if v.r.Intn(3) == 0 {
				s.Neg(s)
			}
			s.Add(s, v.num(top))
		default:
			s = new(big.Int).Rand(v.r, new(big.Int).Rsh(oN, 1))
			if v.r.Intn(2) == 0 {
				s.Neg(s)
			}
		}
		if s.Sign() >= 0 && s.Cmp(top) < 0 {
			continue
		}
		v.run(func() string { return fmt.Sprintf("range [0,2^%d) secret %v", n, s) }, func() {
			p, err := Prove(cbig(s), v.vsetup(n))
			if err != nil {
				return
			}
			if ok, _ := p.Verify(); ok {
				v.fail("the proof is accepted")
			}
		})
	}
	v.done()
}

package bulletproofs

import (
	"fmt"
	"math/big"
	"testing"
)

func TestVerifC03(t *testing.T) {
	v := vstart(t)
	wide := func(a, b int64) {
		v.run(func() string { return fmt.Sprintf("SetupGeneric(%d, %d)", a, b) }, func() {
			if _, err := SetupGeneric(a, b); err == nil {
				v.fail("a range wider than 2^32 is set up")
			}
		})
	}
	const w = int64(1) << 32
	const top = int64(^uint64(0) >> 1)
	wide(0, w+1)
	// the widths at which a proof of another size would do
	for _, e := range []uint{1, 2, 4, 8, 16} {
		for j := int64(-1); j < 2; j++ {
			a := int64(v.r.Intn(2000) - 1000)
			b := a + int64(1)<<e + j
			s := a + v.r.Int63n(b-a)
			v.c03(a, b, big.NewInt(s), true)
		}
	}
	wide(-w, 1)
	wide(-top-1, top)
	wide(-top-1, 0)
	wide(-1, top)
	wide(top-w-1, top)
	wide(-top-1, -top+w)
	for i := 0; i < 40; i++ {
		a := v.r.Int63() - v.r.Int63()
		d := w + 1 + v.r.Int63n(1<<uint(1+v.r.Intn(60)))
		if a+d > a {
			wide(a, a+d)
		}
	}
	for i := 0; v.more() || i < 13; i++ {
		a := int64(v.r.Intn(2000) - 1000)
		if v.r.Intn(3) == 0 {
			a = v.r.Int63() - v.r.Int63()
		}
		var d int64
		switch {
		case i%6 == 0:
			d = 1
		case i%6 == 1:
			d = w
		case i%6 == 2:
			d = w - 1 - int64(v.r.Intn(3))
		case i%3 == 1: // powers of two, the sizes of other range proofs first
			k := v.r.Intn(33)
			if v.r.Intn(3) != 0 {
				k = []int{16, 8, 4, 2, 1, 31}[(i/3)%6]
			}
			d = int64(1)<<uint(k) + int64(v.r.Intn(8)-2)/5
		default:
			d = 1 + v.r.Int63n(1<<uint(1+v.r.Intn(32)))
		}
		if d < 1 {
			d = 1
		}
		if a+d < a {
			continue
		}
		b := a + d
		switch i { // the two ends of the machine word
		case 0:
			a, b, d = top-w, top, w
		case 1:
			a, b, d = -top-1, -top-1+w, w
		case 2:
			a = -top - 1 + int64(v.r.Intn(2))
			b = a + d
		case 3:
			b = top - int64(v.r.Intn(2))
			a = b - d
		}
		A, B := big.NewInt(a), big.NewInt(b)
		var s *big.Int
		switch (i + v.r.Intn(3)) % 9 {
		case 0:
			s = new(big.Int).Sub(A, big.NewInt(1))
		case 1:
			s = A
		case 2:
			s = new(big.Int).Sub(B, big.NewInt(1))
		case 3:
			s = B
		case 4:
			s = new(big.Int).Add(A, big.NewInt(v.r.Int63n(d)))
		case 5:
			s = new(big.Int).Add(B, big.NewInt(v.r.Int63n(1<<uint(1+v.r.Intn(40)))))
		case 6, 7: // inside the range in a machine word only
			s = new(big.Int).Add(A, big.NewInt(v.r.Int63n(d)))
			k := new(big.Int).Lsh(big.NewInt(1+v.r.Int63n(1<<20)), []uint{32, 33, 63, 64, 65, 96, 128, 192}[v.r.Intn(8)])
			if i >= 6 && v.r.Intn(3) == 0 {
				k.Neg(k)
			} else if i < 6 {
				k.Lsh(big.NewInt(1+v.r.Int63n(1<<20)), 64)
			}
			s.Add(s, k)
		default:
			s = new(big.Int).Sub(A, big.NewInt(1+v.r.Int63n(1<<uint(1+v.r.Intn(40)))))
		}
		v.c03(a, b, s, s.Cmp(A) >= 0 && s.Cmp(B) < 0)
	}
	v.done()
}

func (v *vrun) c03(a, b int64, s *big.Int, in bool) {
	v.run(func() string { return fmt.Sprintf("range [%d,%d) secret %v", a, b, s) }, func() {
		par, err := SetupGeneric(a, b)
		if err != nil {
			v.fail("SetupGeneric: %v", err)
		}
		var p ProofBPRP
		v.biased(func() { p, err = ProveGeneric(cbig(s), par) })
		if err != nil {
			if in {
				v.fail("ProveGeneric: %v", err)
			}
			return
		}
		if ok, _ := p.Verify(); ok != in {
			v.fail("verdict %v", ok)
		}
	})
}

package bulletproofs

import (
	"fmt"
	"math/big"
	"testing"
)

func TestVerifC01(t *testing.T) {
	v := vstart(t)
	for i := 0; v.more() || i < 6; i++ {
		n := v.vn()
		if i < 6 {
			n = vsizes[i]
		}
		s := v.inside(n)
		v.run(func() string { return fmt.Sprintf("range [0,2^%d) secret %v", n, s) }, func() { v.c01(n, s) })
	}
	v.done()
}

func (v *vrun) c01(n int64, s *big.Int) {
	par := v.vsetup(n)
	var p BulletProof
	var err error
	var rec *vreader
	v.biased(func() { rec = vrecord(func() { p, err = Prove(cbig(s), par) }) })
	if err != nil {
		v.fail("Prove: %v", err)
	}
	ok, err := p.Verify()
	if !ok || err != nil {
		v.fail("the proof is rejected (%v)", err)
	}
	if r, a, b, c := overify(&p); !r {
		v.fail("the proof does not satisfy the equations: (65) %v (67) %v inner product %v", a, b, c)
	}
	H := oof(par.H)
	V, gs := oof(p.V), oG.mul(s)
	found := false
	for _, d := range rec.draws() {
		if gs.add(H.mul(d)).eq(V) {
			found = true
			break
		}
	}
	if !found {
		v.fail("V is not g^secret h^gamma for any gamma drawn")
	}
}

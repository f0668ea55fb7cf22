package bbsignatures

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"
)

func g1(k *big.Int) *bn256.G1 {
	return new(bn256.G1).ScalarBaseMult(new(big.Int).Mod(k, bn256.Order))
}

func (v *vrun) mess() *big.Int {
	m := v.scalar(bn256.Order)
	if m.BitLen() > 300 {
		m.Rsh(m, uint(m.BitLen()-300))
	}
	return m
}

func TestVerifC10(t *testing.T) {
	v := vstart(t)
	bits := 0
	keys := map[string]bool{}
	for i := 0; i < 24; i++ {
		v.run(func() string { return fmt.Sprintf("Keygen, call %d", i) }, func() {
			kp, e := Keygen()
			if e != nil || kp.Privk == nil || kp.Pubk == nil {
				v.fail("error %v", e)
			}
			if kp.Privk.Sign() < 0 || kp.Privk.Cmp(bn256.Order) >= 0 {
				v.fail("private key %v outside the scalar field", kp.Privk)
			}
			if keys[kp.Privk.String()] {
				v.fail("private key %v a second time", kp.Privk)
			}
			keys[kp.Privk.String()] = true
			if kp.Privk.BitLen() > bits {
				bits = kp.Privk.BitLen()
			}
			if !bytes.Equal(kp.Pubk.Marshal(), g1(kp.Privk).Marshal()) {
				v.fail("public key does not belong to the private key %v", kp.Privk)
			}
		})
	}
	v.run(func() string { return "Keygen, 24 calls" }, func() {
		if bits < 250 {
			v.fail("no private key has more than %d bits", bits)
		}
	})
	for v.more() {
		v.c10()
	}
	v.done()
}

func (v *vrun) c10() {
	m, k := v.mess(), v.num(bn256.Order)
	switch v.r.Intn(6) {
	case 0: // m + k = 1 mod the order
		m.Sub(big.NewInt(1), k)
	case 1: // a multiple of the order above it
		m.Add(m, bn256.Order)
	case 2:
		m.SetInt64(int64(v.r.Intn(100)))
	case 3:
		m.Lsh(big.NewInt(1), uint(v.r.Intn(130)))
		if v.r.Intn(2) == 0 {
			m.Neg(m)
		}
	}
	s := new(big.Int).Add(m, k)
	s.Mod(s, bn256.Order)
	ctx := func(n string) func() string {
		return func() string { return fmt.Sprintf("%s m=%v privk=%v", n, m, k) }
	}
	v.run(ctx("Sign"), func() {
		mm, kk := new(big.Int).Set(m), new(big.Int).Set(k)
		sig, e := Sign(mm, kk)
		if mm.Cmp(m) != 0 || kk.Cmp(k) != 0 {
			v.fail("an argument was changed")
		}
		if s.Sign() == 0 {
			if e == nil {
				v.fail("no error although m + privk = 0")
			}
			return
		}
		if e != nil || sig == nil {
			v.fail("error %v", e)
		}
		want := new(bn256.G2).ScalarBaseMult(new(big.Int).ModInverse(s, bn256.Order))
		if !bytes.Equal(sig.Marshal(), want.Marshal()) {
			v.fail("not the signature 1/(m + privk)")
		}
		check := func(what string, ok bool, sig *bn256.G2, m *big.Int, y *bn256.G1) {
			before := y.String() + sig.String() + m.String()
			r, e := verify(sig, m, y)
			if e != nil || r != ok {
				v.fail("verify with %s: %v %v, want %v", what, r, e, ok)
			}
			if y.String()+sig.String()+m.String() != before {
				v.fail("verify with %s changed an argument", what)
			}
			if v.r.Intn(3) == 0 {
				if r, _ := verify(sig, m, y); r != ok {
					v.fail("second verify with %s: %v, want %v", what, r, ok)
				}
			}
		}
		y := g1(k)
		check("the message and key", true, sig, m, y)
		switch v.r.Intn(9) {
		case 8:
			check("infinity as signature", false, new(bn256.G2).SetInfinity(), m, y)
		case 0:
			check("m + order", true, sig, new(big.Int).Add(m, bn256.Order), y)
		case 1:
			check("m + 1", false, sig, new(big.Int).Add(m, big.NewInt(1)), y)
		case 2:
			m2 := new(big.Int).Add(m, new(big.Int).Lsh(big.NewInt(1), uint(1+v.r.Intn(250))))
			check(fmt.Sprint("message ", m2), false, sig, m2, y)
		case 3:
			m2 := new(big.Int).Neg(m)
			same := new(big.Int).Mod(new(big.Int).Sub(m2, m), bn256.Order).Sign() == 0
			check("-m", same, sig, m2, y)
		case 4:
			check("the key privk + 1", false, sig, m, g1(new(big.Int).Add(k, big.NewInt(1))))
		case 5:
			check("the opposite signature", false, new(bn256.G2).Neg(sig), m, y)
		case 6:
			check("another signature", false, new(bn256.G2).ScalarMult(sig, big.NewInt(int64(2+v.r.Intn(5)))), m, y)
		case 7: // only m + privk counts
			d := v.num(bn256.Order)
			check(fmt.Sprint("both shifted by ", d), true, sig, new(big.Int).Add(m, d), g1(new(big.Int).Sub(k, d)))
		}
	})
}

package p256

import (
	"fmt"
	"math/big"
	"testing"
)

func TestVerifC11(t *testing.T) {
	v := vstart(t)
	if CURVE.P.Cmp(oP) != 0 || CURVE.N.Cmp(oN) != 0 || CURVE.Gx.Cmp(oGx) != 0 || CURVE.Gy.Cmp(oGy) != 0 || CURVE.B.Cmp(big.NewInt(7)) != 0 {
		v.fail("curve parameters")
	}
	for v.more() {
		v.c11()
	}
	v.done()
}

func (v *vrun) c11() {
	k, l := v.logs()
	s := v.scalar(oN)
	A, B := oG.mul(k), oG.mul(l)
	al := v.r.Intn(5)
	name, share := "", v.r.Intn(5)
	mk := func() (e, a, b *P256) {
		e, a, b = v.rep(oG.mul(big.NewInt(5))), v.rep(A), v.rep(B)
		switch al {
		case 1:
			e = a
		case 2:
			e = b
		case 3:
			b = a
		case 4:
			e, b = a, a
		}
		if share == 1 && e != a && e != b { // the receiver shares its coordinates with an operand, as after x.Multiply(infinity, y)
			e.X, e.Y = a.X, a.Y
		} else if share == 2 && e != a && e != b {
			e.X, e.Y = b.X, b.Y
		}
		return
	}
	ctx := func() string {
		return fmt.Sprintf("P256 %s a=g^%v b=g^%v s=%v aliasing=%d sharing=%d", name, k, l, s, al, share)
	}
	Be := B
	if al >= 3 {
		Be = A
	}
	check := func(r, e, a, b *P256, want *opt) {
		if r != e {
			v.fail("the result is not the receiver")
		}
		if !want.is(r) {
			v.fail("got (%v,%v), want %v", r.X, r.Y, want)
		}
		if a != e && !A.is(a) {
			v.fail("operand a changed")
		}
		if b != e && !Be.is(b) {
			v.fail("operand b changed")
		}
	}
	two := func(n string, f func(e, a, b *P256) *P256, want func() *opt) {
		name = n
		v.run(ctx, func() {
			e, a, b := mk()
			check(f(e, a, b), e, a, b, want())
		})
	}
	two("Multiply", func(e, a, b *P256) *P256 { return e.Multiply(a, b) }, func() *opt { return A.add(Be) })
	if A.x == nil || Be.x == nil || A.x.Cmp(Be.x) != 0 || A.y.Cmp(Be.y) != 0 {
		two("Add", func(e, a, b *P256) *P256 { return e.Add(a, b) }, func() *opt { return A.add(Be) })
	}
	if al == 0 || al == 1 {
		two("Double", func(e, a, b *P256) *P256 { return e.Double(a) }, func() *opt { return A.add(A) })
		two("Neg", func(e, a, b *P256) *P256 { return e.Neg(a) }, func() *opt { return A.neg() })
		two("ScalarMult", func(e, a, b *P256) *P256 {
			s0 := new(big.Int).Set(s)
			r := e.ScalarMult(a, s)
			if s.Cmp(s0) != 0 {
				v.fail("the scalar changed")
			}
			return r
		}, func() *opt { return A.mul(s) })
		two("ScalarBaseMult", func(e, a, b *P256) *P256 {
			if al == 1 {
				a = v.rep(A)
			}
			r := v.rep(A).ScalarBaseMult(s)
			*e = *r
			return e
		}, func() *opt { return oG.mul(s) })
		name = "IsZero"
		v.run(ctx, func() {
			if v.rep(A).IsZero() != (A.x == nil) {
				v.fail("IsZero")
			}
			if !v.rep(A).SetInfinity().IsZero() {
				v.fail("SetInfinity")
			}
		})
	}
}

package bn256

import (
	"fmt"
	"math/big"
	"testing"
)

// the pairing from its definition: the ate function evaluated with affine lines in binary, then one power
func oate(P, Q apt) pol {
	if P.inf || Q.inf {
		return polc(1)
	}
	line := func(A, B apt) pol {
		var l pol
		if A.equal(B) {
			l = A.x.mul(A.x).scale(big.NewInt(3)).mul(oinv(A.y.add(A.y)))
		} else {
			l = B.y.sub(A.y).mul(oinv(B.x.sub(A.x)))
		}
		return P.y.sub(l.mul(P.x).shift(1)).add(l.mul(A.x).sub(A.y).shift(3))
	}
	u, _ := new(big.Int).SetString("4965661367192848881", 10)
	n := new(big.Int).Add(new(big.Int).Mul(u, big.NewInt(6)), big.NewInt(2))
	f, T := polc(1), Q
	for i := n.BitLen() - 2; i >= 0; i-- {
		f = f.mul(f).mul(line(T, T))
		T = T.add(T)
		if n.Bit(i) == 1 {
			f = f.mul(line(T, Q))
			T = T.add(Q)
		}
	}
	// the Frobenius of the untwisted point, brought back to the twist
	frob := func(A apt) apt {
		xi := pol2(&gfP2{big.NewInt(1), big.NewInt(9)})
		e := new(big.Int).Sub(oP, big.NewInt(1))
		conj := func(a pol) pol { x, y := uncoef(a); return pol2(&gfP2{new(big.Int).Neg(x), y}) }
		return apt{false, conj(A.x).mul(xi.pow(new(big.Int).Div(e, big.NewInt(3)))), conj(A.y).mul(xi.pow(new(big.Int).Div(e, big.NewInt(2))))}
	}
	Q1 := frob(Q)
	Q2 := frob(Q1).neg()
	f = f.mul(line(T, Q1))
	T = T.add(Q1)
	f = f.mul(line(T, Q2))
	return f.pow(oFE)
}

var oFE = func() *big.Int {
	e := new(big.Int).Exp(oP, big.NewInt(12), nil)
	return e.Div(e.Sub(e, big.NewInt(1)), oR)
}()

func (v *vrun) lg() *big.Int {
	switch v.r.Intn(5) {
	case 0:
		return big.NewInt(int64(v.r.Intn(4)))
	case 1:
		return new(big.Int).Sub(oR, big.NewInt(int64(v.r.Intn(3))))
	}
	return new(big.Int).Rand(v.r, oR)
}

func TestVerifC16(t *testing.T) {
	v := vstart(t)
	E := oate(oG1, oG2)
	for first := true; first || v.more(); first = false {
		v.c16pair(E)
		v.c16check()
		v.c16gt(E)
		v.c16final()
	}
	v.done()
}

// a point in any representation the package produces, negated ones included
func (v *vrun) el1(k *big.Int) *G1 {
	switch v.r.Intn(4) {
	case 0:
		n := new(G1).ScalarBaseMult(new(big.Int).Mod(new(big.Int).Neg(k), oR))
		if v.r.Intn(2) == 0 {
			n.Marshal()
		}
		return new(G1).Neg(n)
	case 1:
		e, ok := new(G1).Unmarshal(new(G1).ScalarBaseMult(k).Marshal())
		if ok {
			return e
		}
	}
	return &G1{v.jac1(oG1.mul(k))}
}

func (v *vrun) el2(k *big.Int) *G2 {
	switch v.r.Intn(4) {
	case 0:
		n := new(G2).ScalarBaseMult(new(big.Int).Mod(new(big.Int).Neg(k), oR))
		if v.r.Intn(2) == 0 {
			n.Marshal()
		}
		return new(G2).Neg(n)
	case 1:
		e, ok := new(G2).Unmarshal(new(G2).ScalarBaseMult(k).Marshal())
		if ok {
			return e
		}
	}
	return &G2{v.jac2(oG2.mul(k))}
}

func (v *vrun) c16pair(E pol) {
	k, l := v.lg(), v.lg()
	a, b := v.el1(k), v.el2(l)
	ra, rb := vals(parts1(a.p)), vals(parts2(b.p))
	v.run(func() string { return fmt.Sprintf("Pair of g1^%v (%v) and g2^%v (%v)", k, ra, l, rb) }, func() {
		e := Pair(a, b)
		x := new(big.Int).Mul(k, l)
		if want := E.pow(x.Mod(x, oR)); !pol12(e.p).equal(want) {
			v.fail("result %v, want %v", pol12(e.p), want)
		}
		v.keep(fmt.Sprintf("the pairing of g1^%v and g2^%v", k, l), func() string { return fmt.Sprint(pol12(e.p)) })
		// the same coordinates, another point
		x.Sub(oR, x)
		if got := Pair(&G1{v.jac1(oG1.mul(k).neg())}, b); !pol12(got.p).equal(E.pow(x.Mod(x, oR))) {
			v.fail("then the pairing with the opposite first point is %v", pol12(got.p))
		}
		if got := Pair(a, &G2{v.jac2(oG2.mul(l).neg())}); !pol12(got.p).equal(E.pow(x)) {
			v.fail("then the pairing with the opposite second point is %v", pol12(got.p))
		}
		if !aff1(a.p).equal(oG1.mul(k)) || !aff2(b.p).equal(oG2.mul(l)) {
			v.fail("an operand changed")
		}
	})
}

func (v *vrun) c16check() {
	n := v.r.Intn(4)
	if v.r.Intn(6) == 0 {
		n = 4 + v.r.Intn(30)
	}
	var a []*G1
	var b []*G2
	var ks, ls []*big.Int
	s := new(big.Int)
	for i := 0; i < n; i++ {
		k, l := v.lg(), v.lg()
		if i == n-1 && v.r.Intn(2) == 0 { // make the product one
			l = new(big.Int).Rand(v.r, oR)
			if l.Sign() == 0 {
				l.SetInt64(1)
			}
			k = new(big.Int).Neg(s)
			k.Mul(k, new(big.Int).ModInverse(l, oR))
			k.Mod(k, oR)
		}
		s.Add(s, new(big.Int).Mul(k, l))
		ks, ls = append(ks, k), append(ls, l)
		a, b = append(a, v.el1(k)), append(b, v.el2(l))
	}
	v.run(func() string { return fmt.Sprintf("PairingCheck of g1^%v, g2^%v", ks, ls) }, func() {
		got := PairingCheck(a, b)
		if want := s.Mod(s, oR).Sign() == 0; got != want {
			v.fail("gives %v", got)
		}
	})
}

func (v *vrun) unpol(a pol) *gfP12 {
	f := func(k int) *gfP2 { // coefficient of w^k and w^(k+6)
		x := new(big.Int).Set(a[k+6])
		y := new(big.Int).Add(a[k], new(big.Int).Mul(x, big.NewInt(9)))
		return &gfP2{v.rep(x), v.rep(y.Mod(y, oP))}
	}
	return &gfP12{&gfP6{f(5), f(3), f(1)}, &gfP6{f(4), f(2), f(0)}}
}

func (v *vrun) c16gt(E pol) {
	k, l := v.lg(), v.lg()
	s := v.scalar(oR)
	if s.BitLen() > 270 {
		s.Rsh(s, uint(s.BitLen()-270))
	}
	al := v.r.Intn(5)
	pk, plain := E.pow(k), E.pow(l)
	mk := func() (e, a, b *GT) {
		e, a, b = &GT{v.gf12()}, &GT{v.unpol(pk)}, &GT{v.unpol(plain)}
		switch al {
		case 1:
			e = a
		case 2:
			e = b
		case 3:
			e = new(GT)
		case 4:
			e, b = a, a
		}
		return
	}
	ll := l
	if al == 4 {
		ll = k
	}
	test := func(n string, f func(e, a, b *GT) *GT, w *big.Int) {
		e, a, b := mk()
		sc := s.String()
		v.run(func() string { return fmt.Sprintf("GT.%s a=E^%v b=E^%v s=%v aliasing=%d", n, k, ll, sc, al) }, func() {
			r := f(e, a, b)
			if want := E.pow(new(big.Int).Mod(w, oR)); r != e || !pol12(e.p).equal(want) {
				v.fail("result is wrong")
			}
			if a != e && !pol12(a.p).equal(pk) || b != e && !pol12(b.p).equal(E.pow(ll)) || s.String() != sc {
				v.fail("an operand changed")
			}
			if e != a {
				for _, x := range partsF12(e.p) {
					for _, y := range append(partsF12(a.p), s) {
						if x == y {
							v.fail("the result shares a number with an operand")
						}
					}
				}
			}
		})
	}
	test("Add", func(e, a, b *GT) *GT { return e.Add(a, b) }, new(big.Int).Add(k, ll))
	test("Neg", func(e, a, b *GT) *GT { return e.Neg(a) }, new(big.Int).Neg(k))
	test("Invert", func(e, a, b *GT) *GT { return e.Invert(a) }, new(big.Int).Neg(k))
	test("ScalarMult", func(e, a, b *GT) *GT { return e.ScalarMult(a, s) }, new(big.Int).Mul(k, s))
	test("Exp", func(e, a, b *GT) *GT { return e.Exp(a, s) }, new(big.Int).Mul(k, s))
	_, a, _ := mk()
	v.run(func() string { return fmt.Sprintf("GT.IsOne of E^%v", k) }, func() {
		if a.IsOne() != (k.Sign() == 0 || k.Cmp(oR) == 0) {
			v.fail("gives %v", a.IsOne())
		}
	})
}

func (v *vrun) c16final() {
	a := v.gf12()
	p := pol12(a)
	if p.zero() {
		return
	}
	in := vals(partsF12(a))
	pool := v.pool()
	v.run(func() string { return fmt.Sprintf("finalExponentiation of %v", in) }, func() {
		r := finalExponentiation(a, pool)
		if !pol12(r).equal(p.pow(oFE)) {
			v.fail("result is wrong")
		}
		if !eqs16(in, vals(partsF12(a))) {
			v.fail("the operand changed")
		}
		v.clean(pool, "operand or result", append(partsF12(r), partsF12(a)...)...)
	})
}

func eqs16(a, b []string) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

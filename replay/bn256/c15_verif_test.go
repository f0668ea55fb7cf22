package bn256

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"testing"
)

func eqs(a, b interface{}) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

// points with a known discrete logarithm, in any representation
func (v *vrun) log() *big.Int {
	switch v.r.Intn(5) {
	case 0:
		return big.NewInt(int64(v.r.Intn(4)))
	case 1:
		return new(big.Int).Sub(oR, big.NewInt(int64(v.r.Intn(3))))
	}
	return new(big.Int).Rand(v.r, oR)
}

func (v *vrun) pair() (k, l *big.Int) {
	k = v.log()
	switch v.r.Intn(4) {
	case 0:
		l = new(big.Int).Set(k)
	case 1:
		l = new(big.Int).Mod(new(big.Int).Neg(k), oR)
	default:
		l = v.log()
	}
	return
}

// a source of bytes: some numbers, then noise, then perhaps an end
type c15source struct {
	v     *vrun
	first []byte
	left  int
}

func (r *c15source) Read(p []byte) (int, error) {
	n := 0
	for n < len(p) && r.left > 0 {
		if len(r.first) > 0 {
			p[n], r.first = r.first[0], r.first[1:]
		} else {
			p[n] = byte(r.v.r.Intn(256))
		}
		n++
		r.left--
	}
	if n < len(p) {
		return n, io.ErrUnexpectedEOF
	}
	return n, nil
}

func (v *vrun) c15random() {
	if v.r.Intn(4) != 0 {
		return
	}
	src := &c15source{v, nil, []int{10, 33, 4000, 4000, 4000}[v.r.Intn(5)]}
	for v.r.Intn(2) == 0 {
		x := big.NewInt(int64(v.r.Intn(2)))
		if v.r.Intn(2) == 0 {
			x.Sub(oR, big.NewInt(int64(v.r.Intn(3))))
		}
		src.first = append(src.first, x.FillBytes(make([]byte, 32))...)
	}
	what := fmt.Sprintf("random element from a source of %d bytes that begins with %x", src.left, src.first)
	v.run(func() string { return what }, func() {
		var k *big.Int
		var err error
		var ok bool
		if v.r.Intn(2) == 0 {
			var g *G1
			k, g, err = RandomG1(src)
			ok = err != nil || aff1(g.p).equal(oG1.mul(k))
		} else {
			var g *G2
			k, g, err = RandomG2(src)
			ok = err != nil || aff2(g.p).equal(oG2.mul(k))
		}
		if err == nil && (k.Sign() <= 0 || k.Cmp(oR) >= 0) {
			v.fail("exponent %s", k)
		}
		if !ok {
			v.fail("the element is not the generator to the returned exponent")
		}
	})
}

func TestVerifC15(t *testing.T) {
	v := vstart(t)
	for v.more() {
		v.c15g1()
		v.c15g2()
		v.c15random()
	}
	v.done()
}

// alias chooses which operands share storage: 0 none, 1 e=a, 2 e=b, 3 a=b, 4 all
func (v *vrun) c15g1() {
	k, l := v.pair()
	s := v.scalar(oR)
	if s.BitLen() > 258 && v.r.Intn(3) > 0 {
		s.Rsh(s, uint(s.BitLen()-258))
	}
	P, Q := oG1.mul(k), oG1.mul(l)
	al := v.r.Intn(5)
	ctx := func(n string) func() string {
		return func() string { return fmt.Sprintf("G1 %s a=g^%v b=g^%v s=%v aliasing=%d", n, k, l, s, al) }
	}
	mk := func() (e, a, b *curvePoint) {
		e, a, b = v.jac1(oG1.mul(big.NewInt(5))), v.jac1(P), v.jac1(Q)
		if v.r.Intn(2) == 0 {
			a.z.SetInt64(1)
			a = v.jac1(P)
		}
		switch al {
		case 1:
			e = a
		case 2:
			e = b
		case 3:
			b = a
		case 4:
			e, b = a, a
		}
		return
	}
	Qe := Q
	if al >= 3 {
		Qe = P
	}
	done := func(want apt, e, a, b *curvePoint, sa, sb []string, pool *bnPool) {
		if got := aff1(e); !got.equal(want) {
			v.fail("result %v, want %v", got, want)
		}
		if a != e && !eqs(sa, vals(parts1(a)[:3])) || b != e && !eqs(sb, vals(parts1(b)[:3])) {
			v.fail("operand changed")
		}
		v.clean(pool, "operand or result", append(append(parts1(e), parts1(a)...), parts1(b)...)...)
	}
	e, a, b := mk()
	sa, sb, pool := vals(parts1(a)[:3]), vals(parts1(b)[:3]), v.pool()
	v.run(ctx("curvePoint.Add"), func() { e.Add(a, b, pool); done(P.add(Qe), e, a, b, sa, sb, pool) })
	e, a, b = mk()
	sa, sb, pool = vals(parts1(a)[:3]), vals(parts1(b)[:3]), v.pool()
	v.run(ctx("curvePoint.Double"), func() {
		e.Double(a, pool)
		done(P.add(P), e, a, b, sa, sb, pool)
	})
	e, a, b = mk()
	sa, sb = vals(parts1(a)[:3]), vals(parts1(b)[:3])
	v.run(ctx("curvePoint.Negative"), func() { e.Negative(a); done(P.neg(), e, a, b, sa, sb, nil) })
	e, a, b = mk()
	sa, sb, pool = vals(parts1(a)[:3]), vals(parts1(b)[:3]), v.pool()
	v.run(ctx("curvePoint.Mul"), func() {
		sc := new(big.Int).Abs(s)
		e.Mul(a, sc, pool)
		done(P.mul(new(big.Int).Abs(s)), e, a, b, sa, sb, pool)
	})
	e, a, b = mk()
	v.run(ctx("curvePoint.MakeAffine"), func() {
		a.MakeAffine(v.pool())
		if !aff1(a).equal(P) || !(a.z.Sign() == 0 || a.z.Cmp(big.NewInt(1)) == 0) {
			v.fail("got %v", vals(parts1(a)))
		}
	})
	e, a, b = mk()
	a.MakeAffine(nil)
	v.run(ctx("curvePoint.IsOnCurve"), func() {
		if !P.inf && !a.IsOnCurve() {
			v.fail("a point of the curve is rejected")
		}
		c := &curvePoint{v.num(oP), v.num(oP), big.NewInt(1), big.NewInt(1)}
		x := fpol(c.x)
		if c.IsOnCurve() != fpol(c.y).mul(fpol(c.y)).equal(x.mul(x).mul(x).add(polc(3))) {
			v.fail("IsOnCurve(%v)", vals(parts1(c)))
		}
	})
	// the exported operations
	e, a, b = mk()
	ge, ga, gb := &G1{e}, &G1{a}, &G1{b}
	if v.r.Intn(3) == 0 && al == 0 {
		ge = new(G1)
	}
	sa, sb = vals(parts1(a)[:3]), vals(parts1(b)[:3])
	which := v.r.Intn(4)
	ss := s.String()
	v.run(ctx(fmt.Sprintf("exported operation %d (0 Add 1 Neg 2 ScalarMult 3 ScalarBaseMult)", which)), func() {
		var w apt
		var r *G1
		switch which {
		case 0:
			r, w = ge.Add(ga, gb), P.add(Qe)
		case 1:
			r, w = ge.Neg(ga), P.neg()
		case 2:
			r, w = ge.ScalarMult(ga, s), P.mul(s)
		case 3:
			r, w = ge.ScalarBaseMult(s), oG1.mul(s)
		}
		if r != ge || s.String() != ss {
			v.fail("receiver not returned or scalar changed")
		}
		if ge.IsZero() != w.inf {
			v.fail("IsZero=%v", ge.IsZero())
		}
		if which == 3 && (al == 1 || al == 4) {
			sa, sb = vals(parts1(a)[:3]), vals(parts1(b)[:3])
		}
		done(w, ge.p, a, b, sa, sb, nil)
		o := &G1{v.jac1(w)}
		if o.String() != r.String() || !bytes.Equal(o.Marshal(), r.Marshal()) {
			v.fail("equal elements print or marshal differently: %s %s", o.String(), r.String())
		}
		if !aff1(r.p).equal(w) {
			v.fail("printing changed the element")
		}
	})
}

func (v *vrun) c15g2() {
	k, l := v.pair()
	s := v.scalar(oR)
	if s.BitLen() > 258 && v.r.Intn(3) > 0 {
		s.Rsh(s, uint(s.BitLen()-258))
	}
	P, Q := oG2.mul(k), oG2.mul(l)
	al := v.r.Intn(5)
	ctx := func(n string) func() string {
		return func() string { return fmt.Sprintf("G2 %s a=g^%v b=g^%v s=%v aliasing=%d", n, k, l, s, al) }
	}
	mk := func() (e, a, b *twistPoint) {
		e, a, b = v.jac2(oG2), v.jac2(P), v.jac2(Q)
		switch al {
		case 1:
			e = a
		case 2:
			e = b
		case 3:
			b = a
		case 4:
			e, b = a, a
		}
		return
	}
	Qe := Q
	if al >= 3 {
		Qe = P
	}
	done := func(want apt, e, a, b *twistPoint, sa, sb []string, pool *bnPool) {
		if got := aff2(e); !got.equal(want) {
			v.fail("result %v, want %v", got, want)
		}
		if a != e && !eqs(sa, vals(parts2(a)[:6])) || b != e && !eqs(sb, vals(parts2(b)[:6])) {
			v.fail("operand changed")
		}
		v.clean(pool, "operand or result", append(append(parts2(e), parts2(a)...), parts2(b)...)...)
	}
	e, a, b := mk()
	sa, sb, pool := vals(parts2(a)[:6]), vals(parts2(b)[:6]), v.pool()
	v.run(ctx("twistPoint.Add"), func() { e.Add(a, b, pool); done(P.add(Qe), e, a, b, sa, sb, pool) })
	e, a, b = mk()
	sa, sb, pool = vals(parts2(a)[:6]), vals(parts2(b)[:6]), v.pool()
	v.run(ctx("twistPoint.Double"), func() { e.Double(a, pool); done(P.add(P), e, a, b, sa, sb, pool) })
	e, a, b = mk()
	sa, sb, pool = vals(parts2(a)[:6]), vals(parts2(b)[:6]), v.pool()
	v.run(ctx("twistPoint.Negative"), func() { e.Negative(a, pool); done(P.neg(), e, a, b, sa, sb, pool) })
	e, a, b = mk()
	v.run(ctx("twistPoint.MakeAffine"), func() {
		a.MakeAffine(v.pool())
		if !aff2(a).equal(P) || !(pol2(a.z).zero() || pol2(a.z).equal(polc(1))) {
			v.fail("got %v", vals(parts2(a)))
		}
	})
	e, a, b = mk()
	a.MakeAffine(nil)
	v.run(ctx("twistPoint.IsOnCurve"), func() {
		if !P.inf && !a.IsOnCurve() {
			v.fail("a point of the curve is rejected")
		}
		a.x.x.Add(a.x.x, big.NewInt(1))
		if !P.inf && a.IsOnCurve() {
			v.fail("a point off the curve is accepted")
		}
	})
	e, a, b = mk()
	ge, ga, gb := &G2{e}, &G2{a}, &G2{b}
	if v.r.Intn(3) == 0 && al == 0 {
		ge = new(G2)
	}
	sa, sb = vals(parts2(a)[:6]), vals(parts2(b)[:6])
	which := v.r.Intn(4)
	ss := s.String()
	v.run(ctx(fmt.Sprintf("exported operation %d (0 Add 1 Neg 2 ScalarMult 3 ScalarBaseMult)", which)), func() {
		var w apt
		var r *G2
		switch which {
		case 0:
			r, w = ge.Add(ga, gb), P.add(Qe)
		case 1:
			r, w = ge.Neg(ga), P.neg()
		case 2:
			r, w = ge.ScalarMult(ga, s), P.mul(s)
		case 3:
			r, w = ge.ScalarBaseMult(s), oG2.mul(s)
		}
		if r != ge || s.String() != ss {
			v.fail("receiver not returned or scalar changed")
		}
		if ge.IsZero() != w.inf {
			v.fail("IsZero=%v", ge.IsZero())
		}
		if which == 3 && (al == 1 || al == 4) {
			sa, sb = vals(parts2(a)[:6]), vals(parts2(b)[:6])
		}
		done(w, ge.p, a, b, sa, sb, nil)
		o := &G2{v.jac2(w)}
		if o.String() != r.String() || !bytes.Equal(o.Marshal(), r.Marshal()) {
			v.fail("equal elements print or marshal differently: %s %s", o.String(), r.String())
		}
		if !aff2(r.p).equal(w) {
			v.fail("printing changed the element")
		}
	})
}

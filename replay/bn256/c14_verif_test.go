package bn256

import (
	"fmt"
	"math/big"
	"testing"
)

type elt struct {
	val   func() pol
	parts func() []*big.Int
}

var oXi = func() pol { return polc(1).shift(6) }() // i+9 = w^6

func frob(a pol) pol { return a.pow(oP) }
func conj12(a pol) pol { // a^(p^6): w -> -w
	r := polc(0)
	for i := range a {
		r[i] = new(big.Int).Set(a[i])
		if i%2 == 1 {
			r[i].Neg(r[i])
		}
	}
	return r.scale(big.NewInt(1))
}

var w2F = [6]pol{}

// a^(p^2) is linear: w -> w^(p^2)
func frob2(a pol) pol {
	if w2F[1][0] == nil {
		g := polc(0)
		g[1].SetInt64(1)
		g = frob(frob(g))
		w2F[0] = polc(1)
		for i := 1; i < 6; i++ {
			w2F[i] = w2F[i-1].mul(g)
		}
	}
	r := polc(0)
	for i := 0; i < 6; i++ {
		c := polc(0) // the coefficient of w^i, in Fp2 = span(1, w^6)
		c[0].Set(a[i])
		c[6].Set(a[i+6])
		r = r.add(c.mul(w2F[i]))
	}
	return r
}

// a^p is linear too: i -> -i, w -> w^p
var w1F = [6]pol{}

func frob1(a pol) pol {
	if w1F[1][0] == nil {
		g := polc(0)
		g[1].SetInt64(1)
		g = frob(g)
		w1F[0] = polc(1)
		for i := 1; i < 6; i++ {
			w1F[i] = w1F[i-1].mul(g)
		}
	}
	r := polc(0)
	for i := 0; i < 6; i++ {
		c := polc(0) // a[i] + a[i+6] (i+9) -> a[i] + a[i+6] (9-i) = a[i] + 18 a[i+6] - a[i+6] w^6
		c[0].Add(a[i], new(big.Int).Mul(a[i+6], big.NewInt(18)))
		c[6].Neg(a[i+6])
		r = r.add(c.mul(w1F[i]))
	}
	return r
}

func red(xs []*big.Int) bool {
	for _, x := range xs {
		if x.Sign() < 0 || x.Cmp(oP) >= 0 {
			return false
		}
	}
	return true
}

func TestVerifC14(t *testing.T) {
	v := vstart(t)
	for v.more() {
		v.c14gf2()
		v.c14gf6()
		v.c14gf12()
	}
	v.done()
}

// check compares the result with the expected value and the untouched operands
func (v *vrun) check(got, want pol, changed []string, pool *bnPool, parts ...[]*big.Int) {
	if !got.equal(want) {
		v.fail("result %v, want %v", got, want)
	}
	if len(changed) > 0 {
		v.fail("operand changed: %v", changed)
	}
	var all []*big.Int
	for _, p := range parts {
		all = append(all, p...)
	}
	v.clean(pool, "operand or result", all...)
}

func (v *vrun) c14gf2() {
	type op struct {
		n string
		k int // operands
		f func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2
		w func(a, b pol, s *big.Int) pol
		r bool // reduced result
	}
	ops := []op{
		{"Set", 1, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { return e.Set(a) }, func(a, b pol, s *big.Int) pol { return a }, false},
		{"Add", 2, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { return e.Add(a, b) }, func(a, b pol, s *big.Int) pol { return a.add(b) }, false},
		{"Sub", 2, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { return e.Sub(a, b) }, func(a, b pol, s *big.Int) pol { return a.sub(b) }, false},
		{"Double", 1, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { return e.Double(a) }, func(a, b pol, s *big.Int) pol { return a.add(a) }, false},
		{"Negative", 1, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { return e.Negative(a) }, func(a, b pol, s *big.Int) pol { return a.neg() }, false},
		{"Conjugate", 1, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { return e.Conjugate(a) }, func(a, b pol, s *big.Int) pol { return frob1(a) }, false},
		{"Mul", 2, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { return e.Mul(a, b, p) }, func(a, b pol, s *big.Int) pol { return a.mul(b) }, true},
		{"MulScalar", 1, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { return e.MulScalar(a, s) }, func(a, b pol, s *big.Int) pol { return a.scale(s) }, false},
		{"MulXi", 1, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { return e.MulXi(a, p) }, func(a, b pol, s *big.Int) pol { return a.mul(oXi) }, false},
		{"Square", 1, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { return e.Square(a, p) }, func(a, b pol, s *big.Int) pol { return a.mul(a) }, true},
		{"Invert", 1, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { return e.Invert(a, p) }, func(a, b pol, s *big.Int) pol { return oinv(a) }, true},
		{"Exp", 1, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { return e.Exp(a, s, p) }, func(a, b pol, s *big.Int) pol { return a.pow(s) }, false},
		{"Minimal", 0, func(e, a, b *gfP2, s *big.Int, p *bnPool) *gfP2 { e.Minimal(); return e }, nil, true},
	}
	for _, o := range ops {
		e, a, b, s, p := v.gf2(), v.gf2(), v.gf2(), v.scalar(oP), v.pool()
		if o.n == "Exp" {
			s.Abs(s)
		}
		al := v.r.Intn(4)
		switch al {
		case 1:
			e = a
		case 2:
			e = b
		case 3:
			b = a
			if v.r.Intn(2) == 0 {
				e = a
			}
		}
		if o.n == "Exp" && al == 1 {
			e = v.gf2()
		}
		if o.n == "Invert" && pol2(a).zero() {
			continue
		}
		pa, pb, sa, sb, ss := pol2(a), pol2(b), vals(partsF2(a)), vals(partsF2(b)), s.String()
		pe := pol2(e)
		v.run(func() string {
			return fmt.Sprintf("gfP2.%s a=%v b=%v s=%s aliasing=%d pool=%v", o.n, sa, sb, ss, al, p != nil)
		}, func() {
			r := o.f(e, a, b, s, p)
			want := pe
			if o.w != nil {
				want = o.w(pa, pb, s)
			}
			if r != e {
				v.fail("does not return its receiver")
			}
			var ch []string
			if o.k > 0 && a != e && fmt.Sprint(vals(partsF2(a))) != fmt.Sprint(sa) {
				ch = append(ch, "a")
			}
			if o.k > 1 && b != e && fmt.Sprint(vals(partsF2(b))) != fmt.Sprint(sb) {
				ch = append(ch, "b")
			}
			if s.String() != ss {
				ch = append(ch, "scalar")
			}
			v.check(pol2(e), want, ch, p, partsF2(e), partsF2(a), partsF2(b), []*big.Int{s})
			if o.r && !red(partsF2(e)) {
				v.fail("coefficients not reduced: %v", vals(partsF2(e)))
			}
			if e != a && e != b && e.x == a.x {
				v.fail("result shares storage with the operand")
			}
		})
	}
	a := &gfP2{v.num(oP), v.num(oP)}
	if v.r.Intn(2) == 0 {
		a = &gfP2{big.NewInt(int64(v.r.Intn(2))), big.NewInt(int64(v.r.Intn(3)))}
	}
	v.run(func() string { return fmt.Sprintf("gfP2 recognition of %v", vals(partsF2(a))) }, func() {
		if a.IsZero() != pol2(a).zero() || a.IsOne() != pol2(a).equal(polc(1)) {
			v.fail("IsZero=%v IsOne=%v", a.IsZero(), a.IsOne())
		}
		b := v.gf2()
		if !pol2(b.SetOne()).equal(polc(1)) || !pol2(b.SetZero()).zero() {
			v.fail("SetOne or SetZero")
		}
	})
}

func (v *vrun) c14gf6() {
	type op struct {
		n string
		k int
		f func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6
		w func(a, b, s pol, g *big.Int) pol
	}
	ops := []op{
		{"Set", 1, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { return e.Set(a) }, func(a, b, s pol, g *big.Int) pol { return a }},
		{"Add", 2, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { return e.Add(a, b) }, func(a, b, s pol, g *big.Int) pol { return a.add(b) }},
		{"Sub", 2, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { return e.Sub(a, b) }, func(a, b, s pol, g *big.Int) pol { return a.sub(b) }},
		{"Double", 1, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { return e.Double(a) }, func(a, b, s pol, g *big.Int) pol { return a.add(a) }},
		{"Negative", 1, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { return e.Negative(a) }, func(a, b, s pol, g *big.Int) pol { return a.neg() }},
		{"Frobenius", 1, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { return e.Frobenius(a, p) }, func(a, b, s pol, g *big.Int) pol { return frob1(a) }},
		{"FrobeniusP2", 1, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { return e.FrobeniusP2(a) }, func(a, b, s pol, g *big.Int) pol { return frob2(a) }},
		{"Mul", 2, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { return e.Mul(a, b, p) }, func(a, b, s pol, g *big.Int) pol { return a.mul(b) }},
		{"MulScalar", 1, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { return e.MulScalar(a, s, p) }, func(a, b, s pol, g *big.Int) pol { return a.mul(s) }},
		{"MulGFP", 1, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { return e.MulGFP(a, g) }, func(a, b, s pol, g *big.Int) pol { return a.scale(g) }},
		{"MulTau", 1, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { e.MulTau(a, p); return e }, func(a, b, s pol, g *big.Int) pol { return a.shift(2) }},
		{"Square", 1, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { return e.Square(a, p) }, func(a, b, s pol, g *big.Int) pol { return a.mul(a) }},
		{"Invert", 1, func(e, a, b *gfP6, s *gfP2, g *big.Int, p *bnPool) *gfP6 { return e.Invert(a, p) }, nil},
	}
	for _, o := range ops {
		e, a, b, s, g, p := v.gf6(), v.gf6(), v.gf6(), v.gf2(), v.scalar(oP), v.pool()
		al := v.r.Intn(4)
		switch al {
		case 1:
			e = a
		case 2:
			e = b
		case 3:
			b = a
			if v.r.Intn(2) == 0 {
				e = a
			}
		}
		if o.n == "Invert" && pol6(a).zero() {
			continue
		}
		pa, pb, sa, sb := pol6(a), pol6(b), vals(partsF6(a)), vals(partsF6(b))
		v.run(func() string { return fmt.Sprintf("gfP6.%s a=%v b=%v aliasing=%d pool=%v", o.n, sa, sb, al, p != nil) }, func() {
			r := o.f(e, a, b, s, g, p)
			if r != e {
				v.fail("does not return its receiver")
			}
			var ch []string
			if a != e && fmt.Sprint(vals(partsF6(a))) != fmt.Sprint(sa) {
				ch = append(ch, "a")
			}
			if o.k > 1 && b != e && fmt.Sprint(vals(partsF6(b))) != fmt.Sprint(sb) {
				ch = append(ch, "b")
			}
			got, want := pol6(e), polc(1)
			if o.w != nil {
				want = o.w(pa, pb, pol2(s), g)
			} else {
				got = got.mul(pa)
			}
			v.check(got, want, ch, p, partsF6(e), partsF6(a), partsF6(b))
		})
	}
	a := v.gf6()
	v.run(func() string { return fmt.Sprintf("gfP6 recognition of %v", vals(partsF6(a))) }, func() {
		if v.r.Intn(2) == 0 {
			a.SetZero()
		} else if v.r.Intn(2) == 0 {
			a.SetOne()
		}
		p := pol6(a)
		a.Minimal()
		if !pol6(a).equal(p) || !red(partsF6(a)) {
			v.fail("Minimal")
		}
		if a.IsZero() != p.zero() || a.IsOne() != p.equal(polc(1)) {
			v.fail("IsZero=%v IsOne=%v", a.IsZero(), a.IsOne())
		}
	})
}

func (v *vrun) c14gf12() {
	type op struct {
		n string
		k int
		f func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12
		w func(a, b, s pol, g *big.Int) pol
	}
	ops := []op{
		{"Set", 1, func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12 { return e.Set(a) }, func(a, b, s pol, g *big.Int) pol { return a }},
		{"Add", 2, func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12 { return e.Add(a, b) }, func(a, b, s pol, g *big.Int) pol { return a.add(b) }},
		{"Sub", 2, func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12 { return e.Sub(a, b) }, func(a, b, s pol, g *big.Int) pol { return a.sub(b) }},
		{"Negative", 1, func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12 { return e.Negative(a) }, func(a, b, s pol, g *big.Int) pol { return a.neg() }},
		{"Conjugate", 1, func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12 { return e.Conjugate(a) }, func(a, b, s pol, g *big.Int) pol { return conj12(a) }},
		{"Frobenius", 1, func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12 { return e.Frobenius(a, p) }, func(a, b, s pol, g *big.Int) pol { return frob1(a) }},
		{"FrobeniusP2", 1, func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12 { return e.FrobeniusP2(a, p) }, func(a, b, s pol, g *big.Int) pol { return frob2(a) }},
		{"Mul", 2, func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12 { return e.Mul(a, b, p) }, func(a, b, s pol, g *big.Int) pol { return a.mul(b) }},
		{"MulScalar", 1, func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12 { return e.MulScalar(a, s, p) }, func(a, b, s pol, g *big.Int) pol { return a.mul(s) }},
		{"Square", 1, func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12 { return e.Square(a, p) }, func(a, b, s pol, g *big.Int) pol { return a.mul(a) }},
		{"Invert", 1, func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12 { return e.Invert(a, p) }, nil},
		{"Exp", 1, func(e, a, b *gfP12, s *gfP6, g *big.Int, p *bnPool) *gfP12 { return e.Exp(a, g, p) }, func(a, b, s pol, g *big.Int) pol { return a.pow(g) }},
	}
	for _, o := range ops {
		e, a, b, s, g, p := v.gf12(), v.gf12(), v.gf12(), v.gf6(), v.scalar(oP), v.pool()
		if o.n == "Exp" {
			g.Abs(g)
			g.Rsh(g, uint(v.r.Intn(g.BitLen()+1)))
		}
		al := v.r.Intn(4)
		switch al {
		case 1:
			e = a
		case 2:
			e = b
		case 3:
			b = a
			if v.r.Intn(2) == 0 {
				e = a
			}
		}
		if o.n == "Invert" && pol12(a).zero() {
			continue
		}
		pa, pb, sa, sb := pol12(a), pol12(b), vals(partsF12(a)), vals(partsF12(b))
		v.run(func() string {
			return fmt.Sprintf("gfP12.%s a=%v b=%v g=%v aliasing=%d pool=%v", o.n, sa, sb, g, al, p != nil)
		}, func() {
			r := o.f(e, a, b, s, g, p)
			if r != e {
				v.fail("does not return its receiver")
			}
			var ch []string
			if a != e && fmt.Sprint(vals(partsF12(a))) != fmt.Sprint(sa) {
				ch = append(ch, "a")
			}
			if o.k > 1 && b != e && fmt.Sprint(vals(partsF12(b))) != fmt.Sprint(sb) {
				ch = append(ch, "b")
			}
			got, want := pol12(e), polc(1)
			if o.w != nil {
				want = o.w(pa, pb, pol6(s), g)
			} else {
				got = got.mul(pa)
			}
			v.check(got, want, ch, p, partsF12(e), partsF12(a), partsF12(b))
		})
	}
	a := v.gf12()
	v.run(func() string { return fmt.Sprintf("gfP12 recognition of %v", vals(partsF12(a))) }, func() {
		if v.r.Intn(2) == 0 {
			a.SetZero()
		} else if v.r.Intn(2) == 0 {
			a.SetOne()
		}
		p := pol12(a)
		a.Minimal()
		if !pol12(a).equal(p) || !red(partsF12(a)) {
			v.fail("Minimal")
		}
		if a.IsZero() != p.zero() || a.IsOne() != p.equal(polc(1)) {
			v.fail("IsZero=%v IsOne=%v", a.IsZero(), a.IsOne())
		}
	})
}

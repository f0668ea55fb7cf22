package bn256

import (
	"fmt"
	"math/big"
	"testing"
)

// every operation that takes a pool is run without a pool and with one that holds recycled numbers with
// arbitrary contents; both results must agree, and afterwards the pool must hold every number once and none
// that a result or operand uses

type c21op struct {
	name string
	// arguments and the call; the parts of the results come first
	f func(v *vrun, pool *bnPool) (res, args []*big.Int, same func() []string)
}

func filthy(v *vrun, n int) *bnPool {
	p := new(bnPool)
	for ; n > 0; n-- {
		if v.r.Intn(4) == 0 || n < 20 {
			p.Put(v.scalar(oP))
		} else {
			p.Put(big.NewInt(int64(n)))
		}
	}
	return p
}

func (v *vrun) poolCheck(what string, pool *bnPool, res, args []*big.Int) {
	seen := map[*big.Int]bool{}
	all := append(append([]*big.Int{}, res...), args...)
	for _, c := range []*gfP2{xiToPMinus1Over6, xiToPMinus1Over3, xiToPMinus1Over2, xiTo2PMinus2Over3} {
		all = append(all, c.x, c.y)
	}
	all = append(all, P, Order, u, xiToPSquaredMinus1Over3, xiTo2PSquaredMinus2Over3, xiToPSquaredMinus1Over6)
	all = append(all, parts1(curveGen)...)
	all = append(all, parts2(twistGen)...)
	all = append(all, curveB)
	all = append(all, partsF2(twistB)...)
	before := vals(all)
	used := map[*big.Int]string{}
	for _, x := range all {
		used[x] = "value " + x.String()
	}
	var got []*big.Int
	for i := 2200; i > 0; i-- {
		b := pool.Get()
		if b == nil {
			v.fail("%s: the pool hands out nil", what)
		}
		if seen[b] {
			v.fail("%s: a number is in the pool twice", what)
		}
		seen[b] = true
		got = append(got, b)
		if x := used[b]; x != "" {
			v.fail("%s: a number in use (%s) was recycled", what, x)
		}
	}
	for _, b := range got {
		b.SetInt64(-123456789)
	}
	if fmt.Sprint(vals(all)) != fmt.Sprint(before) {
		v.fail("%s: writing to recycled numbers changes a value in use", what)
	}
}

func mulT(a *gfP6) string { return pol6(a).String() }

func (v *vrun) c21ops() []c21op {
	var ops []c21op
	add := func(name string, f func(v *vrun, pool *bnPool) (res, args []*big.Int, same func() []string)) {
		ops = append(ops, c21op{name, f})
	}
	add2 := func(name string, f func(r, a, b *gfP2, pool *bnPool)) {
		for al := 0; al < 4; al++ {
			al := al
			a0, b0 := v.gf2(), v.gf2()
			if zeroish(a0.String()) {
				a0.SetOne() // zero has no inverse
			}
			add(fmt.Sprintf("gfP2.%s/%d(%v,%v)", name, al, a0, b0), func(v *vrun, pool *bnPool) ([]*big.Int, []*big.Int, func() []string) {
				a, b := newGFp2(nil).Set(a0), newGFp2(nil).Set(b0)
				r := &gfP2{big.NewInt(5), big.NewInt(6)}
				if al == 1 {
					r = a
				} else if al == 2 {
					r = b
				} else if al == 3 {
					b = a
				}
				f(r, a, b, pool)
				return partsF2(r), append(partsF2(a), partsF2(b)...), func() []string { return []string{pol2(r).String(), pol2(a).String(), pol2(b).String()} }
			})
		}
	}
	add2("Mul", func(r, a, b *gfP2, pool *bnPool) { r.Mul(a, b, pool) })
	add2("Square", func(r, a, b *gfP2, pool *bnPool) { r.Square(a, pool) })
	add2("Invert", func(r, a, b *gfP2, pool *bnPool) { r.Invert(a, pool) })
	add2("MulXi", func(r, a, b *gfP2, pool *bnPool) { r.MulXi(a, pool) })
	e := new(big.Int).Abs(v.scalar(oR))
	add2("Exp", func(r, a, b *gfP2, pool *bnPool) { r.Exp(a, e, pool) })

	add6 := func(name string, f func(r, a, b *gfP6, c *gfP2, pool *bnPool)) {
		for al := 0; al < 4; al++ {
			al := al
			a0, b0, c0 := v.gf6(), v.gf6(), v.gf2()
			if zeroish(a0.String()) {
				a0.SetOne() // zero has no inverse
			}
			add(fmt.Sprintf("gfP6.%s/%d", name, al), func(v *vrun, pool *bnPool) ([]*big.Int, []*big.Int, func() []string) {
				a, b, c := newGFp6(nil).Set(a0), newGFp6(nil).Set(b0), newGFp2(nil).Set(c0)
				r := newGFp6(nil).Set(b0)
				if al == 1 {
					r = a
				} else if al == 2 {
					r = b
				} else if al == 3 {
					b = a
				}
				f(r, a, b, c, pool)
				return partsF6(r), append(append(partsF6(a), partsF6(b)...), partsF2(c)...), func() []string {
					return []string{pol6(r).String(), pol6(a).String(), pol6(b).String(), pol2(c).String()}
				}
			})
		}
	}
	add6("Mul", func(r, a, b *gfP6, c *gfP2, pool *bnPool) { r.Mul(a, b, pool) })
	add6("Square", func(r, a, b *gfP6, c *gfP2, pool *bnPool) { r.Square(a, pool) })
	add6("Invert", func(r, a, b *gfP6, c *gfP2, pool *bnPool) { r.Invert(a, pool) })
	add6("MulTau", func(r, a, b *gfP6, c *gfP2, pool *bnPool) { r.MulTau(a, pool) })
	add6("MulScalar", func(r, a, b *gfP6, c *gfP2, pool *bnPool) { r.MulScalar(a, c, pool) })
	add6("Frobenius", func(r, a, b *gfP6, c *gfP2, pool *bnPool) { r.Frobenius(a, pool) })

	add12 := func(name string, f func(r, a, b *gfP12, c *gfP6, pool *bnPool)) {
		for al := 0; al < 4; al++ {
			al := al
			a0, b0, c0 := v.gf12(), v.gf12(), v.gf6()
			if zeroish(a0.String()) {
				a0.SetOne() // zero has no inverse
			}
			add(fmt.Sprintf("gfP12.%s/%d", name, al), func(v *vrun, pool *bnPool) ([]*big.Int, []*big.Int, func() []string) {
				a, b, c := newGFp12(nil).Set(a0), newGFp12(nil).Set(b0), newGFp6(nil).Set(c0)
				r := newGFp12(nil).Set(b0)
				if al == 1 {
					r = a
				} else if al == 2 {
					r = b
				} else if al == 3 {
					b = a
				}
				f(r, a, b, c, pool)
				return partsF12(r), append(append(partsF12(a), partsF12(b)...), partsF6(c)...), func() []string {
					return []string{pol12(r).String(), pol12(a).String(), pol12(b).String(), pol6(c).String()}
				}
			})
		}
	}
	add12("Mul", func(r, a, b *gfP12, c *gfP6, pool *bnPool) { r.Mul(a, b, pool) })
	add12("Square", func(r, a, b *gfP12, c *gfP6, pool *bnPool) { r.Square(a, pool) })
	add12("Invert", func(r, a, b *gfP12, c *gfP6, pool *bnPool) { r.Invert(a, pool) })
	add12("Frobenius", func(r, a, b *gfP12, c *gfP6, pool *bnPool) { r.Frobenius(a, pool) })
	add12("FrobeniusP2", func(r, a, b *gfP12, c *gfP6, pool *bnPool) { r.FrobeniusP2(a, pool) })
	add12("MulScalar", func(r, a, b *gfP12, c *gfP6, pool *bnPool) { r.MulScalar(a, c, pool) })
	e2 := big.NewInt(int64(v.r.Intn(1000)))
	add12("Exp", func(r, a, b *gfP12, c *gfP6, pool *bnPool) { r.Exp(a, e2, pool) })
	add12("finalExponentiation", func(r, a, b *gfP12, c *gfP6, pool *bnPool) { r.Set(finalExponentiation(a, pool)) })

	pt1 := func() *curvePoint { return v.jac1(oG1.mul(big.NewInt(int64(v.r.Intn(5) - 1)))) }
	pt2 := func() *twistPoint { return v.jac2(oG2.mul(big.NewInt(int64(v.r.Intn(5) - 1)))) }
	add1 := func(name string, f func(r, a, b *curvePoint, pool *bnPool)) {
		for al := 0; al < 4; al++ {
			al := al
			a0, b0 := pt1(), pt1()
			add(fmt.Sprintf("curvePoint.%s/%d(%v,%v)", name, al, aff1(a0), aff1(b0)), func(v *vrun, pool *bnPool) ([]*big.Int, []*big.Int, func() []string) {
				a, b, r := cp1(a0), cp1(b0), newCurvePoint(pool)
				if al == 1 {
					r = a
				} else if al == 2 {
					r = b
				} else if al == 3 {
					b = a
				}
				f(r, a, b, pool)
				return parts1(r), append(parts1(a), parts1(b)...), func() []string { return []string{aff1(r).String(), aff1(a).String(), aff1(b).String()} }
			})
		}
	}
	k := v.scalar(oR)
	k.Abs(k)
	k.Mod(k, oR)
	add1("Add", func(r, a, b *curvePoint, pool *bnPool) { r.Add(a, b, pool) })
	add1("Double", func(r, a, b *curvePoint, pool *bnPool) { r.Double(a, pool) })
	add1("Mul", func(r, a, b *curvePoint, pool *bnPool) { r.Mul(a, k, pool) })
	add1("MakeAffine", func(r, a, b *curvePoint, pool *bnPool) { r.Set(a); r.MakeAffine(pool) })
	addT := func(name string, f func(r, a, b *twistPoint, pool *bnPool)) {
		for al := 0; al < 4; al++ {
			al := al
			a0, b0 := pt2(), pt2()
			add(fmt.Sprintf("twistPoint.%s/%d(%v,%v)", name, al, aff2(a0), aff2(b0)), func(v *vrun, pool *bnPool) ([]*big.Int, []*big.Int, func() []string) {
				a, b, r := cp2(a0), cp2(b0), newTwistPoint(pool)
				if al == 1 {
					r = a
				} else if al == 2 {
					r = b
				} else if al == 3 {
					b = a
				}
				f(r, a, b, pool)
				return parts2(r), append(parts2(a), parts2(b)...), func() []string { return []string{aff2(r).String(), aff2(a).String(), aff2(b).String()} }
			})
		}
	}
	addT("Add", func(r, a, b *twistPoint, pool *bnPool) { r.Add(a, b, pool) })
	addT("Double", func(r, a, b *twistPoint, pool *bnPool) { r.Double(a, pool) })
	addT("Mul", func(r, a, b *twistPoint, pool *bnPool) { r.Mul(a, k, pool) })
	addT("MakeAffine", func(r, a, b *twistPoint, pool *bnPool) { r.Set(a); r.MakeAffine(pool) })
	addT("Negative", func(r, a, b *twistPoint, pool *bnPool) { r.Negative(a, pool) })

	// pairing: affine operands
	p0 := v.jac1(oG1.mul(big.NewInt(int64(1 + v.r.Intn(5)))))
	q0 := v.jac2(oG2.mul(big.NewInt(int64(1 + v.r.Intn(5)))))
	r0 := v.jac2(oG2.mul(big.NewInt(int64(6 + v.r.Intn(5)))))
	add("lineFunctionAdd", func(v *vrun, pool *bnPool) ([]*big.Int, []*big.Int, func() []string) {
		p, q, r := cp1(p0), cp2(q0), cp2(r0)
		p.MakeAffine(nil)
		q.MakeAffine(nil)
		r2 := newGFp2(nil).Square(q.y, nil)
		r.t.Square(r.z, nil)
		a, b, c, n := lineFunctionAdd(r, q, p, r2, pool)
		res := append(append(append(partsF2(a), partsF2(b)...), partsF2(c)...), parts2(n)...)
		return res, append(append(append(parts1(p), parts2(q)...), parts2(r)...), partsF2(r2)...), func() []string {
			return []string{pol2(a).String(), pol2(b).String(), pol2(c).String(), aff2(n).String(), pol2(r2).String(), aff2(r).String(), aff2(q).String()}
		}
	})
	add("lineFunctionDouble", func(v *vrun, pool *bnPool) ([]*big.Int, []*big.Int, func() []string) {
		p, r := cp1(p0), cp2(r0)
		p.MakeAffine(nil)
		r.t.Square(r.z, nil)
		a, b, c, n := lineFunctionDouble(r, p, pool)
		res := append(append(append(partsF2(a), partsF2(b)...), partsF2(c)...), parts2(n)...)
		return res, append(parts1(p), parts2(r)...), func() []string {
			return []string{pol2(a).String(), pol2(b).String(), pol2(c).String(), aff2(n).String(), aff2(r).String()}
		}
	})
	f0, a0, b0, c0 := v.gf12(), v.gf2(), v.gf2(), v.gf2()
			if zeroish(a0.String()) {
				a0.SetOne() // zero has no inverse
			}
	add("mulLine", func(v *vrun, pool *bnPool) ([]*big.Int, []*big.Int, func() []string) {
		f, a, b, c := newGFp12(nil).Set(f0), newGFp2(nil).Set(a0), newGFp2(nil).Set(b0), newGFp2(nil).Set(c0)
		mulLine(f, a, b, c, pool)
		return partsF12(f), append(append(partsF2(a), partsF2(b)...), partsF2(c)...), func() []string {
			return []string{pol12(f).String(), pol2(a).String(), pol2(b).String(), pol2(c).String()}
		}
	})
	add("miller", func(v *vrun, pool *bnPool) ([]*big.Int, []*big.Int, func() []string) {
		p, q := cp1(p0), cp2(q0)
		m := miller(q, p, pool)
		return partsF12(m), append(parts1(p), parts2(q)...), func() []string { return []string{pol12(m).String(), aff1(p).String(), aff2(q).String()} }
	})
	add("optimalAte", func(v *vrun, pool *bnPool) ([]*big.Int, []*big.Int, func() []string) {
		p, q := cp1(p0), cp2(q0)
		m := optimalAte(q, p, pool)
		return partsF12(m), append(parts1(p), parts2(q)...), func() []string { return []string{pol12(m).String(), aff1(p).String(), aff2(q).String()} }
	})
	return ops
}

// the pool itself, with interleaved hand-outs and returns
func (v *vrun) poolHistory() {
	p := new(bnPool)
	held := []*big.Int{}
	for i := 0; i < 400; i++ {
		if len(held) == 0 || v.r.Intn(2) == 0 {
			b := p.Get()
			for _, x := range held {
				if x == b {
					v.fail("a number in use is handed out again after %d steps", i)
				}
			}
			b.SetInt64(int64(i))
			held = append(held, b)
		} else {
			j := v.r.Intn(len(held))
			p.Put(held[j])
			held = append(held[:j], held[j+1:]...)
		}
	}
}

func TestVerifC21(t *testing.T) {
	v := vstart(t)
	var none *bnPool
	for first := true; first || v.more(); first = false {
		v.run(func() string { return "pool history" }, func() {
			v.poolHistory()
			if a, b := none.Get(), none.Get(); a == b || a.Sign() != 0 {
				v.fail("without a pool a number is handed out twice")
			}
			none.Put(big.NewInt(3))
		})
		for _, op := range v.c21ops() {
			op := op
			v.run(func() string { return op.name }, func() {
				res0, _, same := op.f(v, nil)
				want := fmt.Sprint(same())
				_ = res0
				for _, pool := range []*bnPool{new(bnPool), filthy(v, 1+v.r.Intn(12)), filthy(v, 30+v.r.Intn(100)), filthy(v, 300+v.r.Intn(1500))} {
					res, args, same := op.f(v, pool)
					if got := fmt.Sprint(same()); got != want {
						v.fail("the result with a pool differs from the one without: %s, %s", got, want)
					}
					v.poolCheck(op.name, pool, res, args)
				}
			})
			if !v.more() && v.n > 400 {
				break
			}
		}
	}
	v.done()
}

// zeroish: all coordinates (reduced by String) are zero; such an element has no inverse
func zeroish(s string) bool {
	for _, c := range s {
		if c >= '1' && c <= '9' {
			return false
		}
	}
	return true
}

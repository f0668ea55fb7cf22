package bulletproofs

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util/bn"
)

func (v *vrun) ints(n int) (r, c []*big.Int) {
	for i := 0; i < n; i++ {
		x := v.scalar(oN)
		r, c = append(r, x), append(c, new(big.Int).Set(x))
	}
	return
}

func (v *vrun) points(n int) (r []*p256.P256, c []*opt) {
	for i := 0; i < n; i++ {
		var o *opt
		switch v.r.Intn(6) {
		case 0:
			o = &opt{}
		case 1:
			if i > 0 {
				o = c[i-1]
				break
			}
			fallthrough
		default:
			o = oG.mul(v.num(oN))
		}
		c = append(c, o)
		r = append(r, v.rep(o))
	}
	return
}

func onm(x *big.Int) *big.Int { return new(big.Int).Mod(x, oN) }

func TestVerifC13(t *testing.T) {
	v := vstart(t)
	for v.more() {
		v.c13()
	}
	v.done()
}

func (v *vrun) c13() {
	n := v.r.Intn(10)
	if v.r.Intn(10) == 0 {
		n = v.r.Intn(70)
	}
	m := n
	if v.r.Intn(4) == 0 {
		m = v.r.Intn(10)
	}
	a, ca := v.ints(n)
	b, cb := v.ints(m)
	if v.r.Intn(6) == 0 && n == m {
		b, cb = a, ca
	}
	k := v.scalar(oN)
	k0 := new(big.Int).Set(k)
	name := ""
	ctx := func() string { return fmt.Sprintf("%s a=%v b=%v k=%v", name, ca, cb, k0) }
	same := func(x, y []*big.Int) {
		if len(x) != len(y) {
			v.fail("length changed")
		}
		for i := range x {
			if x[i].Cmp(y[i]) != 0 {
				v.fail("operand element %d changed to %v", i, x[i])
			}
		}
	}
	vec := func(nm string, two bool, f func() ([]*big.Int, error), want func(i int) *big.Int) {
		name = nm
		v.run(ctx, func() {
			r, err := f()
			if two && n != m {
				if err == nil {
					v.fail("no error on a length mismatch")
				}
				return
			}
			if err != nil {
				v.fail("error %v", err)
			}
			if len(r) != n {
				v.fail("%d elements", len(r))
			}
			for i := range r {
				if r[i] == nil || r[i].Cmp(want(i)) != 0 {
					v.fail("element %d is %v, want %v", i, r[i], want(i))
				}
			}
			v.keep(ctx(), func() string { return fmt.Sprint(r) })
			same(a, ca)
			same(b, cb)
			if k.Cmp(k0) != 0 {
				v.fail("scalar changed")
			}
		})
	}
	vec("VectorAdd", true, func() ([]*big.Int, error) { return VectorAdd(a, b) }, func(i int) *big.Int { return onm(new(big.Int).Add(ca[i], cb[i])) })
	vec("VectorSub", true, func() ([]*big.Int, error) { return VectorSub(a, b) }, func(i int) *big.Int { return onm(new(big.Int).Sub(ca[i], cb[i])) })
	vec("VectorMul", true, func() ([]*big.Int, error) { return VectorMul(a, b) }, func(i int) *big.Int { return onm(new(big.Int).Mul(ca[i], cb[i])) })
	vec("VectorScalarMul", false, func() ([]*big.Int, error) { return VectorScalarMul(a, k) }, func(i int) *big.Int { return onm(new(big.Int).Mul(ca[i], k0)) })
	vec("VectorCopy", false, func() ([]*big.Int, error) { return VectorCopy(k, int64(n)) }, func(i int) *big.Int { return k0 })
	vec("powerOf", false, func() ([]*big.Int, error) { return powerOf(k, int64(n)), nil }, func(i int) *big.Int {
		return new(big.Int).Exp(onm(k0), big.NewInt(int64(i)), oN)
	})
	i64 := make([]int64, n+v.r.Intn(3))
	for i := range i64 {
		i64[i] = int64(v.r.Uint64())
	}
	vec("VectorConvertToBig", false, func() ([]*big.Int, error) { return VectorConvertToBig(i64, int64(n)) }, func(i int) *big.Int { return big.NewInt(i64[i]) })
	name = "ScalarProduct"
	v.run(ctx, func() {
		r, err := ScalarProduct(a, b)
		if (err != nil) != (n != m) {
			v.fail("error %v", err)
		}
		if err == nil {
			s := new(big.Int)
			for i := range ca {
				s.Add(s, new(big.Int).Mul(ca[i], cb[i]))
			}
			if r.Cmp(onm(s)) != 0 {
				v.fail("got %v, want %v", r, onm(s))
			}
		}
		same(a, ca)
		same(b, cb)
	})
	g, og := v.points(n)
	h, oh := v.points(m)
	if v.r.Intn(6) == 0 && n == m {
		h, oh = g, og
	}
	samep := func(x []*p256.P256, y []*opt) {
		for i := range y {
			if !y[i].is(x[i]) {
				v.fail("point %d of an operand changed", i)
			}
		}
	}
	pts := func(nm string, f func() ([]*p256.P256, error), two bool, want func(i int) *opt) {
		name = nm
		v.run(func() string { return ctx() + fmt.Sprintf(" g=%v h=%v", og, oh) }, func() {
			r, err := f()
			if (err != nil) != (two && n != m) {
				v.fail("error %v", err)
			}
			if err == nil {
				if len(r) != n {
					v.fail("%d elements", len(r))
				}
				for i := range r {
					if !want(i).is(r[i]) {
						v.fail("point %d is (%v,%v), want %v", i, r[i].X, r[i].Y, want(i))
					}
				}
			}
			samep(g, og)
			samep(h, oh)
			same(a, ca)
			same(b, cb)
		})
	}
	pts("VectorECAdd", func() ([]*p256.P256, error) { return VectorECAdd(g, h) }, true, func(i int) *opt { return og[i].add(oh[i]) })
	pts("vectorScalarExp", func() ([]*p256.P256, error) { return vectorScalarExp(g, k), nil }, false, func(i int) *opt { return og[i].mul(k0) })
	name = "VectorExp"
	v.run(func() string { return ctx() + fmt.Sprintf(" g=%v", og) }, func() {
		r, err := VectorExp(g, b)
		if (err != nil) != (n != m) {
			v.fail("error %v", err)
		}
		if err == nil {
			s := &opt{}
			for i := range cb {
				s = s.add(og[i].mul(cb[i]))
			}
			if !s.is(r) {
				v.fail("got (%v,%v), want %v", r.X, r.Y, s)
			}
		}
		samep(g, og)
		same(b, cb)
	})
	// integers
	md := []*big.Int{oN, oP, big.NewInt(int64(1 + v.r.Intn(30))), new(big.Int).Add(new(big.Int).Abs(v.scalar(oN)), big.NewInt(1))}[v.r.Intn(4)]
	x, e := v.scalar(md), v.scalar(big.NewInt(50))
	x0, e0, m0 := new(big.Int).Set(x), new(big.Int).Set(e), new(big.Int).Set(md)
	gcd := new(big.Int).GCD(nil, nil, new(big.Int).Mod(x, md), md)
	unit := gcd.Cmp(big.NewInt(1)) == 0
	ictx := func() string { return fmt.Sprintf("%s x=%v e=%v m=%v", name, x0, e0, m0) }
	isame := func() {
		if x.Cmp(x0) != 0 || e.Cmp(e0) != 0 || md.Cmp(m0) != 0 {
			v.fail("operand changed")
		}
	}
	name = "ModInverse"
	v.run(ictx, func() {
		r := bn.ModInverse(x, md)
		if (r != nil) != unit {
			v.fail("got %v", r)
		}
		if r != nil && (new(big.Int).Mod(new(big.Int).Sub(new(big.Int).Mul(r, x0), big.NewInt(1)), md).Sign() != 0 || r.Sign() < 0 || r.Cmp(md) >= 0) {
			v.fail("got %v", r)
		}
		isame()
	})
	name = "ModPow"
	if e.Sign() >= 0 || unit {
		v.run(ictx, func() {
			r := bn.ModPow(x, e, md)
			w := big.NewInt(1)
			bs := new(big.Int).Mod(x0, md)
			if e0.Sign() < 0 {
				bs.ModInverse(bs, md)
			}
			ee := new(big.Int).Abs(e0)
			for i := ee.BitLen() - 1; i >= 0; i-- {
				w.Mul(w, w)
				if ee.Bit(i) == 1 {
					w.Mul(w, bs)
				}
				w.Mod(w, md)
			}
			w.Mod(w, md)
			if r == nil || r.Cmp(w) != 0 {
				v.fail("got %v, want %v", r, w)
			}
			isame()
		})
	}
	name = "Mod/Add/Sub/Multiply"
	v.run(ictx, func() {
		q := bn.Mod(x, md)
		if q.Sign() < 0 || q.Cmp(md) >= 0 || new(big.Int).Mod(new(big.Int).Sub(x0, q), m0).Sign() != 0 {
			v.fail("Mod: %v", q)
		}
		if bn.Add(x, e).Cmp(new(big.Int).Add(x0, e0)) != 0 || bn.Sub(x, e).Cmp(new(big.Int).Sub(x0, e0)) != 0 || bn.Multiply(x, e).Cmp(new(big.Int).Mul(x0, e0)) != 0 {
			v.fail("sum, difference or product")
		}
		isame()
	})
}

package bn256

// Oracles for the pairing field and curves that share no code with the package: the field is
// Fp[w]/(w^12 - 18 w^6 + 82), with i = w^6 - 9 and t = w^2, and points are affine.

import (
	"fmt"
	"math/big"
)

var oP, _ = new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)
var oR, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

type pol [12]*big.Int

func polc(k int64) (r pol) {
	for i := range r {
		r[i] = new(big.Int)
	}
	r[0].SetInt64(k)
	return
}

func (a pol) add(b pol) (r pol) {
	for i := range r {
		r[i] = new(big.Int).Add(a[i], b[i])
		r[i].Mod(r[i], oP)
	}
	return
}

func (a pol) scale(k *big.Int) (r pol) {
	for i := range r {
		r[i] = new(big.Int).Mul(a[i], k)
		r[i].Mod(r[i], oP)
	}
	return
}

func (a pol) neg() pol         { return a.scale(big.NewInt(-1)) }
func (a pol) sub(b pol) pol    { return a.add(b.neg()) }
func (a pol) shift(k int) pol  { w := polc(0); w[k].SetInt64(1); return a.mul(w) }
func (a pol) equal(b pol) bool {
	for i := range a {
		if new(big.Int).Mod(new(big.Int).Sub(a[i], b[i]), oP).Sign() != 0 {
			return false
		}
	}
	return true
}
func (a pol) zero() bool { return a.equal(polc(0)) }

func (a pol) mul(b pol) (r pol) {
	var c [23]*big.Int
	for i := range c {
		c[i] = new(big.Int)
	}
	x := new(big.Int)
	for i := range a {
		if a[i].Sign() == 0 {
			continue
		}
		for j := range b {
			c[i+j].Add(c[i+j], x.Mul(a[i], b[j]))
		}
	}
	for k := 22; k >= 12; k-- { // w^12 = 18 w^6 - 82
		c[k-6].Add(c[k-6], x.Mul(c[k], big.NewInt(18)))
		c[k-12].Add(c[k-12], x.Mul(c[k], big.NewInt(-82)))
	}
	for i := range r {
		r[i] = c[i].Mod(c[i], oP)
	}
	return
}

func (a pol) pow(k *big.Int) pol {
	r := polc(1)
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.mul(r)
		if k.Bit(i) == 1 {
			r = r.mul(a)
		}
	}
	return r
}

func (a pol) String() string { return fmt.Sprint([12]*big.Int(a)) }

func pol2(a *gfP2) pol {
	r := polc(0)
	r[6].Set(a.x)
	r[0].Sub(a.y, new(big.Int).Mul(a.x, big.NewInt(9)))
	return r.scale(big.NewInt(1))
}

func pol6(a *gfP6) pol {
	return pol2(a.x).shift(4).add(pol2(a.y).shift(2)).add(pol2(a.z))
}

func pol12(a *gfP12) pol { return pol6(a.x).shift(1).add(pol6(a.y)) }

// number in any representation
func (v *vrun) rep(k *big.Int) *big.Int {
	k = new(big.Int).Set(k)
	switch v.r.Intn(6) {
	case 0:
		k.Sub(k, oP)
	case 1:
		k.Add(k, oP)
	}
	return k
}

func (v *vrun) fp() *big.Int { return v.rep(v.num(oP)) }

func (v *vrun) gf2() *gfP2 {
	return &gfP2{v.fp(), v.fp()}
}

func (v *vrun) gf6() *gfP6    { return &gfP6{v.gf2(), v.gf2(), v.gf2()} }
func (v *vrun) gf12() *gfP12  { return &gfP12{v.gf6(), v.gf6()} }
func (v *vrun) pool() *bnPool {
	if v.r.Intn(3) == 0 {
		return nil
	}
	return v.dirtyPool()
}

func (v *vrun) dirtyPool() *bnPool {
	p := new(bnPool)
	for i := v.r.Intn(4); i > 0; i-- {
		p.Put(p.Get().SetInt64(77))
	}
	return p
}

// affine points over Fp2, as polynomials
type apt struct {
	inf  bool
	x, y pol
}

func oinv(a pol) pol { // of an element of Fp2
	x, y := uncoef(a)
	n := new(big.Int).Add(new(big.Int).Mul(x, x), new(big.Int).Mul(y, y))
	n.ModInverse(n, oP)
	if n == nil {
		return polc(0)
	}
	return pol2(&gfP2{new(big.Int).Neg(x), y}).scale(n)
}

func (p apt) neg() apt {
	if p.inf {
		return p
	}
	return apt{p.inf, p.x, p.y.neg()}
}

func (p apt) add(q apt) apt {
	if p.inf {
		return q
	}
	if q.inf {
		return p
	}
	var l pol
	if p.x.equal(q.x) {
		if !p.y.equal(q.y) || p.y.zero() {
			return apt{inf: true}
		}
		l = p.x.mul(p.x).scale(big.NewInt(3)).mul(oinv(p.y.add(p.y)))
	} else {
		l = q.y.sub(p.y).mul(oinv(q.x.sub(p.x)))
	}
	x := l.mul(l).sub(p.x).sub(q.x)
	return apt{false, x, l.mul(p.x.sub(x)).sub(p.y)}
}

func (p apt) mul(k *big.Int) apt {
	if k.Sign() < 0 {
		return p.neg().mul(new(big.Int).Neg(k))
	}
	r := apt{inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(p)
		}
	}
	return r
}

func (p apt) equal(q apt) bool {
	if p.inf || q.inf {
		return p.inf == q.inf
	}
	return p.x.equal(q.x) && p.y.equal(q.y)
}

func (p apt) String() string {
	if p.inf {
		return "inf"
	}
	return fmt.Sprintf("(%v,%v)", p.x, p.y)
}

func fpol(k *big.Int) pol { r := polc(0); r[0].Mod(k, oP); return r }

func oaff(x, y, z pol) apt {
	if z.zero() {
		return apt{inf: true}
	}
	i := oinv(z)
	i2 := i.mul(i)
	return apt{false, x.mul(i2), y.mul(i2).mul(i)}
}

func aff1(p *curvePoint) apt { return oaff(fpol(p.x), fpol(p.y), fpol(p.z)) }
func aff2(p *twistPoint) apt { return oaff(pol2(p.x), pol2(p.y), pol2(p.z)) }

// the coefficients of an element of Fp2
func uncoef(a pol) (x, y *big.Int) {
	x = new(big.Int).Mod(a[6], oP)
	y = new(big.Int).Add(a[0], new(big.Int).Mul(x, big.NewInt(9)))
	return x, y.Mod(y, oP)
}

func mk2(a pol) *gfP2 { x, y := uncoef(a); return &gfP2{x, y} }

// a random representation of an affine point
func (v *vrun) jac1(p apt) *curvePoint {
	if p.inf {
		r := newCurvePoint(nil)
		r.SetInfinity()
		return r
	}
	z := big.NewInt(1)
	if v.r.Intn(3) > 0 {
		z = new(big.Int).Add(big.NewInt(1), new(big.Int).Rand(v.r, new(big.Int).Sub(oP, big.NewInt(1))))
	}
	z2 := new(big.Int).Mul(z, z)
	r := &curvePoint{new(big.Int).Mul(p.x[0], z2), new(big.Int).Mul(p.y[0], new(big.Int).Mul(z2, z)), new(big.Int).Set(z), new(big.Int).Set(z2)}
	r.x.Mod(r.x, oP)
	r.y.Mod(r.y, oP)
	r.t.Mod(r.t, oP)
	if v.r.Intn(4) == 0 {
		r.y.Sub(r.y, oP)
	}
	return r
}

func (v *vrun) jac2(p apt) *twistPoint {
	if p.inf {
		r := newTwistPoint(nil)
		r.SetInfinity()
		return r
	}
	z := polc(1)
	if v.r.Intn(3) > 0 {
		for {
			z = pol2(v.gf2())
			if !z.zero() {
				break
			}
		}
	}
	z2 := z.mul(z)
	r := &twistPoint{mk2(p.x.mul(z2)), mk2(p.y.mul(z2).mul(z)), mk2(z), mk2(z2)}
	if v.r.Intn(4) == 0 {
		r.y.x.Sub(r.y.x, oP)
	}
	return r
}

var oG1 = apt{false, polc(1), fpol(new(big.Int).Sub(oP, big.NewInt(2)))}

func og(x string) *big.Int { r, _ := new(big.Int).SetString(x, 10); return r }

var oG2 = apt{false,
	pol2(&gfP2{og("11559732032986387107991004021392285783925812861821192530917403151452391805634"), og("10857046999023057135944570762232829481370756359578518086990519993285655852781")}),
	pol2(&gfP2{og("4082367875863433681332203403145435568316851327593401208105741076214120093531"), og("8495653923123431417604973247489272438418190587263600148770280649306958101930")})}

func eq1(p, q *curvePoint) bool {
	return p.x.Cmp(q.x) == 0 && p.y.Cmp(q.y) == 0 && p.z.Cmp(q.z) == 0
}
func cp1(p *curvePoint) *curvePoint {
	return &curvePoint{new(big.Int).Set(p.x), new(big.Int).Set(p.y), new(big.Int).Set(p.z), new(big.Int).Set(p.t)}
}
func cp2(p *twistPoint) *twistPoint {
	c := func(a *gfP2) *gfP2 { return &gfP2{new(big.Int).Set(a.x), new(big.Int).Set(a.y)} }
	return &twistPoint{c(p.x), c(p.y), c(p.z), c(p.t)}
}

// a number of recycled numbers must never be part of the points
func (v *vrun) clean(pool *bnPool, what string, xs ...*big.Int) {
	if pool == nil {
		return
	}
	seen := map[*big.Int]bool{}
	for k := 0; k < 300; k++ {
		b := pool.Get()
		if seen[b] {
			v.fail("%s: a number was recycled twice", what)
		}
		seen[b] = true
		b.SetInt64(99)
		for _, x := range xs {
			if b == x {
				v.fail("%s: a recycled number is still in use", what)
			}
		}
	}
}
func parts1(p *curvePoint) []*big.Int { return []*big.Int{p.x, p.y, p.z, p.t} }
func parts2(p *twistPoint) []*big.Int {
	return []*big.Int{p.x.x, p.x.y, p.y.x, p.y.y, p.z.x, p.z.y, p.t.x, p.t.y}
}
func partsF2(a *gfP2) []*big.Int   { return []*big.Int{a.x, a.y} }
func partsF6(a *gfP6) []*big.Int   { return append(append(partsF2(a.x), partsF2(a.y)...), partsF2(a.z)...) }
func partsF12(a *gfP12) []*big.Int { return append(partsF6(a.x), partsF6(a.y)...) }
func vals(xs []*big.Int) (r []string) {
	for _, x := range xs {
		r = append(r, x.String())
	}
	return
}

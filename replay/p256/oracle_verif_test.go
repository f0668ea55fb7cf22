package p256

import (
	"fmt"
	"math/big"
)

// affine textbook arithmetic on y^2 = x^3 + 7, independent of the code under test

var (
	oP, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	oN, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	oGx, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
	oGy, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)
	oG     = &opt{x: oGx, y: oGy}
)

type opt struct{ x, y *big.Int } // x == nil: infinity

func omod(x *big.Int) *big.Int { return new(big.Int).Mod(x, oP) }

func (a *opt) add(b *opt) *opt {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		if a.y.Cmp(b.y) != 0 {
			return &opt{}
		}
		l = new(big.Int).Mul(a.x, a.x)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), oP))
	} else {
		l = new(big.Int).Sub(b.y, a.y)
		l.Mul(l, new(big.Int).ModInverse(omod(new(big.Int).Sub(b.x, a.x)), oP))
	}
	l = omod(l)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x)
	x = omod(x.Sub(x, b.x))
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l)
	y = omod(y.Sub(y, a.y))
	return &opt{x, y}
}

func (a *opt) neg() *opt {
	if a.x == nil {
		return a
	}
	return &opt{a.x, omod(new(big.Int).Neg(a.y))}
}

func (a *opt) mul(k *big.Int) *opt {
	k = new(big.Int).Mod(k, oN)
	r := &opt{}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(a)
		}
	}
	return r
}

func (a *opt) is(p *P256) bool {
	if a.x == nil {
		return p.IsZero() && ((p.X == nil && p.Y == nil) || (p.X != nil && p.Y != nil && p.X.Sign() == 0 && p.Y.Sign() == 0))
	}
	return p.X != nil && p.Y != nil && p.X.Cmp(a.x) == 0 && p.Y.Cmp(a.y) == 0
}

// rep is a fresh representation of a
func (v *vrun) rep(a *opt) *P256 {
	if a.x == nil {
		if v.r.Intn(2) == 0 {
			return &P256{X: new(big.Int), Y: new(big.Int)}
		}
		return &P256{}
	}
	return &P256{X: new(big.Int).Set(a.x), Y: new(big.Int).Set(a.y)}
}

func (a *opt) String() string {
	if a.x == nil {
		return "infinity"
	}
	return fmt.Sprintf("(%x,%x)", a.x, a.y)
}

// logs returns discrete logarithms of two points, often equal, opposite or zero
func (v *vrun) logs() (k, l *big.Int) {
	one := func() *big.Int {
		switch v.r.Intn(5) {
		case 0:
			return big.NewInt(int64(v.r.Intn(4)))
		case 1:
			return new(big.Int).Sub(oN, big.NewInt(int64(v.r.Intn(3))))
		}
		return new(big.Int).Rand(v.r, oN)
	}
	k = one()
	switch v.r.Intn(6) {
	case 0:
		l = new(big.Int).Set(k)
	case 1:
		l = new(big.Int).Mod(new(big.Int).Neg(k), oN)
	case 2:
		l = new(big.Int).Mod(new(big.Int).Lsh(k, 1), oN)
	default:
		l = one()
	}
	return
}

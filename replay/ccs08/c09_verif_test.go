package ccs08

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"
	. "github.com/ing-bank/zkrp/util"
)

var ulcache = map[string]*paramsUL{}

func (v *vrun) ul(u, l int64) *paramsUL {
	k := fmt.Sprint(u, " ", l)
	if p := ulcache[k]; p != nil {
		return p
	}
	p, e := SetupUL(u, l)
	if e != nil || p.u != u || p.l != l || int64(len(p.signatures)) != u {
		v.fail("SetupUL: error %v, u=%d l=%d, %d signatures", e, p.u, p.l, len(p.signatures))
	}
	for i := int64(0); i < u; i++ {
		if i > 2 && i < u-2 && v.r.Intn(8) > 0 {
			continue
		}
		sig := p.signatures[strconv.FormatInt(i, 10)]
		if sig == nil || !g2eq(sig, g2(new(big.Int).ModInverse(mod(new(big.Int).Add(p.kp.Privk, big.NewInt(i))), bn256.Order))) {
			v.fail("wrong signature for digit %d", i)
		}
	}
	ulcache[k] = &p
	return &p
}

func TestVerifC09(t *testing.T) {
	v := vstart(t)
	for _, c := range [][2]int64{{5, 4}, {0, -1}, {math.MaxInt64, math.MinInt64}, {1900, 1899}, {-3, -4}} {
		v.run(func() string { return fmt.Sprintf("Setup(%d, %d)", c[0], c[1]) }, func() {
			var z ccs08
			if z.Setup(c[0], c[1]) == nil {
				v.fail("no error")
			}
		})
	}
	for i := 0; v.more() || i < 8; i++ {
		if i%3 == 2 {
			v.wrapper(i / 3)
		} else {
			v.c09(i)
		}
	}
	v.done()
}

var uls = [][2]int64{{2, 1}, {2, 3}, {2, 12}, {10, 1}, {3, 2}, {2, 8}, {57, 2}, {7, 3}, {256, 1}, {16, 4}, {10, 5}, {4, 6}, {3, 0}}

func (v *vrun) c09(i int) {
	u, l := int64(0), int64(0)
	if i/3 < len(uls) {
		u, l = uls[i/3][0], uls[i/3][1]
	} else {
		u, l = int64(2+v.r.Intn(14)), int64(v.r.Intn(5))
		if v.r.Intn(4) == 0 {
			l += 12
		}
	}
	U := new(big.Int).Exp(big.NewInt(u), big.NewInt(l), nil)
	x := new(big.Int)
	switch v.r.Intn(10) {
	case 0:
		x.SetInt64(0)
	case 1:
		x.Sub(U, big.NewInt(1))
	case 2:
		x.Set(U)
	case 3:
		x.SetInt64(-1)
	case 4:
		x.Neg(U)
	case 5:
		x.Add(U, new(big.Int).Rand(v.r, U))
	case 6:
		x.Mul(U, big.NewInt(int64(1+v.r.Intn(9))))
	case 7:
		x.Rand(v.r, new(big.Int).Rsh(bn256.Order, 1))
		if v.r.Intn(2) == 0 {
			x.Neg(x)
		}
	default:
		x.Rand(v.r, U)
	}
	if l > 8 && v.r.Intn(4) > 0 {
		x.Rand(v.r, U)
	}
	r := v.scalar(bn256.Order)
	v.run(func() string { return fmt.Sprintf("u=%d l=%d x=%v r=%v", u, l, x, r) }, func() {
		p := v.ul(u, l)
		inside := x.Sign() >= 0 && x.Cmp(U) < 0
		xx, rr := new(big.Int).Set(x), new(big.Int).Set(r)
		pr, e := ProveUL(xx, rr, *p)
		if xx.Cmp(x) != 0 || rr.Cmp(r) != 0 {
			v.fail("ProveUL changed an argument")
		}
		if e != nil {
			if inside {
				v.fail("ProveUL: %v", e)
			}
			return
		}
		before := shown(&pr, p.H, p.kp.Pubk)
		ok, _ := VerifyUL(&pr, p)
		if ok != inside {
			v.fail("verdict %v, want %v", ok, inside)
		}
		if shown(&pr, p.H, p.kp.Pubk) != before {
			v.fail("verification changed the proof or the parameters")
		}
		if !inside {
			return
		}
		if !g2eq(pr.C, g2add(g2(x), g2mul(p.H, r))) {
			v.fail("the commitment is not to the secret")
		}
		v.alterUL(pr, p)
		if v.r.Intn(2) == 0 {
			v.forgeUL(x, p)
		}
	})
}

func (v *vrun) alterUL(pr proofUL, p *paramsUL) {
	one := big.NewInt(1)
	q, par := pr, *p
	q.V = append([]*bn256.G2{}, pr.V...)
	q.a = append([]*bn256.GT{}, pr.a...)
	q.zsig = append([]*big.Int{}, pr.zsig...)
	q.zv = append([]*big.Int{}, pr.zv...)
	j := 0
	k := v.r.Intn(12)
	if p.l == 0 {
		k = v.r.Intn(5)
	} else {
		j = v.r.Intn(int(p.l))
	}
	switch k {
	case 0:
		q.zr = new(big.Int).Add(pr.zr, one)
	case 1:
		q.c = new(big.Int).Add(pr.c, one)
	case 2:
		q.D = g2add(pr.D, g2(one))
	case 3:
		q.C = g2add(pr.C, g2(one))
	case 4:
		par.H = g2add(p.H, g2(one))
	case 5:
		q.zsig[j] = new(big.Int).Add(pr.zsig[j], one)
	case 6:
		q.zv[j] = new(big.Int).Add(pr.zv[j], one)
	case 7:
		q.V[j] = new(bn256.G2).Neg(pr.V[j])
	case 8:
		q.a[j] = new(bn256.GT).Add(pr.a[j], bn256.Pair(og1, g2(one)))
	case 9:
		par.kp.Pubk = new(bn256.G1).Add(p.kp.Pubk, og1)
	case 10: // only the hash tells
		q.zv[j] = new(big.Int).Add(pr.zv[j], one)
		q.a[j] = pairing(p.kp.Pubk, pr.V[j], pr.c, pr.zsig[j], q.zv[j])
	case 11: // only the hash tells
		q.zr = new(big.Int).Add(pr.zr, one)
		q.D = g2add(pr.D, p.H)
	}
	if ok, _ := VerifyUL(&q, &par); ok {
		v.fail("altered proof %d (digit %d) accepted", k, j)
	}
	if p.l < 6 {
		return
	}
	for _, j := range []int{int(p.l) - 1, v.r.Intn(int(p.l))} { // one equation of many
		q = pr
		q.V = append([]*bn256.G2{}, pr.V...)
		q.zv = append([]*big.Int{}, pr.zv...)
		if v.r.Intn(2) == 0 {
			q.V[j] = new(bn256.G2).Neg(pr.V[j])
		} else {
			q.zv[j] = new(big.Int).Add(pr.zv[j], one)
		}
		if ok, _ := VerifyUL(&q, p); ok {
			v.fail("proof with another V or zv for digit %d of %d accepted", j, p.l)
		}
	}
}

// forgeUL follows the protocol except in one place, with a challenge that fits
func (v *vrun) forgeUL(x *big.Int, p *paramsUL) {
	rnd := func() *big.Int { return new(big.Int).Rand(v.r, bn256.Order) }
	bad := v.r.Intn(4)
	if p.l == 0 {
		return
	}
	j := v.r.Intn(int(p.l))
	m, r := rnd(), rnd()
	var q proofUL
	D := g2mul(p.H, m)
	rest := new(big.Int).Set(x)
	var s, t, w, dg []*big.Int
	for i := 0; i < int(p.l); i++ {
		d := new(big.Int)
		rest.DivMod(rest, big.NewInt(p.u), d)
		dg = append(dg, d)
		s, t, w = append(s, rnd()), append(t, rnd()), append(w, rnd())
		V := g2mul(p.signatures[d.String()], w[i])
		q.V = append(q.V, V)
		q.a = append(q.a, ann(V, s[i], t[i]))
		ui := new(big.Int).Exp(big.NewInt(p.u), big.NewInt(int64(i)), nil)
		D = g2add(D, g2(new(big.Int).Mul(ui, s[i])))
	}
	q.D = D
	q.C = g2add(g2(x), g2mul(p.H, r))
	if bad == 1 {
		q.C = g2add(q.C, g2(big.NewInt(1)))
	}
	h, _ := Hash(q.a, q.C, q.D)
	q.c = mod(h)
	resp := func(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, new(big.Int).Mul(b, q.c))) }
	q.zr = resp(m, r)
	for i := range s {
		q.zsig = append(q.zsig, resp(s[i], dg[i]))
		q.zv = append(q.zv, resp(t[i], w[i]))
	}
	if bad == 2 {
		q.zv[j] = mod(new(big.Int).Add(q.zv[j], big.NewInt(1)))
	}
	if bad == 3 { // a digit that was not signed
		V := q.V[j]
		q.V[j] = g2mul(V, big.NewInt(3))
		if g2eq(V, q.V[j]) {
			return
		}
	}
	ok, _ := VerifyUL(&q, p)
	if ok != (bad == 0) {
		v.fail("own proof with deviation %d at digit %d: verdict %v", bad, j, ok)
	}
}

func (v *vrun) wrapper(i int) {
	var a, b int64
	cases := [][2]int64{{-1, 3249}, {math.MinInt64, math.MaxInt64}, {10, 67}, {347184000, 599644800}, {-5, 52}, {0, 57}, {0, 56}, {-100, -40}, {100, 3349}, {7, 8}, {0, 3249}, {100, 100 + 185193}, {-4, 185190}, {0, 58}, {4, 61}, {0, 3248}, {-7, 51}}
	if i < len(cases) {
		a, b = cases[i][0], cases[i][1]
	} else {
		a = int64(v.r.Uint64()) >> uint(v.r.Intn(64))
		b = a + int64(v.r.Intn(1<<uint(1+v.r.Intn(20)))) + 1
		if b < a {
			b = math.MaxInt64
		}
		if b == 1 {
			b = 2
		}
	}
	A, B := big.NewInt(a), big.NewInt(b)
	w := new(big.Int).Sub(B, A)
	x := new(big.Int)
	k := v.r.Intn(7)
	if i == 0 {
		k = 6
	}
	switch k {
	case 0:
		x.Set(A)
	case 1:
		x.Sub(B, big.NewInt(1))
	case 2:
		x.Set(B)
	case 3:
		x.Sub(A, big.NewInt(1))
	case 4:
		x.Add(B, new(big.Int).Rand(v.r, w))
	default:
		x.Add(A, new(big.Int).Rand(v.r, w))
	}
	r := v.num(bn256.Order)
	v.run(func() string { return fmt.Sprintf("interval [%d, %d) x=%v r=%v", a, b, x, r) }, func() {
		var z ccs08
		if e := z.Setup(a, b); e != nil {
			v.fail("Setup: %v", e)
		}
		U := new(big.Int).Exp(big.NewInt(z.p.p.u), big.NewInt(z.p.p.l), nil)
		if U.Cmp(w) < 0 {
			v.fail("%d^%d does not cover the interval", z.p.p.u, z.p.p.l)
		}
		z.x, z.r = new(big.Int).Set(x), new(big.Int).Set(r)
		inside := x.Cmp(A) >= 0 && x.Cmp(B) < 0
		if v.r.Intn(2) == 0 { // the object holds an earlier proof
			z.x = new(big.Int).Add(A, new(big.Int).Rand(v.r, w))
			if e := z.Prove(); e != nil {
				v.fail("Prove for %v: %v", z.x, e)
			}
			if ok, _ := z.Verify(); !ok {
				v.fail("the proof for %v is rejected", z.x)
			}
			z.x = new(big.Int).Set(x)
		}
		e := z.Prove()
		if e != nil {
			if inside {
				v.fail("Prove: %v", e)
			}
			return
		}
		ok, _ := z.Verify()
		if ok != inside {
			v.fail("verdict %v, want %v", ok, inside)
		}
		if !inside || v.r.Intn(2) == 0 {
			return
		}
		k := v.r.Intn(2) // one of the two proofs broken
		one := big.NewInt(1)
		if k == 0 {
			z.proof_out.p1.zr = new(big.Int).Add(z.proof_out.p1.zr, one)
		} else {
			z.proof_out.p2.zr = new(big.Int).Add(z.proof_out.p2.zr, one)
		}
		if ok, _ := z.Verify(); ok {
			v.fail("accepted with proof %d altered", k+1)
		}
	})
}

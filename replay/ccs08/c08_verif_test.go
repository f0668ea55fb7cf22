package ccs08

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"
	. "github.com/ing-bank/zkrp/util"
)

func (v *vrun) elem() int64 {
	switch v.r.Intn(6) {
	case 0:
		return int64(v.r.Intn(5) - 2)
	case 1:
		return []int64{math.MinInt64, math.MaxInt64, math.MinInt64 + 1, 0, -1, 1 << 32, -(1 << 32), 1 << 53}[v.r.Intn(8)]
	case 2:
		return int64(v.r.Uint64())
	case 3:
		return 1 << uint(v.r.Intn(63))
	}
	return int64(v.r.Intn(1000)) - 300
}

func (v *vrun) set() []int64 {
	s := []int64{}
	for n := v.r.Intn(5); n >= 0; n-- {
		s = append(s, v.elem())
	}
	if v.r.Intn(4) == 0 {
		s = append(s, s[0])
	}
	return s
}

func TestVerifC08(t *testing.T) {
	v := vstart(t)
	v.run(func() string { return "SetupSet of no elements" }, func() {
		p, e := SetupSet(nil)
		if e != nil || len(p.signatures) != 0 {
			v.fail("%v, %d signatures", e, len(p.signatures))
		}
		if _, e := ProveSet(7, big.NewInt(3), p); e == nil {
			v.fail("a proof of membership in the empty set")
		}
	})
	for v.more() {
		s := v.set()
		r := v.scalar(bn256.Order)
		v.run(func() string { return fmt.Sprintf("set %v r=%v", s, r) }, func() { v.c08(s, r) })
	}
	v.done()
}

func (v *vrun) c08(s []int64, r *big.Int) {
	c := append([]int64{}, s...)
	p, e := SetupSet(c)
	if e != nil {
		v.fail("SetupSet: %v", e)
	}
	in := map[int64]bool{}
	for i, x := range s {
		in[x] = true
		if c[i] != x {
			v.fail("SetupSet changed its argument")
		}
	}
	if len(p.signatures) != len(in) {
		v.fail("%d signatures for %d elements", len(p.signatures), len(in))
	}
	for x := range p.signatures {
		if !in[x] {
			v.fail("%d is signed", x)
		}
	}
	for x, k := range in {
		k = k && v.r.Intn(2) == 0
		sig := p.signatures[x]
		if k && (sig == nil || !g2eq(sig, g2(new(big.Int).ModInverse(mod(new(big.Int).Add(p.kp.Privk, big.NewInt(x))), bn256.Order)))) {
			v.fail("wrong signature for %d", x)
		}
	}
	for i := 0; i < 3; i++ { // outside the set
		x := v.elem()
		if i == 1 {
			x = -s[0]
		} else if i == 2 {
			x = s[0] + 1<<32
		}
		if in[x] {
			continue
		}
		if _, e := ProveSet(x, new(big.Int).Set(r), p); e == nil {
			v.fail("no error for %d", x)
		}
	}
	x := s[v.r.Intn(len(s))]
	rr := new(big.Int).Set(r)
	pr, e := ProveSet(x, rr, p)
	if e != nil || rr.Cmp(r) != 0 {
		v.fail("ProveSet(%d): error %v, r becomes %v", x, e, rr)
	}
	if !g2eq(pr.C, g2add(g2(big.NewInt(x)), g2mul(p.H, r))) {
		v.fail("the commitment is not to %d", x)
	}
	// published equations, with an oracle
	h, _ := HashSet(pr.a, pr.C, pr.D)
	if mod(h).Cmp(pr.c) != 0 {
		v.fail("the challenge of the proof is not the hash")
	}
	before := shown(&pr, p.H, p.kp.Pubk)
	check := func(what string, want bool, q *proofSet, par *paramsSet) {
		ok, _ := VerifySet(q, par)
		if ok != want {
			v.fail("member %d, %s: verdict %v, want %v", x, what, ok, want)
		}
	}
	check("the proof", true, &pr, &p)
	if shown(&pr, p.H, p.kp.Pubk) != before {
		v.fail("verification changed the proof or the parameters")
	}
	if v.r.Intn(3) == 0 {
		check("the proof again", true, &pr, &p)
	}
	one := big.NewInt(1)
	q := pr
	par := p
	k := v.r.Intn(16)
	switch k {
	case 0:
		q.zsig = new(big.Int).Add(pr.zsig, one)
	case 1:
		q.zv = new(big.Int).Add(pr.zv, one)
	case 2:
		q.zr = new(big.Int).Add(pr.zr, one)
	case 3:
		q.c = new(big.Int).Add(pr.c, one)
	case 4:
		q.V = new(bn256.G2).Neg(pr.V)
	case 5:
		q.D = g2add(pr.D, g2(one))
	case 6:
		q.C = g2add(pr.C, g2(one))
	case 7:
		q.a = new(bn256.GT).Add(pr.a, bn256.Pair(og1, g2(one)))
	case 8:
		par.H = g2add(p.H, g2(one))
	case 9:
		par.kp.Pubk = new(bn256.G1).Add(p.kp.Pubk, og1)
	case 10: // consistent with the challenge, only the pairing equation broken
		q.a = pairing(p.kp.Pubk, pr.V, pr.c, pr.zsig, new(big.Int).Add(pr.zv, one))
	case 11: // a forged announcement with the right pairing equation and an old challenge
		q.zv = new(big.Int).Add(pr.zv, one)
		q.a = pairing(p.kp.Pubk, pr.V, pr.c, pr.zsig, q.zv)
	case 12: // D recomputed for another response, old challenge
		q.zr = new(big.Int).Add(pr.zr, one)
		q.D = g2add(g2add(g2mul(pr.C, pr.c), g2mul(p.H, q.zr)), g2(pr.zsig))
	case 13: // commitment changed, D adapted, old challenge
		q.C = g2add(pr.C, g2(one))
		q.D = g2add(g2add(g2mul(q.C, pr.c), g2mul(p.H, pr.zr)), g2(pr.zsig))
	case 14: // D changed and the challenge recomputed: the opening fails, the pairing equation is adapted
		q.D = g2add(pr.D, g2(one))
		h, _ := HashSet(q.a, q.C, q.D)
		q.c = mod(h)
		q.a = pairing(p.kp.Pubk, pr.V, q.c, pr.zsig, pr.zv)
		h, _ = HashSet(q.a, q.C, q.D)
		if mod(h).Cmp(q.c) == 0 {
			return
		}
	case 15: // pairing equation broken with everything else right
		q.zr, q.zsig, q.zv = new(big.Int).Set(pr.zr), new(big.Int).Set(pr.zsig), new(big.Int).Set(pr.zv)
		q.V = g2mul(pr.V, big.NewInt(2))
	}
	check(fmt.Sprintf("altered proof %d", k), false, &q, &par)
	// equivalent responses
	q = pr
	q.zsig = new(big.Int).Add(pr.zsig, bn256.Order)
	q.zr = new(big.Int).Sub(pr.zr, bn256.Order)
	q.zv = new(big.Int).Add(pr.zv, bn256.Order)
	if v.r.Intn(4) == 0 {
		check("responses shifted by the order", true, &q, &p)
	}
	if v.r.Intn(3) == 0 { // a fresh announcement with a dishonest response in one place
		v.forge(x, &p)
	}
}

// forge follows the protocol except in one place, with a challenge that fits
func (v *vrun) forge(x int64, p *paramsSet) {
	rnd := func() *big.Int { return new(big.Int).Rand(v.r, bn256.Order) }
	m, s, t, vv, r := rnd(), rnd(), rnd(), rnd(), rnd()
	bad := v.r.Intn(3)
	C := g2add(g2(big.NewInt(x)), g2mul(p.H, r))
	D := g2add(g2(s), g2mul(p.H, m))
	V := g2mul(p.signatures[x], vv)
	if bad == 1 {
		C = g2add(C, g2(big.NewInt(1))) // another committed number
	}
	a := ann(V, s, t)
	h, _ := HashSet(a, C, D)
	c := mod(h)
	zr := mod(new(big.Int).Sub(m, new(big.Int).Mul(r, c)))
	zs := mod(new(big.Int).Sub(s, new(big.Int).Mul(big.NewInt(x), c)))
	zv := mod(new(big.Int).Sub(t, new(big.Int).Mul(vv, c)))
	if bad == 2 {
		zv = mod(new(big.Int).Add(zv, big.NewInt(1)))
	}
	q := proofSet{V: V, D: D, C: C, a: a, zsig: zs, zv: zv, c: c, zr: zr}
	ok, _ := VerifySet(&q, p)
	if ok != (bad == 0) {
		v.fail("element %d, own proof with deviation %d: verdict %v", x, bad, ok)
	}
}

package bulletproofs

import (
	"fmt"
	"math/big"
	"reflect"
	"testing"
)

func TestVerifC22(t *testing.T) {
	v := vstart(t)
	for i := 0; i < 2; i++ {
		a := v.r.Int63n(1000) - 500
		s := big.NewInt(a + v.r.Int63n(200))
		v.run(func() string { return fmt.Sprintf("generic range [%d,%d) secret %v", a, a+200, s) }, func() { v.c22generic(a, a+200, s) })
	}
	for i := 0; v.more() || i < 5; i++ {
		n := vsizes[v.r.Intn(4)]
		if i < 5 {
			n = vsizes[i]
		}
		s := v.inside(n)
		v.run(func() string { return fmt.Sprintf("range [0,2^%d) secret %v", n, s) }, func() { v.c22(n, s) })
	}
	v.done()
}

// take finds and removes the draw that makes f true
func take(ds *[]*big.Int, f func(d *big.Int) bool) *big.Int {
	for i, d := range *ds {
		if f(d) {
			*ds = append(append([]*big.Int{}, (*ds)[:i]...), (*ds)[i+1:]...)
			return d
		}
	}
	return nil
}

// c22generic: the two proofs of a generic range do not share a draw
func (v *vrun) c22generic(a, b int64, s *big.Int) {
	par, err := SetupGeneric(a, b)
	if err != nil {
		return
	}
	var p ProofBPRP
	rec := vrecord(func() { p, err = ProveGeneric(cbig(s), par) })
	if err != nil {
		return
	}
	all := rec.draws()
	if len(all) < 2*(2*32+5) {
		v.fail("%d draws below the order from the system source, at least %d are needed", len(all), 2*(2*32+5))
	}
	seen := map[string]bool{}
	for _, d := range all {
		if seen[d.String()] {
			v.fail("a draw is repeated")
		}
		seen[d.String()] = true
	}
	ds := append([]*big.Int{}, all...)
	for i, q := range []BulletProof{p.P1, p.P2} {
		for path, x := range publishedNums(q) {
			if x.Sign() == 0 || x.IsInt64() {
				continue
			}
			for _, d := range all {
				if onn(x).Cmp(d) == 0 {
					v.fail("the proof publishes a nonce in %s", path)
				}
			}
		}
		H := oof(q.Params.H)
		x := new(big.Int).Sub(s, big.NewInt(a))
		if i == 0 {
			x = new(big.Int).Sub(s, big.NewInt(b))
			x.Add(x, big.NewInt(MAX_RANGE_END))
		}
		if take(&ds, func(d *big.Int) bool { return oG.mul(x).add(H.mul(d)).eq(oof(q.V)) }) == nil {
			v.fail("V of proof %d is not blinded by a draw of its own", i+1)
		}
	}
}

func (v *vrun) c22(n int64, s *big.Int) {
	par := v.vsetup(n)
	var p BulletProof
	var err error
	rec := vrecord(func() { p, err = Prove(cbig(s), par) })
	if err != nil {
		return
	}
	all := rec.draws()
	if int64(len(all)) < 2*n+5 {
		v.fail("%d draws below the order from the system source, at least %d are needed", len(all), 2*n+5)
	}
	seen := map[string]bool{}
	big_ := 0
	for _, d := range all {
		if seen[d.String()] {
			v.fail("a draw is repeated")
		}
		seen[d.String()] = true
		if d.BitLen() > 240 {
			big_++
		}
	}
	if big_*2 < len(all) {
		v.fail("the draws do not cover the scalar field")
	}
	for path, x := range publishedNums(p) {
		if x.Sign() == 0 || x.IsInt64() {
			continue
		}
		for _, d := range all {
			if onn(x).Cmp(d) == 0 {
				v.fail("the proof publishes a nonce in %s", path)
			}
		}
	}
	for n, z := range map[string]*big.Int{"Taux": p.Taux, "Mu": p.Mu, "Tprime": p.Tprime} {
		if z.Sign() < 0 || z.Cmp(oN) >= 0 {
			v.fail("%s = %v is not reduced: it shows more than its residue", n, z)
		}
	}
	// who masks what
	ds := append([]*big.Int{}, all...)
	H := oof(par.H)
	gs := oG.mul(s)
	gamma := take(&ds, func(d *big.Int) bool { return gs.add(H.mul(d)).eq(oof(p.V)) })
	if gamma == nil {
		v.fail("V is not blinded by a draw")
	}
	base := &opt{}
	for i := int64(0); i < n; i++ {
		if s.Bit(int(i)) == 1 {
			base = base.add(oof(par.Gg[i]))
		} else {
			base = base.add(oof(par.Hh[i]).neg())
		}
	}
	alpha := take(&ds, func(d *big.Int) bool { return base.add(H.mul(d)).eq(oof(p.A)) })
	if alpha == nil {
		v.fail("A is not blinded by a draw of its own")
	}
	x, _, _ := HashBP(cpt(p.V), cpt(p.A), cpt(p.S), cpt(p.T1), cpt(p.T2))
	_, z, _ := HashBP(cpt(p.V), cpt(p.A), cpt(p.S))
	rho := take(&ds, func(d *big.Int) bool { return onn(new(big.Int).Add(alpha, omulN(d, x))).Cmp(p.Mu) == 0 })
	if rho == nil {
		v.fail("Mu is not alpha + rho x for a draw rho of its own")
	}
	// taux = tau2 x^2 + tau1 x + z^2 gamma
	rest := onn(new(big.Int).Sub(p.Taux, omulN(omulN(z, z), gamma)))
	var tau1, tau2 *big.Int
	for i, d := range ds {
		e := onn(new(big.Int).Sub(rest, omulN(d, x)))
		e = omulN(e, oinvN(omulN(x, x)))
		for j, f := range ds {
			if f.Cmp(e) == 0 {
				if i == j {
					v.fail("T1 and T2 are blinded by the same draw")
				}
				tau1, tau2 = d, f
			}
		}
	}
	if tau1 == nil {
		v.fail("Taux is not masked by two draws of their own")
	}
	take(&ds, func(d *big.Int) bool { return d == tau1 })
	take(&ds, func(d *big.Int) bool { return d == tau2 })
	if n <= 2 { // S = h^rho g^sL h^sR
		S := oof(p.S).add(H.mul(rho).neg())
		if !v.decompose(S, append(oofs(par.Gg), oofs(par.Hh)...), ds) {
			v.fail("S does not consist of draws of its own")
		}
	}
}

// decompose: S is a combination of the generators with distinct draws
func (v *vrun) decompose(S *opt, gs []*opt, ds []*big.Int) bool {
	if len(gs) == 0 {
		return S.x == nil
	}
	for i, d := range ds {
		rest := append(append([]*big.Int{}, ds[:i]...), ds[i+1:]...)
		if v.decompose(S.add(gs[0].mul(d).neg()), gs[1:], rest) {
			return true
		}
	}
	return false
}

func publishedNums(p BulletProof) map[string]*big.Int {
	out := map[string]*big.Int{}
	vnums(reflect.ValueOf(p), "proof", out)
	return out
}

package bulletproofs

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/p256"
)

func TestVerifC04(t *testing.T) {
	v := vstart(t)
	for i := 0; v.more() || i < 4; i++ {
		n := vsizes[v.r.Intn(4)]
		if v.r.Intn(20) == 0 {
			n = vsizes[4+v.r.Intn(2)]
		}
		v.c04(n)
	}
	v.done()
}

// vmutations changes one part of a proof that the verdict depends on
var vmutations = []struct {
	name string
	f    func(v *vrun, p *BulletProof)
}{
	{"V", func(v *vrun, p *BulletProof) { p.V = v.other(p.V) }},
	{"A", func(v *vrun, p *BulletProof) { p.A = v.other(p.A) }},
	{"S", func(v *vrun, p *BulletProof) { p.S = v.other(p.S) }},
	{"T1", func(v *vrun, p *BulletProof) { p.T1 = v.other(p.T1) }},
	{"T2", func(v *vrun, p *BulletProof) { p.T2 = v.other(p.T2) }},
	{"Commit", func(v *vrun, p *BulletProof) { p.Commit = v.other(p.Commit) }},
	{"Taux", func(v *vrun, p *BulletProof) { p.Taux = v.delta(p.Taux) }},
	{"Mu", func(v *vrun, p *BulletProof) { p.Mu = v.delta(p.Mu) }},
	{"Tprime", func(v *vrun, p *BulletProof) { p.Tprime = v.delta(p.Tprime) }},
	{"ip.A", func(v *vrun, p *BulletProof) { p.InnerProductProof.A = v.delta(p.InnerProductProof.A) }},
	{"ip.B", func(v *vrun, p *BulletProof) { p.InnerProductProof.B = v.delta(p.InnerProductProof.B) }},
	{"ip.L", func(v *vrun, p *BulletProof) {
		if l := p.InnerProductProof.Ls; len(l) > 0 {
			i := v.r.Intn(len(l))
			l[i] = v.other(l[i])
		}
	}},
	{"ip.R", func(v *vrun, p *BulletProof) {
		if l := p.InnerProductProof.Rs; len(l) > 0 {
			i := v.r.Intn(len(l))
			l[i] = v.other(l[i])
		}
	}},
	{"one round more", func(v *vrun, p *BulletProof) {
		q := &p.InnerProductProof
		q.Ls, q.Rs = append(q.Ls, copt(&opt{})), append(q.Rs, copt(&opt{}))
	}},
	{"one round less", func(v *vrun, p *BulletProof) {
		q := &p.InnerProductProof
		if k := len(q.Ls); k > 0 {
			q.Ls, q.Rs = q.Ls[:k-1], q.Rs[:k-1]
		}
	}},
	{"one L more", func(v *vrun, p *BulletProof) {
		q := &p.InnerProductProof
		q.Ls = append(q.Ls, copt(oG))
	}},
	{"one R more", func(v *vrun, p *BulletProof) {
		q := &p.InnerProductProof
		q.Rs = append(q.Rs, copt(oG))
	}},
	{"one L less", func(v *vrun, p *BulletProof) {
		if q := &p.InnerProductProof; len(q.Ls) > 0 {
			q.Ls = q.Ls[:len(q.Ls)-1]
		}
	}},
	{"one R less", func(v *vrun, p *BulletProof) {
		if q := &p.InnerProductProof; len(q.Rs) > 0 {
			q.Rs = q.Rs[:len(q.Rs)-1]
		}
	}},
	{"no R", func(v *vrun, p *BulletProof) { p.InnerProductProof.Rs = nil }},
	{"H", func(v *vrun, p *BulletProof) { p.Params.H = v.other(p.Params.H) }},
	{"Gg", func(v *vrun, p *BulletProof) { i := v.r.Intn(int(p.Params.N)); p.Params.Gg[i] = v.other(p.Params.Gg[i]) }},
	{"Hh", func(v *vrun, p *BulletProof) { i := v.r.Intn(int(p.Params.N)); p.Params.Hh[i] = v.other(p.Params.Hh[i]) }},
}

// vcarried changes what a proof merely carries along
var vcarried = []struct {
	name string
	f    func(v *vrun, q *InnerProductProof)
}{
	{"ip.Params.P", func(v *vrun, q *InnerProductProof) { q.Params.P = v.other(q.Params.P) }},
	{"ip.Params.Uu", func(v *vrun, q *InnerProductProof) { q.Params.Uu = v.other(q.Params.Uu) }},
	{"ip.Params.H", func(v *vrun, q *InnerProductProof) { q.Params.H = v.other(q.Params.H) }},
	{"ip.Params.Gg", func(v *vrun, q *InnerProductProof) { q.Params.Gg[0] = v.other(q.Params.Gg[0]) }},
	{"ip.Params.Hh", func(v *vrun, q *InnerProductProof) { q.Params.Hh[0] = v.other(q.Params.Hh[0]) }},
	{"ip.Params.Cc", func(v *vrun, q *InnerProductProof) { q.Params.Cc = v.delta(q.Params.Cc) }},
	{"ip.U", func(v *vrun, q *InnerProductProof) { q.U = v.other(q.U) }},
	{"ip.P", func(v *vrun, q *InnerProductProof) { q.P = v.other(q.P) }},
	{"ip.Gg", func(v *vrun, q *InnerProductProof) { q.Gg = v.other(q.Gg) }},
	{"ip.Hh", func(v *vrun, q *InnerProductProof) { q.Hh = v.other(q.Hh) }},
	{"ip.N", func(v *vrun, q *InnerProductProof) { q.N = q.N*2 + 1 }},
	{"ip.Params.N", func(v *vrun, q *InnerProductProof) { q.Params.N = q.Params.N*2 + 1 }},
}

func (v *vrun) other(p *p256.P256) *p256.P256 {
	o := oof(p)
	switch v.r.Intn(4) {
	case 0:
		return copt(o.neg())
	case 1:
		return copt(o.add(o))
	case 2:
		return copt(oG.mul(v.num(oN)))
	}
	return copt(o.add(oG))
}

func (v *vrun) delta(x *big.Int) *big.Int {
	switch v.r.Intn(4) {
	case 0:
		return new(big.Int).Add(x, oN) // the same scalar
	case 1:
		return onn(new(big.Int).Neg(x))
	case 2:
		return v.num(oN)
	}
	return new(big.Int).Add(x, big.NewInt(1))
}

func (v *vrun) verdict(what string, n int64, p *BulletProof, want bool) {
	v.run(func() string { return fmt.Sprintf("n=%d, proof with %s: %s", n, what, vshow(p)) }, func() {
		if ok, _ := vcopyBP(p).Verify(); ok != want {
			v.fail("verdict %v, the equations say %v", ok, want)
		}
	})
}

func (v *vrun) c04(n int64) {
	p, err := Prove(v.inside(n), v.vsetup(n))
	if err != nil {
		return
	}
	q := vcopyBP(&p)
	ok, _, _, _ := overify(q)
	v.verdict("nothing changed", n, q, ok)
	for _, m := range vmutations {
		q = vcopyBP(&p)
		m.f(v, q)
		ok, _, _, _ = overify(q)
		v.verdict(m.name+" changed", n, q, ok)
	}
	for _, m := range vcarried {
		q = vcopyBP(&p)
		m.f(v, &q.InnerProductProof)
		v.verdict(m.name+" changed", n, q, true)
	}
	v.forge(n, vcopyBP(&p))
	v.binds(vcopyBP(&p))
}

// forge builds proofs in which all but one of the three conditions hold
func (v *vrun) forge(n int64, p *BulletProof) {
	par := p.Params
	check := func(what string, q *BulletProof) {
		ok, _, _, _ := overify(q)
		v.verdict(what, n, q, ok)
	}
	// a secret outside the range with responses that fit the equations one at a time
	q := vcopyBP(p)
	y, _, _ := HashBP(cpt(q.V), cpt(q.A), cpt(q.S))
	hp := updateGenerators(cpts(par.Hh), y, n)
	mk := func(a, b []*big.Int, c *big.Int) (*p256.P256, InnerProductProof) {
		ipp, _ := setupInnerProduct(par.H, par.Gg, hp, c, n)
		C := commitInnerProduct(par.Gg, hp, a, b)
		pr, _ := proveInnerProduct(a, b, C, ipp)
		return C, pr
	}
	var a, b []*big.Int
	for i := int64(0); i < n; i++ {
		a, b = append(a, v.num(oN)), append(b, v.num(oN))
	}
	// an inner product argument for other vectors: valid by itself, but it does not fit (67)
	c := oip(a, b)
	q.Commit, q.InnerProductProof = mk(a, b, c)
	check("an inner product argument for other vectors", q)
	q.Tprime = c
	check("an inner product argument and t for other vectors", q)
	// ... and Mu chosen so that its statement is carried along only
	q = vcopyBP(p)
	_, q.InnerProductProof = mk(a, b, c)
	check("an inner product argument for a commitment of its own", q)
	// a false inner product value
	q = vcopyBP(p)
	q.Tprime = onn(new(big.Int).Add(q.Tprime, big.NewInt(1)))
	check("another t", q)
	// (65) holds for another V: V' = V + (taux' - taux) h / z^2 needs a fresh challenge, so it must fail
	q = vcopyBP(p)
	_, z, _ := HashBP(cpt(q.V), cpt(q.A), cpt(q.S))
	q.V = copt(oof(q.V).add(oG.mul(omulN(big.NewInt(5), oinvN(omulN(z, z))))))
	q.Tprime = onn(new(big.Int).Add(q.Tprime, big.NewInt(5)))
	check("V shifted under the old challenge", q)
}

// binds: the challenges depend on every argument
func (v *vrun) binds(p *BulletProof) {
	v.run(func() string { return "challenges of " + vshow(p) }, func() {
		pts := []*p256.P256{p.V, p.A, p.S, p.T1, p.T2}
		for k := 2; k <= 5; k++ {
			r1, r2, _ := HashBP(pts[:k]...)
			s1, s2, _ := HashBP(pts[:k]...)
			if r1.Cmp(s1) != 0 || r2.Cmp(s2) != 0 {
				v.fail("the hash is not a function of the points")
			}
			if r1.Cmp(r2) == 0 {
				v.fail("the two challenges are equal")
			}
			for i := 0; i < k; i++ {
				alt := append([]*p256.P256{}, pts[:k]...)
				alt[i] = copt(oof(pts[i]).neg())
				t1, t2, _ := HashBP(alt...)
				if t1.Cmp(r1) == 0 || t2.Cmp(r2) == 0 {
					v.fail("a challenge does not depend on the sign of point %d", i+1)
				}
				alt[i] = copt(oof(pts[i]).add(oG))
				t1, t2, _ = HashBP(alt...)
				if t1.Cmp(r1) == 0 || t2.Cmp(r2) == 0 {
					v.fail("a challenge does not depend on point %d", i+1)
				}
			}
		}
		g, h := p.Params.Gg, p.Params.Hh
		n := p.Params.N
		w, _ := hashIP(g, h, p.Commit, p.Tprime, n)
		chk := func(what string, x *big.Int, err error) {
			if err == nil && x.Cmp(w) == 0 {
				v.fail("the inner product challenge does not depend on %s", what)
			}
		}
		x, err := hashIP(g, h, copt(oof(p.Commit).add(oG)), p.Tprime, n)
		chk("the commitment", x, err)
		x, err = hashIP(g, h, p.Commit, new(big.Int).Add(p.Tprime, big.NewInt(1)), n)
		chk("t", x, err)
		i := v.r.Intn(int(n))
		g2, h2 := append([]*p256.P256{}, g...), append([]*p256.P256{}, h...)
		g2[i], h2[i] = copt(oof(g[i]).add(oG)), copt(oof(h[i]).add(oG))
		x, err = hashIP(g2, h, p.Commit, p.Tprime, n)
		chk(fmt.Sprintf("g[%d]", i), x, err)
		x, err = hashIP(g, h2, p.Commit, p.Tprime, n)
		chk(fmt.Sprintf("h[%d]", i), x, err)
	})
}

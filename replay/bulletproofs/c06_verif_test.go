package bulletproofs

import (
	"fmt"
	"math/big"
	"testing"
)

func TestVerifC06(t *testing.T) {
	v := vstart(t)
	g0 := vglobals()
	unchanged := func(what, before, after string) {
		if before != after {
			v.fail("%s changed from %s to %s", what, before, after)
		}
	}
	for i := 0; v.more() || i < 6; i++ {
		n := v.vn()
		if i < 6 {
			n = vsizes[i]
		}
		s := v.inside(n)
		if v.r.Intn(4) == 0 {
			s = v.scalar(oN)
		}
		v.run(func() string { return fmt.Sprintf("range [0,2^%d) secret %v", n, s) }, func() {
			par := v.vsetup(n)
			ps, ss := vshow(par), s.String()
			p, err := Prove(s, par)
			unchanged("Prove: the parameters", ps, vshow(par))
			unchanged("Prove: the secret", ss, s.String())
			unchanged("Prove: package constants", g0, vglobals())
			if err != nil {
				return
			}
			if v.r.Intn(3) == 0 { // a proof that is wrong somewhere
				q := vcopyBP(&p)
				m := vmutations[v.r.Intn(len(vmutations))]
				m.f(v, q)
				p = *q
			}
			b := vshow(&p)
			r1, _ := p.Verify()
			unchanged("Verify: the proof", b, vshow(&p))
			unchanged("Verify: the parameters", ps, vshow(par))
			unchanged("Verify: package constants", g0, vglobals())
			q := vcopyBP(&p)
			for k := 0; k < 2; k++ {
				r2, _ := p.Verify()
				if r1 != r2 {
					v.fail("verdict %v, then %v", r1, r2)
				}
			}
			if r3, _ := q.Verify(); r3 != r1 {
				v.fail("verdict %v, for a copy %v", r1, r3)
			}
			if n <= 4 {
				v.history(&p, r1)
			}
			ip := p.InnerProductProof
			if len(ip.Ls) == len(ip.Rs) && 1<<uint(len(ip.Ls)) == int(n) {
				b = vshow(ip)
				r1, _ = ip.Verify()
				unchanged("InnerProductProof.Verify: the proof", b, vshow(ip))
				r2, _ := ip.Verify()
				if r1 != r2 {
					v.fail("inner product verdict %v, then %v", r1, r2)
				}
			}
		})
	}
	for i := 0; i < 2; i++ {
		a := int64(v.r.Intn(100))
		b := a + 1 + int64(v.r.Intn(1000))
		s := big.NewInt(a + int64(v.r.Intn(int(b-a))))
		v.run(func() string { return fmt.Sprintf("range [%d,%d) secret %v", a, b, s) }, func() {
			par, err := SetupGeneric(a, b)
			if err != nil {
				return
			}
			ps, ss := vshow(par), s.String()
			p, err := ProveGeneric(s, par)
			unchanged("ProveGeneric: the parameters", ps, vshow(par))
			unchanged("ProveGeneric: the secret", ss, s.String())
			if err != nil {
				return
			}
			b := vshow(p)
			r1, _ := p.Verify()
			unchanged("Verify: the generic proof", b, vshow(p))
			if r2, _ := p.Verify(); r1 != r2 {
				v.fail("generic verdict %v, then %v", r1, r2)
			}
			for k, m := range vmutations[:9] {
				q := ProofBPRP{*vcopyBP(&p.P1), *vcopyBP(&p.P2)}
				h := &q.P1
				if k%2 == 1 {
					h = &q.P2
				}
				m.f(v, h)
				w1, _, _, _ := overify(vcopyBP(&q.P1))
				w2, _, _, _ := overify(vcopyBP(&q.P2))
				if r, _ := q.Verify(); r != (w1 && w2) {
					v.fail("generic verdict %v after one of another proof, the equations say %v %v", r, w1, w2)
				}
			}
			if r2, _ := p.Verify(); r1 != r2 {
				v.fail("generic verdict %v, then %v", r1, r2)
			}
			unchanged("package constants", g0, vglobals())
		})
	}
	v.done()
}

// history: what has been verified before has no influence on a verdict
func (v *vrun) history(p *BulletProof, r1 bool) {
	var qs []*BulletProof
	var ws []bool
	for _, m := range vmutations {
		q := vcopyBP(p)
		m.f(v, q)
		w, _, _, _ := overify(vcopyBP(q))
		qs, ws = append(qs, q), append(ws, w)
	}
	for k := 0; k < 2; k++ {
		for i, q := range qs {
			if r, _ := vcopyBP(q).Verify(); r != ws[i] {
				v.fail("verdict %v for the proof with %s changed (%s), verified after others; its equations say %v", r, vmutations[i].name, vshow(q), ws[i])
			}
		}
		if r, _ := vcopyBP(p).Verify(); r != r1 {
			v.fail("verdict %v, and %v after others", r1, r)
		}
	}
}

package bulletproofs

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/ing-bank/zkrp/crypto/p256"
)

func TestVerifC05(t *testing.T) {
	v := vstart(t)
	for i := 0; v.more() || i < 12; i++ {
		n := v.vn()
		if i < 12 {
			n = vsizes[i/2]
		}
		v.c05(n)
	}
	v.done()
}

func (v *vrun) c05(n int64) {
	var a, b []*big.Int
	for i := int64(0); i < n; i++ {
		a, b = append(a, v.num(oN)), append(b, v.num(oN))
	}
	// vectors with zeros: everywhere, in one half, at the odd places
	pat := v.r.Intn(8)
	for i := range a {
		lo := i < len(a)/2
		switch {
		case pat == 1 && lo, pat == 2 && !lo, pat == 3 && i%2 == 0, pat == 4 && i != len(a)-1:
			a[i] = new(big.Int)
		}
		switch {
		case pat == 2 && lo, pat == 3 && i%2 == 1, pat == 4 && i != 0, pat == 5 && lo:
			b[i] = new(big.Int)
		}
	}
	c := oip(a, b)
	want := true
	k := v.r.Intn(4)
	switch k {
	case 1:
		c = onn(new(big.Int).Add(c, big.NewInt(1)))
		want = false
	case 2:
		c2 := v.num(oN)
		want = c2.Cmp(c) == 0
		c = c2
	}
	v.run(func() string { return fmt.Sprintf("a=%v b=%v c=%v", a, b, c) }, func() {
		var g, h []*p256.P256
		var H *p256.P256
		if v.r.Intn(4) != 0 {
			par := v.vsetup(n)
			g, h, H = par.Gg, par.Hh, par.H
			switch v.r.Intn(4) { // bases of the caller: opposite, equal
			case 0:
				g = append([]*p256.P256{}, g...)
				h = append([]*p256.P256{}, h...)
				for i := range g {
					switch v.r.Intn(3) {
					case 0:
						g[i] = copt(oof(g[v.r.Intn(i+1)]).neg())
					case 1:
						g[i] = g[v.r.Intn(i+1)]
					}
					switch v.r.Intn(4) {
					case 0:
						h[i] = copt(oof(g[i]).neg())
					case 1:
						h[i] = copt(oof(h[v.r.Intn(i+1)]).neg())
					case 2:
						h[i] = copt(oof(g[i]))
					}
				}
			}
		}
		sp, err := setupInnerProduct(H, g, h, c, n)
		if err != nil {
			v.fail("setupInnerProduct: %v", err)
		}
		if int64(len(sp.Gg)) != n || int64(len(sp.Hh)) != n {
			v.fail("%d and %d generators", len(sp.Gg), len(sp.Hh))
		}
		P := commitInnerProduct(sp.Gg, sp.Hh, a, b)
		C := osum(oofs(sp.Gg), a).add(osum(oofs(sp.Hh), b))
		if !C.is(P) {
			v.fail("the commitment is not g^a h^b")
		}
		as, bs := vshow(a), vshow(b)
		p, err := proveInnerProduct(a, b, P, sp)
		if err != nil {
			v.fail("proveInnerProduct: %v", err)
		}
		if vshow(a) != as || vshow(b) != bs {
			v.fail("proving changed a vector")
		}
		m := 0
		for int64(1)<<uint(m) < n {
			m++
		}
		if len(p.Ls) != m || len(p.Rs) != m || p.A == nil || p.B == nil {
			v.fail("%d and %d points, expected %d", len(p.Ls), len(p.Rs), m)
		}
		ok, err := p.Verify()
		if err != nil || ok != want {
			v.fail("verdict %v (%v), expected %v", ok, err, want)
		}
		w, _ := hashIP(sp.Gg, sp.Hh, P, c, n)
		u := oof(sp.Uu).mul(w)
		if oipverify(p.Ls, p.Rs, p.A, p.B, oofs(sp.Gg), oofs(sp.Hh), u, C.add(u.mul(c))) != want {
			v.fail("the published relation gives another verdict")
		}
		// the verifier on changed proofs
		for i := 0; i < 3; i++ {
			q := vcopyIPP(p)
			switch v.r.Intn(7) {
			case 0:
				q.A = onn(new(big.Int).Add(q.A, v.num(oN)))
			case 5: // another representative of the same residue
				q.A = new(big.Int).Add(q.A, new(big.Int).Mul(oN, big.NewInt(int64(v.r.Intn(7)-3))))
			case 6:
				q.B = new(big.Int).Add(q.B, new(big.Int).Mul(oN, big.NewInt(int64(v.r.Intn(7)-3))))
			case 1:
				q.B = onn(new(big.Int).Add(q.B, v.num(oN)))
			case 2:
				if m > 0 {
					j := v.r.Intn(m)
					q.Ls[j] = copt(oof(q.Ls[j]).add(oG.mul(v.num(oN))))
				}
			case 3:
				if m > 0 {
					j := v.r.Intn(m)
					q.Rs[j] = copt(oof(q.Rs[j]).neg())
				}
			case 4:
				q.Params.P = copt(oof(q.Params.P).add(oG.mul(v.num(oN))))
			}
			e := oipverify(q.Ls, q.Rs, q.A, q.B, oofs(q.Params.Gg), oofs(q.Params.Hh), oof(q.U), oof(q.Params.P))
			if ok, _ := q.Verify(); ok != e {
				v.fail("verdict %v for a changed proof, the relation says %v: %s", ok, e, vshow(q))
			}
		}
	})
}

package ccs08

import (
	"fmt"
	"math/big"
	"strconv"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"
)

func TestVerifC22S(t *testing.T) {
	v := vstart(t)
	for i := 0; v.more() || i < 4; i++ {
		r := new(big.Int).Rand(v.r, bn256.Order)
		if i%4 == 3 {
			a := v.r.Int63n(1000) - 500
			w := 2 + v.r.Int63n(100)
			x := a + v.r.Int63n(w)
			v.run(func() string { return fmt.Sprintf("interval [%d,%d) x=%d r=%v", a, a+w, x, r) }, func() { v.c22interval(a, a+w, x, r) })
			continue
		}
		if i%2 == 0 {
			s := []int64{int64(v.r.Uint64()) >> uint(v.r.Intn(40)) | 1, 3, -77}
			x := s[v.r.Intn(3)]
			v.run(func() string { return fmt.Sprintf("ProveSet, set %v, element %d, r=%v", s, x, r) }, func() { v.c22set(s, x, r) })
			continue
		}
		u, l := int64(2+v.r.Intn(12)), int64(1+v.r.Intn(3))
		x := new(big.Int)
		for j := int64(0); j < l; j++ { // no digit is 0: a response for 0 is the nonce itself
			x.Add(x.Mul(x, big.NewInt(u)), big.NewInt(1+v.r.Int63n(u-1)))
		}
		v.run(func() string { return fmt.Sprintf("ProveUL, u=%d l=%d x=%v r=%v", u, l, x, r) }, func() { v.c22ul(u, l, x, r) })
	}
	v.done()
}

func (v *vrun) c22set(s []int64, x int64, r *big.Int) {
	par, e := SetupSet(s)
	if e != nil {
		return
	}
	if k := par.kp.Privk; k.BitLen() < 200 {
		v.fail("private key of %d bits", k.BitLen())
	}
	var p proofSet
	rec := vrecord(func() { p, e = ProveSet(x, r, par) })
	if e != nil {
		return
	}
	all := rec.draws()
	secrets := []*big.Int{r}
	if x > 2 || x < -2 {
		secrets = append(secrets, big.NewInt(x))
	}
	v.nonces(all, 4, &p, secrets...)
	ds := append([]*big.Int{}, all...)
	v.masked("", par.signatures[x], p.V, p.a, big.NewInt(x), p.c, p.zsig, p.zv, &ds)
	v.inField("zr", p.zr)
	m := mod(new(big.Int).Add(p.zr, new(big.Int).Mul(r, p.c)))
	if take(&ds, func(d *big.Int) bool { return d.Cmp(m) == 0 }) == nil {
		v.fail("zr is not masked by a draw of its own")
	}
}

// c22interval: the two proofs of an interval do not share a draw
func (v *vrun) c22interval(a, b, x int64, r *big.Int) {
	var z ccs08
	z.x, z.r = big.NewInt(x), new(big.Int).Set(r)
	if z.Setup(a, b) != nil {
		return
	}
	var e error
	rec := vrecord(func() { e = z.Prove() })
	if e != nil {
		return
	}
	l := int(z.p.p.l)
	all := rec.draws()
	if len(all) < 2*(3*l+1) {
		v.fail("%d draws below the order from the system source, at least %d are needed", len(all), 2*(3*l+1))
	}
	seen := map[string]bool{}
	for _, d := range all {
		if seen[d.String()] {
			v.fail("a draw is repeated")
		}
		seen[d.String()] = true
	}
	for i, p := range []proofUL{z.proof_out.p1, z.proof_out.p2} {
		v.inField(fmt.Sprintf("p%d.zr", i+1), p.zr)
		m := mod(new(big.Int).Add(p.zr, new(big.Int).Mul(r, p.c)))
		if take(&all, func(d *big.Int) bool { return d.Cmp(m) == 0 }) == nil {
			v.fail("p%d.zr is not masked by a draw of its own", i+1)
		}
		for j := range p.zsig {
			v.inField(fmt.Sprintf("p%d.zsig%d", i+1, j), p.zsig[j])
			v.inField(fmt.Sprintf("p%d.zv%d", i+1, j), p.zv[j])
		}
	}
}

func (v *vrun) inField(n string, z *big.Int) {
	if z.Sign() < 0 || z.Cmp(bn256.Order) >= 0 {
		v.fail("%s = %v is not reduced: it shows more than its residue", n, z)
	}
}

// masked: V = sig^w, zsig = s - x c, zv = t - w c for draws of their own
func (v *vrun) masked(i string, sig, V *bn256.G2, a *bn256.GT, x, c, zsig, zv *big.Int, ds *[]*big.Int) *big.Int {
	w := take(ds, func(d *big.Int) bool { return g2eq(g2mul(sig, d), V) })
	if w == nil {
		v.fail("V%s is not blinded by a draw of its own", i)
	}
	v.inField("zsig"+i, zsig)
	v.inField("zv"+i, zv)
	s := mod(new(big.Int).Add(zsig, new(big.Int).Mul(x, c)))
	t := mod(new(big.Int).Add(zv, new(big.Int).Mul(w, c)))
	if take(ds, func(d *big.Int) bool { return d.Cmp(s) == 0 }) == nil {
		v.fail("zsig%s is not masked by a draw of its own", i)
	}
	if take(ds, func(d *big.Int) bool { return d.Cmp(t) == 0 }) == nil {
		v.fail("zv%s is not masked by a draw of its own", i)
	}
	if v.r.Intn(3) == 0 && !gteq(a, ann(V, s, t)) {
		v.fail("a%s is not masked by the draws of the responses", i)
	}
	return s
}

func (v *vrun) c22ul(u, l int64, x, r *big.Int) {
	par, e := SetupUL(u, l)
	if e != nil {
		return
	}
	var p proofUL
	rec := vrecord(func() { p, e = ProveUL(x, r, par) })
	if e != nil {
		return
	}
	all := rec.draws()
	v.nonces(all, int(3*l+1), &p, r)
	ds := append([]*big.Int{}, all...)
	rest := new(big.Int).Set(x)
	for i := int64(0); i < l; i++ {
		d := new(big.Int)
		rest.DivMod(rest, big.NewInt(u), d)
		v.masked(strconv.FormatInt(i, 10), par.signatures[d.String()], p.V[i], p.a[i], d, p.c, p.zsig[i], p.zv[i], &ds)
	}
	v.inField("zr", p.zr)
	m := mod(new(big.Int).Add(p.zr, new(big.Int).Mul(r, p.c)))
	if take(&ds, func(d *big.Int) bool { return d.Cmp(m) == 0 }) == nil {
		v.fail("zr is not masked by a draw of its own")
	}
}

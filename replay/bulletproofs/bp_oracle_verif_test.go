package bulletproofs

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"math/big"
	"reflect"

	"github.com/ing-bank/zkrp/crypto/p256"
)

// an independent verifier of the published equations on affine textbook arithmetic; only the
// Fiat-Shamir hashes are those of the code under test

func onn(x *big.Int) *big.Int { return new(big.Int).Mod(x, oN) }

func omulN(a, b *big.Int) *big.Int { return onn(new(big.Int).Mul(a, b)) }

func oinvN(a *big.Int) *big.Int { return new(big.Int).ModInverse(a, oN) }

func osum(gs []*opt, xs []*big.Int) *opt {
	r := &opt{}
	for i := range gs {
		r = r.add(gs[i].mul(xs[i]))
	}
	return r
}

func oofs(ps []*p256.P256) []*opt {
	var r []*opt
	for _, p := range ps {
		r = append(r, oof(p))
	}
	return r
}

func oip(a, b []*big.Int) *big.Int {
	r := new(big.Int)
	for i := range a {
		r.Add(r, new(big.Int).Mul(a[i], b[i]))
	}
	return onn(r)
}

func copt(o *opt) *p256.P256 {
	if o.x == nil {
		return &p256.P256{}
	}
	return &p256.P256{X: new(big.Int).Set(o.x), Y: new(big.Int).Set(o.y)}
}

func cbig(x *big.Int) *big.Int { return new(big.Int).Set(x) }

func cpt(p *p256.P256) *p256.P256 {
	if p == nil {
		return nil
	}
	r := &p256.P256{}
	if p.X != nil {
		r.X = cbig(p.X)
	}
	if p.Y != nil {
		r.Y = cbig(p.Y)
	}
	return r
}

func cpts(ps []*p256.P256) []*p256.P256 {
	if ps == nil {
		return nil
	}
	r := make([]*p256.P256, len(ps))
	for i := range ps {
		r[i] = cpt(ps[i])
	}
	return r
}

// oipverify evaluates the inner product relation of a proof for given generators, base u and commitment P
func oipverify(Ls, Rs []*p256.P256, A, B *big.Int, g, h []*opt, u, P *opt) bool {
	g, h = append([]*opt{}, g...), append([]*opt{}, h...)
	for i := range Ls {
		x, _, _ := HashBP(cpt(Ls[i]), cpt(Rs[i]))
		xi := oinvN(x)
		n := len(g) / 2
		var g2, h2 []*opt
		for j := 0; j < n; j++ {
			g2 = append(g2, g[j].mul(xi).add(g[n+j].mul(x)))
			h2 = append(h2, h[j].mul(x).add(h[n+j].mul(xi)))
		}
		g, h = g2, h2
		P = P.add(oof(Ls[i]).mul(omulN(x, x))).add(oof(Rs[i]).mul(omulN(xi, xi)))
	}
	r := g[0].mul(A).add(h[0].mul(B)).add(u.mul(omulN(A, B)))
	return r.eq(P)
}

func oseedu() *opt {
	p, _ := p256.MapToGroup("BulletproofsDoesNotNeedTrustedSetupU")
	return oof(p)
}

func overify(p *BulletProof) (ok bool, c65, c67, cip bool) {
	n := int(p.Params.N)
	V, A, S, T1, T2 := oof(p.V), oof(p.A), oof(p.S), oof(p.T1), oof(p.T2)
	H, Gg, Hh := oof(p.Params.H), oofs(p.Params.Gg), oofs(p.Params.Hh)
	x, _, _ := HashBP(cpt(p.V), cpt(p.A), cpt(p.S), cpt(p.T1), cpt(p.T2))
	y, z, _ := HashBP(cpt(p.V), cpt(p.A), cpt(p.S))
	yi, z2, x2 := oinvN(y), omulN(z, z), omulN(x, x)
	sy, s2 := new(big.Int), new(big.Int)
	yp := []*big.Int{}
	var h1 []*opt
	yy, yyi := big.NewInt(1), big.NewInt(1)
	for i := 0; i < n; i++ {
		yp = append(yp, yy)
		h1 = append(h1, Hh[i].mul(yyi))
		sy.Add(sy, yy)
		s2.Add(s2, new(big.Int).Lsh(big.NewInt(1), uint(i)))
		yy, yyi = omulN(yy, y), omulN(yyi, yi)
	}
	d := new(big.Int).Mul(new(big.Int).Sub(z, z2), sy)
	d.Sub(d, new(big.Int).Mul(omulN(z2, z), s2))
	l := oG.mul(p.Tprime).add(H.mul(p.Taux))
	r := V.mul(z2).add(oG.mul(d)).add(T1.mul(x)).add(T2.mul(x2))
	c65 = l.eq(r)
	l = A.add(S.mul(x))
	for i := 0; i < n; i++ {
		l = l.add(Gg[i].mul(new(big.Int).Neg(z)))
		e := new(big.Int).Mul(z, yp[i])
		e.Add(e, new(big.Int).Mul(z2, new(big.Int).Lsh(big.NewInt(1), uint(i))))
		l = l.add(h1[i].mul(e))
	}
	C := oof(p.Commit)
	c67 = l.eq(H.mul(p.Mu).add(C))
	ip := p.InnerProductProof
	if len(ip.Ls) == len(ip.Rs) && len(ip.Ls) < 40 && 1<<uint(len(ip.Ls)) == n {
		var hp []*p256.P256
		for _, o := range h1 {
			hp = append(hp, copt(o))
		}
		w, _ := hashIP(cpts(p.Params.Gg), hp, cpt(p.Commit), cbig(p.Tprime), int64(n))
		u := oseedu().mul(w)
		cip = oipverify(ip.Ls, ip.Rs, ip.A, ip.B, Gg, h1, u, C.add(u.mul(p.Tprime)))
	}
	return c65 && c67 && cip, c65, c67, cip
}

// ---------------------------------------------------------------- randomness
// vreader records what the code reads from the system source
type vreader struct {
	src  io.Reader
	data []byte
}

func (r *vreader) Read(p []byte) (int, error) {
	n, err := r.src.Read(p)
	r.data = append(r.data, p[:n]...)
	return n, err
}

func vrecord(f func()) *vreader {
	old := rand.Reader
	r := &vreader{src: old}
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
	return r
}

// vbias delivers, every other time, numbers that are unlikely otherwise: zero, small, with zeros at the end
type vbias struct {
	src io.Reader
	v   *vrun
}

func (r *vbias) Read(p []byte) (int, error) {
	n, err := r.src.Read(p)
	k := 0
	if n > 0 {
		k = r.v.r.Intn(n)
	}
	lo, hi := n, n
	switch r.v.r.Intn(8) {
	case 0:
		lo = 0
	case 1:
		lo, hi = 0, k
	case 2:
		lo = k
	case 3:
		lo, hi = 0, n-1
	}
	for i := lo; i < hi; i++ {
		p[i] = 0
	}
	return n, err
}

func (v *vrun) biased(f func()) {
	old := rand.Reader
	if v.r.Intn(2) == 0 {
		rand.Reader = &vbias{old, v}
	}
	defer func() { rand.Reader = old }()
	f()
}

// draws are the 32-byte numbers read that are below the order, in the way of rand.Int
func (r *vreader) draws() []*big.Int {
	var out []*big.Int
	for i := 0; i+32 <= len(r.data); i += 32 {
		x := new(big.Int).SetBytes(r.data[i : i+32])
		if x.Cmp(oN) < 0 {
			out = append(out, x)
		}
	}
	return out
}

// ---------------------------------------------------------------- snapshots
func vdump(b *bytes.Buffer, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		if x, ok := v.Interface().(*big.Int); ok {
			b.WriteString(x.String() + ";")
			return
		}
		vdump(b, v.Elem(), depth+1)
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(big.Int{}) {
			x := v.Interface().(big.Int)
			b.WriteString(x.String() + ";")
			return
		}
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				b.WriteString(v.Type().Field(i).Name + ":")
				vdump(b, v.Field(i), depth+1)
			}
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			vdump(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	default:
		fmt.Fprintf(b, "%v;", v.Interface())
	}
}

func vshow(x interface{}) string {
	var b bytes.Buffer
	vdump(&b, reflect.ValueOf(x), 0)
	return b.String()
}

// vnums lists the numbers a value holds, with the field they are in
func vnums(v reflect.Value, path string, out map[string]*big.Int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if x, ok := v.Interface().(*big.Int); ok {
			out[path] = x
			return
		}
		vnums(v.Elem(), path, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				vnums(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			vnums(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Int64:
		out[path] = big.NewInt(v.Int())
	}
}

func vglobals() string {
	return fmt.Sprint(ORDER, SEEDH, SEEDU, MAX_RANGE_END, MAX_RANGE_END_EXPONENT, p256.CURVE.P, p256.CURVE.N, p256.CURVE.B,
		p256.CURVE.Gx, p256.CURVE.Gy)
}

var vsetups = map[int64]*BulletProofSetupParams{}

// vsetup returns parameters for [0, 2^n), computed once; they are shared by all proofs of a run
func (v *vrun) vsetup(n int64) BulletProofSetupParams {
	if p := vsetups[n]; p != nil {
		return *p
	}
	p, err := Setup(int64(1) << uint(n))
	if err != nil {
		v.fail("Setup(2^%d): %v", n, err)
	}
	vsetups[n] = &p
	return p
}

var vsizes = []int64{1, 2, 4, 8, 16, 32}

// vn prefers small sizes
func (v *vrun) vn() int64 {
	if v.r.Intn(8) == 0 {
		return vsizes[4+v.r.Intn(2)]
	}
	return vsizes[v.r.Intn(4)]
}

func (v *vrun) inside(n int64) *big.Int {
	top := new(big.Int).Lsh(big.NewInt(1), uint(n))
	return v.num(top)
}

func vcopyParams(p BulletProofSetupParams) BulletProofSetupParams {
	return BulletProofSetupParams{N: p.N, G: cpt(p.G), H: cpt(p.H), Gg: cpts(p.Gg), Hh: cpts(p.Hh),
		InnerProductParams: vcopyIP(p.InnerProductParams)}
}

func vcopyIP(p InnerProductParams) InnerProductParams {
	r := InnerProductParams{N: p.N, Uu: cpt(p.Uu), H: cpt(p.H), Gg: cpts(p.Gg), Hh: cpts(p.Hh), P: cpt(p.P)}
	if p.Cc != nil {
		r.Cc = cbig(p.Cc)
	}
	return r
}

func vcopyIPP(p InnerProductProof) InnerProductProof {
	r := InnerProductProof{N: p.N, Ls: cpts(p.Ls), Rs: cpts(p.Rs), U: cpt(p.U), P: cpt(p.P), Gg: cpt(p.Gg), Hh: cpt(p.Hh),
		Params: vcopyIP(p.Params)}
	if p.A != nil {
		r.A = cbig(p.A)
	}
	if p.B != nil {
		r.B = cbig(p.B)
	}
	return r
}

func vcopyBP(p *BulletProof) *BulletProof {
	return &BulletProof{V: cpt(p.V), A: cpt(p.A), S: cpt(p.S), T1: cpt(p.T1), T2: cpt(p.T2), Taux: cbig(p.Taux), Mu: cbig(p.Mu),
		Tprime: cbig(p.Tprime), InnerProductProof: vcopyIPP(p.InnerProductProof), Commit: cpt(p.Commit), Params: vcopyParams(p.Params)}
}

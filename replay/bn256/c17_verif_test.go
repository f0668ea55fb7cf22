package bn256

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"
)

func TestVerifC17(t *testing.T) {
	v := vstart(t)
	for v.more() {
		v.c17g1()
		v.c17g2()
		v.c17gt()
	}
	v.done()
}

func enc32(xs ...*big.Int) []byte {
	var r []byte
	for _, x := range xs {
		b := new(big.Int).Mod(x, oP).Bytes()
		r = append(append(r, make([]byte, 32-len(b))...), b...)
	}
	return r
}

func raw32(xs ...*big.Int) []byte {
	var r []byte
	for _, x := range xs {
		b := x.Bytes()
		r = append(append(r, make([]byte, 32-len(b))...), b...)
	}
	return r
}

// any representation of infinity the operations produce
func (v *vrun) inf1() *curvePoint {
	if v.r.Intn(2) == 0 {
		return v.jac1(apt{inf: true})
	}
	return &curvePoint{v.num(oP), v.num(oP), new(big.Int), v.num(oP)}
}

// a small coordinate now and then, so that encodings have leading zero bytes
func (v *vrun) c17log() *big.Int {
	if v.r.Intn(3) == 0 {
		return big.NewInt(int64(v.r.Intn(300)))
	}
	return v.log17()
}

func (v *vrun) log17() *big.Int {
	if v.r.Intn(4) == 0 {
		return new(big.Int).Sub(oR, big.NewInt(int64(v.r.Intn(3))))
	}
	return new(big.Int).Rand(v.r, oR)
}

func on1(x, y *big.Int) bool {
	d := new(big.Int).Mul(x, new(big.Int).Mul(x, x))
	d.Add(d, big.NewInt(3))
	d.Sub(new(big.Int).Mul(y, y), d)
	return d.Mod(d, oP).Sign() == 0
}

var twb = pol2(&gfP2{og("266929791119991161246907387137283842545076965332900288569378510910307636690"), og("19485874751759354771024239261021720505790618469301721065564631296452457478373")})

func on2(m []*big.Int) bool {
	x, y := pol2(&gfP2{m[0], m[1]}), pol2(&gfP2{m[2], m[3]})
	return y.mul(y).sub(x.mul(x).mul(x)).sub(twb).zero()
}

func below(m []*big.Int) bool {
	for _, x := range m {
		if x.Cmp(oP) >= 0 {
			return false
		}
	}
	return true
}

// byte strings of the wrong length
func (v *vrun) badlen(b []byte) []byte {
	switch v.r.Intn(6) {
	case 0:
		return nil
	case 1:
		return b[:v.r.Intn(len(b))]
	case 2:
		return b[:len(b)-1]
	case 3:
		return append(append([]byte{}, b...), 0)
	case 4:
		return append([]byte{0}, b...)
	}
	return append(append([]byte{}, b...), make([]byte, 1+v.r.Intn(400))...)
}

// changes an encoding a little
func (v *vrun) disturb(b []byte) []byte {
	r := append([]byte{}, b...)
	switch v.r.Intn(6) {
	case 0:
		r[v.r.Intn(len(r))] ^= 1 << uint(v.r.Intn(8))
	case 1: // swap two coordinates
		i, j := v.r.Intn(len(r)/32)*32, v.r.Intn(len(r)/32)*32
		x := append([]byte{}, r[i:i+32]...)
		copy(r[i:], r[j:j+32])
		copy(r[j:], x)
	case 2: // replace a coordinate
		i := v.r.Intn(len(r)/32) * 32
		copy(r[i:], raw32(v.num(oP)))
	case 3:
		for i := range r {
			r[i] = 0
		}
		for k := v.r.Intn(4); k > 0; k-- {
			r[v.r.Intn(len(r)/32)*32+31] = byte(v.r.Intn(4))
		}
	case 4:
		v.r.Read(r)
	case 5: // negate a coordinate
		i := v.r.Intn(len(r)/32) * 32
		x := new(big.Int).Neg(new(big.Int).SetBytes(r[i : i+32]))
		copy(r[i:], raw32(x.Mod(x, oP)))
	}
	return r
}

func split32(b []byte) (r []*big.Int) {
	for i := 0; i+32 <= len(b); i += 32 {
		r = append(r, new(big.Int).SetBytes(b[i:i+32]))
	}
	return
}

func (v *vrun) c17g1() {
	k := v.c17log()
	p := oG1.mul(k)
	var e *G1
	mk := func() *G1 {
		if p.inf {
			return &G1{v.inf1()}
		}
		return &G1{v.jac1(p)}
	}
	e = mk()
	rep := vals(parts1(e.p))
	ctx := func() string { return fmt.Sprintf("G1 encoding of g^%v given as %v", k, rep) }
	var b []byte
	v.run(ctx, func() {
		b = e.Marshal()
		if !aff1(e.p).equal(p) {
			v.fail("the element changed to %v", aff1(e.p))
		}
		if !p.inf && !bytes.Equal(b, enc32(p.x[0], p.y[0])) {
			v.fail("encoding %x, want %x", b, enc32(p.x[0], p.y[0]))
		}
		if p.inf && (len(b) != 64 || !bytes.Equal(b, mk().Marshal())) {
			v.fail("encoding of infinity %x", b)
		}
		if !bytes.Equal(e.Marshal(), b) {
			v.fail("a second call gives another encoding")
		}
		v.keep("an encoding", func() string { return fmt.Sprintf("%x", b) })
		if s := mk().String(); s != mk().String() || !p.inf && s == (&G1{v.jac1(p.neg())}).String() {
			v.fail("String gives %q", s)
		}
		keep := append([]byte{}, b...)
		d := new(G1)
		if v.r.Intn(2) == 0 {
			d.p = v.jac1(oG1.mul(v.log17()))
		}
		got, ok := d.Unmarshal(b)
		if !ok || got == nil || !aff1(got.p).equal(p) || !aff1(d.p).equal(p) {
			v.fail("decoding gives %v %v", got, ok)
		}
		if !bytes.Equal(b, keep) {
			v.fail("decoding changed the bytes")
		}
		// the decoded element does not depend on the bytes any more
		b[5] ^= 0xff
		if !aff1(d.p).equal(p) {
			v.fail("the decoded element shares the bytes")
		}
		copy(b, keep)
		if !bytes.Equal(got.Marshal(), b) {
			v.fail("the decoded element is encoded differently")
		}
	})
	m := v.badlen(b)
	v.run(func() string { return fmt.Sprintf("G1.Unmarshal of %d bytes", len(m)) }, func() {
		if _, ok := new(G1).Unmarshal(m); ok {
			v.fail("accepted")
		}
	})
	m = v.disturb(b)
	v.run(func() string { return fmt.Sprintf("G1.Unmarshal of %x", m) }, func() {
		c := split32(m)
		got, ok := new(G1).Unmarshal(m)
		inf := c[0].Sign() == 0 && (c[1].Sign() == 0 || c[1].Cmp(big.NewInt(1)) == 0)
		if ok && !inf && !on1(c[0], c[1]) {
			v.fail("a point off the curve is accepted")
		}
		if ok && !inf && !aff1(got.p).equal(apt{false, fpol(c[0]), fpol(c[1])}) || ok && inf && !aff1(got.p).inf {
			v.fail("decoded as %v", aff1(got.p))
		}
		if !ok && !inf && on1(c[0], c[1]) && below(c) {
			v.fail("a point of the curve is refused")
		}
	})
}

func (v *vrun) c17g2() {
	k := v.c17log()
	p := oG2.mul(k)
	mk := func() *G2 {
		if p.inf && v.r.Intn(2) == 0 {
			return &G2{&twistPoint{v.gf2(), v.gf2(), mk2(polc(0)), v.gf2()}}
		}
		return &G2{v.jac2(p)}
	}
	e := mk()
	rep := vals(parts2(e.p))
	ctx := func() string { return fmt.Sprintf("G2 encoding of g^%v given as %v", k, rep) }
	var b []byte
	v.run(ctx, func() {
		b = e.Marshal()
		if !aff2(e.p).equal(p) {
			v.fail("the element changed to %v", aff2(e.p))
		}
		if !p.inf {
			a, c := uncoef(p.x)
			d, f := uncoef(p.y)
			if want := enc32(a, c, d, f); !bytes.Equal(b, want) {
				v.fail("encoding %x, want %x", b, want)
			}
		}
		if p.inf && (len(b) != 128 || !bytes.Equal(b, mk().Marshal())) {
			v.fail("encoding of infinity %x", b)
		}
		if !bytes.Equal(e.Marshal(), b) {
			v.fail("a second call gives another encoding")
		}
		v.keep("an encoding", func() string { return fmt.Sprintf("%x", b) })
		if s := mk().String(); s != mk().String() || !p.inf && s == (&G2{v.jac2(p.neg())}).String() {
			v.fail("String gives %q", s)
		}
		keep := append([]byte{}, b...)
		d := new(G2)
		if v.r.Intn(2) == 0 {
			d.p = v.jac2(oG2.mul(v.log17()))
		}
		got, ok := d.Unmarshal(b)
		if !ok || got == nil || !aff2(got.p).equal(p) || !aff2(d.p).equal(p) {
			v.fail("decoding gives %v %v", got, ok)
		}
		if !bytes.Equal(b, keep) {
			v.fail("decoding changed the bytes")
		}
		if !bytes.Equal(got.Marshal(), b) {
			v.fail("the decoded element is encoded differently")
		}
	})
	m := v.badlen(b)
	v.run(func() string { return fmt.Sprintf("G2.Unmarshal of %d bytes", len(m)) }, func() {
		if _, ok := new(G2).Unmarshal(m); ok {
			v.fail("accepted")
		}
	})
	m = v.disturb(b)
	v.run(func() string { return fmt.Sprintf("G2.Unmarshal of %x", m) }, func() {
		c := split32(m)
		got, ok := new(G2).Unmarshal(m)
		inf := c[0].Sign() == 0 && c[1].Sign() == 0 && c[2].Sign() == 0 && c[3].Sign() == 0
		if ok && !inf && !on2(c) {
			v.fail("a point off the curve is accepted")
		}
		want := apt{false, pol2(&gfP2{c[0], c[1]}), pol2(&gfP2{c[2], c[3]})}
		if ok && !inf && !aff2(got.p).equal(want) || ok && inf && !aff2(got.p).inf {
			v.fail("decoded as %v", aff2(got.p))
		}
	})
}

func (v *vrun) c17gt() {
	a := v.gf12()
	if v.r.Intn(8) == 0 {
		a.SetOne()
	}
	e := &GT{a}
	before := vals(partsF12(a))
	p := pol12(a)
	v.run(func() string { return fmt.Sprintf("GT encoding of %v", before) }, func() {
		b := e.Marshal()
		var w []*big.Int
		for _, x := range before {
			n, _ := new(big.Int).SetString(x, 10)
			w = append(w, n)
		}
		if want := enc32(w...); !bytes.Equal(b, want) {
			v.fail("encoding %x, want %x", b, want)
		}
		if !pol12(e.p).equal(p) {
			v.fail("the element changed")
		}
		keep := append([]byte{}, b...)
		d := new(GT)
		if v.r.Intn(2) == 0 {
			d.p = v.gf12()
		}
		got, ok := d.Unmarshal(b)
		if !ok || !pol12(got.p).equal(p) || !pol12(d.p).equal(p) || !bytes.Equal(b, keep) || !bytes.Equal(got.Marshal(), b) {
			v.fail("decoding gives %v %v", got, ok)
		}
		if got.String() != e.String() {
			v.fail("the decoded element is printed differently")
		}
		if m := v.badlen(b); true {
			if _, ok := new(GT).Unmarshal(m); ok {
				v.fail("%d bytes accepted", len(m))
			}
		}
	})
}

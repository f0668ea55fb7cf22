package ccs08

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"unsafe"

	"github.com/ing-bank/zkrp/crypto/bn256"
)

type vreader struct {
	src  io.Reader
	data []byte
}

func (r *vreader) Read(b []byte) (int, error) {
	n, e := r.src.Read(b)
	r.data = append(r.data, b[:n]...)
	return n, e
}

func vrecord(f func()) *vreader {
	old := rand.Reader
	r := &vreader{src: old}
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
	return r
}

var mask = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bn256.Order.BitLen())), big.NewInt(1))

// draws are the numbers read that are below the order, in the way of rand.Int
func (r *vreader) draws() []*big.Int {
	var out []*big.Int
	for i := 0; i+32 <= len(r.data); i += 32 {
		x := new(big.Int).SetBytes(r.data[i : i+32])
		x.And(x, mask)
		if x.Cmp(bn256.Order) < 0 {
			out = append(out, x)
		}
	}
	return out
}

// open makes unexported fields readable
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() && !v.CanInterface() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// nums collects the numbers in a value
func nums(v reflect.Value, path string, out map[string]*big.Int) {
	v = open(v)
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch x := v.Interface().(type) {
		case *big.Int:
			out[path] = x
			return
		case *bn256.G1, *bn256.G2, *bn256.GT:
			return
		}
		nums(v.Elem(), path, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			nums(v.Field(i), path+"."+v.Type().Field(i).Name, out)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			nums(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Int64, reflect.Int:
		out[path] = big.NewInt(v.Int())
	}
}

// dump writes a value down
func dump(v reflect.Value, b *bytes.Buffer) {
	v = open(v)
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		switch x := v.Interface().(type) {
		case *big.Int:
			b.WriteString(x.String() + ";")
			return
		case *bn256.G1:
			b.WriteString(x.String() + ";")
			return
		case *bn256.G2:
			b.WriteString(x.String() + ";")
			return
		case *bn256.GT:
			b.WriteString(x.String() + ";")
			return
		}
		dump(v.Elem(), b)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dump(v.Field(i), b)
		}
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "[%d]", v.Len())
		for i := 0; i < v.Len(); i++ {
			dump(v.Index(i), b)
		}
	case reflect.Map:
		fmt.Fprintf(b, "map[%d]", v.Len())
	case reflect.Int64, reflect.Int:
		fmt.Fprintf(b, "%d;", v.Int())
	}
}

// shown writes down what the pointers point to
func shown(ps ...interface{}) string {
	var b bytes.Buffer
	for _, p := range ps {
		dump(reflect.ValueOf(p), &b)
	}
	return b.String()
}

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, bn256.Order) }

func g2(k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(mod(k)) }

func g2mul(p *bn256.G2, k *big.Int) *bn256.G2 { return new(bn256.G2).ScalarMult(p, mod(k)) }

func g2add(a, b *bn256.G2) *bn256.G2 { return new(bn256.G2).Add(a, b) }

func g2eq(a, b *bn256.G2) bool { return bytes.Equal(a.Marshal(), b.Marshal()) }

func gteq(a, b *bn256.GT) bool { return bytes.Equal(a.Marshal(), b.Marshal()) }

var og1 = new(bn256.G1).ScalarBaseMult(big.NewInt(1))

// announcement e(g, V)^-s e(g, g)^t
func ann(V *bn256.G2, s, t *big.Int) *bn256.GT {
	p := bn256.Pair(og1, V)
	p = new(bn256.GT).ScalarMult(p, mod(new(big.Int).Neg(s)))
	q := new(bn256.GT).ScalarMult(bn256.Pair(og1, g2(big.NewInt(1))), mod(t))
	return new(bn256.GT).Add(p, q)
}

// pairing equation e(y, V)^c e(g, V)^-zsig e(g, g)^zv
func pairing(y *bn256.G1, V *bn256.G2, c, zsig, zv *big.Int) *bn256.GT {
	p := new(bn256.GT).ScalarMult(bn256.Pair(y, V), mod(c))
	return new(bn256.GT).Add(p, ann(V, zsig, zv))
}

func digest(b []byte) [32]byte { return sha256.Sum256(b) }

// nonces reports draws that are repeated, small or published
func (v *vrun) nonces(all []*big.Int, n int, p interface{}, secrets ...*big.Int) {
	if len(all) < n {
		v.fail("%d draws below the order from the system source, at least %d are needed", len(all), n)
	}
	seen := map[string]bool{}
	long := 0
	for _, d := range all {
		if seen[d.String()] {
			v.fail("a draw is repeated")
		}
		seen[d.String()] = true
		if d.BitLen() > 240 {
			long++
		}
	}
	if long*2 < len(all) {
		v.fail("the draws do not cover the scalar field")
	}
	out := map[string]*big.Int{}
	nums(reflect.ValueOf(p), "proof", out)
	for path, x := range out {
		if x.Sign() == 0 {
			continue
		}
		for _, d := range append(append([]*big.Int{}, all...), secrets...) {
			if mod(x).Cmp(mod(d)) == 0 {
				v.fail("%s publishes a nonce or secret", path)
			}
		}
	}
}

// take finds and removes the draw that makes f true
func take(ds *[]*big.Int, f func(d *big.Int) bool) *big.Int {
	for i, d := range *ds {
		if f(d) {
			*ds = append(append([]*big.Int{}, (*ds)[:i]...), (*ds)[i+1:]...)
			return d
		}
	}
	return nil
}

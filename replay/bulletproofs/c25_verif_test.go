package bulletproofs

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"testing"

	"github.com/ing-bank/zkrp/crypto/p256"
)

// vsame shows a value as its exported fields; the two representations of infinity count as one
func vsame(b *bytes.Buffer, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		if x, ok := v.Interface().(*p256.P256); ok {
			if x.X == nil || x.Y == nil || x.X.Sign() == 0 && x.Y.Sign() == 0 {
				b.WriteString("infinity;")
			} else {
				fmt.Fprintf(b, "(%v,%v);", x.X, x.Y)
			}
			return
		}
		if x, ok := v.Interface().(*big.Int); ok {
			b.WriteString(x.String() + ";")
			return
		}
		vsame(b, v.Elem())
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				b.WriteString(v.Type().Field(i).Name + ":")
				vsame(b, v.Field(i))
			}
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			vsame(b, v.Index(i))
		}
		b.WriteString("]")
	default:
		fmt.Fprintf(b, "%v;", v.Interface())
	}
}

func vsames(x interface{}) string {
	var b bytes.Buffer
	vsame(&b, reflect.ValueOf(x))
	return b.String()
}

// vthrough encodes in, a value or a pointer, and decodes into out
func (v *vrun) vthrough(in interface{}, out interface{}) {
	s := vsames(in)
	for i := 0; i < 2; i++ {
		x := in
		if i == 1 {
			x = reflect.ValueOf(in).Elem().Interface()
		}
		e, err := json.Marshal(x)
		if err != nil {
			v.fail("Marshal: %v", err)
		}
		if i == 1 { // spacing does not matter
			var b bytes.Buffer
			if err := json.Indent(&b, e, " ", "\t"); err != nil {
				v.fail("Indent: %v", err)
			}
			e = b.Bytes()
		}
		reflect.ValueOf(out).Elem().Set(reflect.Zero(reflect.TypeOf(out).Elem()))
		if err := json.Unmarshal(e, out); err != nil {
			v.fail("Unmarshal of %s: %v", e, err)
		}
		if a := vsames(out); a != s {
			v.fail("%s decodes as %s", s, a)
		}
		if a := vsames(in); a != s {
			v.fail("encoding changes %s to %s", s, a)
		}
	}
}

// vodd puts unusual values into any of the fields
func (v *vrun) vodd(x reflect.Value, p int) {
	switch x.Kind() {
	case reflect.Ptr:
		if x.IsNil() {
			return
		}
		switch y := x.Interface().(type) {
		case *p256.P256:
			if v.r.Intn(p) == 0 {
				var o *opt
				if v.r.Intn(3) == 0 {
					o = &opt{}
				} else {
					o = oG.mul(big.NewInt(int64(1 + v.r.Intn(9999))))
				}
				x.Set(reflect.ValueOf(v.rep(o)))
			}
		case *big.Int:
			_ = y
			if v.r.Intn(p) == 0 {
				x.Set(reflect.ValueOf(v.scalar(oN)))
			}
		default:
			v.vodd(x.Elem(), p)
		}
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			if x.Type().Field(i).PkgPath == "" && x.Type().Field(i).Name != "N" {
				v.vodd(x.Field(i), p)
			}
		}
	case reflect.Slice:
		for i := 0; i < x.Len(); i++ {
			v.vodd(x.Index(i), p)
		}
	}
}

func vverdict(f func() (bool, error)) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = "panic"
		}
	}()
	ok, err := f()
	return fmt.Sprint(ok, err)
}

func TestVerifC25(t *testing.T) {
	v := vstart(t)
	for i := 0; v.more() || i < 8; i++ {
		n := v.vn()
		if i < 6 {
			n = vsizes[i]
		}
		s := v.inside(n)
		if v.r.Intn(4) == 0 {
			s = v.scalar(oN)
		}
		v.run(func() string { return fmt.Sprintf("range [0,2^%d) secret %v", n, s) }, func() {
			p, err := Prove(s, v.vsetup(n))
			if err != nil {
				return
			}
			var q BulletProof
			v.vthrough(&p, &q)
			ok, _ := p.Verify()
			if ok2, _ := q.Verify(); ok2 != ok {
				v.fail("verdict %v, after decoding %v", ok, ok2)
			}
			for k := 0; k < 6; k++ { // other proofs
				r := vcopyBP(&p)
				v.vodd(reflect.ValueOf(r).Elem(), []int{1, 2, 20, 60}[v.r.Intn(4)])
				v.vthrough(r, &q)
				if k == 0 && n < 16 {
					if a, b := vverdict(r.Verify), vverdict(q.Verify); a != b {
						v.fail("verdict %s, after decoding %s", a, b)
					}
				}
			}
		})
		if i%4 == 0 {
			a := int64(v.r.Intn(2000) - 1000)
			b := a + 2 + int64(v.r.Intn(1000))
			x := big.NewInt(a + int64(v.r.Intn(int(b-a))))
			v.run(func() string { return fmt.Sprintf("range [%d,%d) secret %v", a, b, x) }, func() {
				par, err := SetupGeneric(a, b)
				if err != nil {
					v.fail("SetupGeneric: %v", err)
				}
				p, err := ProveGeneric(x, par)
				if err != nil {
					v.fail("ProveGeneric: %v", err)
				}
				var q ProofBPRP
				v.vthrough(&p, &q)
				ok, _ := p.Verify()
				if ok2, _ := q.Verify(); ok2 != ok {
					v.fail("verdict %v, after decoding %v", ok, ok2)
				}
			})
		}
	}
	v.done()
}

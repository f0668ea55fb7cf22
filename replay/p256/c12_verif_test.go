package p256

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"testing"
)

var vp, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)

// vcand: candidate x-coordinate number i for the string
func vcand(m string, i int) *big.Int {
	d := sha256.Sum256([]byte(fmt.Sprintf("%d%s", i, m)))
	x := new(big.Int).SetBytes(d[:])
	if d[0] >= 128 {
		x.Sub(x, new(big.Int).Lsh(big.NewInt(1), 256))
	}
	return x.Mod(x, vp)
}

func vcubic(x *big.Int) *big.Int {
	y := new(big.Int).Exp(x, big.NewInt(3), nil)
	return y.Add(y, big.NewInt(7)).Mod(y, vp)
}

func vsquare(f *big.Int) bool {
	e := new(big.Int).Rsh(new(big.Int).Sub(vp, big.NewInt(1)), 1)
	return f.Sign() == 0 || new(big.Int).Exp(f, e, vp).Cmp(big.NewInt(1)) == 0
}

func voncurve(x, y *big.Int) bool {
	return new(big.Int).Mod(new(big.Int).Mul(y, y), vp).Cmp(vcubic(x)) == 0
}

func TestVerifC12(t *testing.T) {
	v := vstart(t)
	deep := 0
	for v.more() {
		var b []byte
		switch v.r.Intn(5) {
		case 0:
			b = []byte(fmt.Sprint(v.r.Intn(1 << 20)))
		case 1:
			b = make([]byte, v.r.Intn(300))
		case 2:
			b = []byte("BulletproofsDoesNotNeedTrustedSetupH" + string(rune(v.r.Intn(300))))
		default:
			b = make([]byte, v.r.Intn(40))
			v.r.Read(b)
		}
		s := string(b)
		v.run(func() string { return fmt.Sprintf("string %q", s) }, func() {
			k := 0
			for k < 256 && !vsquare(vcubic(vcand(s, k))) {
				k++
			}
			if k > deep {
				deep = k
			}
			p, err := MapToGroup(s)
			if k == 256 {
				if err == nil {
					v.fail("a point where no candidate exists")
				}
				return
			}
			if err != nil {
				v.fail("error %v although candidate %d is on the curve", err, k)
			}
			if p.X.Cmp(vcand(s, k)) != 0 {
				v.fail("x-coordinate %v, expected candidate %d: %v", p.X, k, vcand(s, k))
			}
			if p.Y == nil || !voncurve(p.X, p.Y) || p.Y.Sign() < 0 || p.Y.Cmp(vp) >= 0 {
				v.fail("(%v, %v) is not a point of the curve", p.X, p.Y)
			}
			q, err := MapToGroup(string(append([]byte{}, b...)))
			if err != nil || q.X.Cmp(p.X) != 0 || q.Y.Cmp(p.Y) != 0 {
				v.fail("another point for the same string: %v, %v", q, err)
			}
			// what a caller does with the point does not show in later results
			X, Y := new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
			q.Double(q)
			p.X.Add(p.X, big.NewInt(1))
			q, err = MapToGroup(s)
			if err != nil || q.X.Cmp(X) != 0 || q.Y.Cmp(Y) != 0 {
				v.fail("another point for the same string after the first was changed in place: %v, %v", q, err)
			}
			p = &P256{X: X, Y: Y}
			// the tests that the walk relies on
			y := v.num(vp)
			x := v.num(vp)
			if v.r.Intn(3) == 0 {
				x, y = new(big.Int).Set(p.X), new(big.Int).Sub(vp, p.Y)
			}
			if v.r.Intn(4) == 0 {
				x.Add(x, vp)
			}
			if got := (&P256{X: x, Y: y}).IsOnCurve(); got != voncurve(x, y) {
				v.fail("IsOnCurve(%v, %v) is %v", x, y, got)
			}
			f, err := F(x)
			if err != nil || new(big.Int).Mod(f, vp).Cmp(vcubic(x)) != 0 {
				v.fail("F(%v) is %v, %v", x, f, err)
			}
			var buf bytes.Buffer
			buf.WriteString("0")
			buf.WriteString(s)
			h, err := HashToInt(buf)
			if err != nil || new(big.Int).Mod(h, vp).Cmp(vcand(s, 0)) != 0 {
				v.fail("HashToInt is %v, %v", h, err)
			}
		})
	}
	fmt.Println("longest walk", deep)
	v.done()
}

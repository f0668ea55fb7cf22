package byteconversion

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"
)

// odenote: the integer a byte string denotes, bit by bit
func odenote(b []byte) *big.Int {
	r := new(big.Int)
	for i, x := range b {
		for k := 7; k >= 0; k-- {
			r.Add(r, r)
			if x>>uint(k)&1 == 1 {
				if i == 0 && k == 7 {
					r.SetInt64(-1) // the sign bit weighs negatively
				} else {
					r.Add(r, big.NewInt(1))
				}
			}
		}
	}
	return r
}

// oencode: the shortest two's complement encoding, by Euclidean division
func oencode(x *big.Int) []byte {
	n := uint(1)
	for {
		h := new(big.Int).Lsh(big.NewInt(1), 8*n-1)
		if x.Cmp(h) < 0 && x.Cmp(new(big.Int).Neg(h)) >= 0 {
			break
		}
		n++
	}
	out := make([]byte, n)
	y := new(big.Int).Set(x)
	for i := int(n) - 1; i >= 0; i-- {
		m := new(big.Int)
		y.DivMod(y, big.NewInt(256), m)
		out[i] = byte(m.Int64())
	}
	return out
}

func TestVerifC18(t *testing.T) {
	v := vstart(t)
	small := 0
	for v.more() {
		var x *big.Int
		var b []byte
		if small < 140000 && v.r.Intn(8) > 0 { // every integer of up to 17 bits
			x = big.NewInt(int64(small - 70000))
			small++
		} else {
			switch v.r.Intn(4) {
			case 0:
				x = v.scalar(new(big.Int).Lsh(big.NewInt(1), 256))
			case 1:
				x = new(big.Int).Lsh(big.NewInt(1), uint(v.r.Intn(600)))
				x.Add(x, big.NewInt(int64(v.r.Intn(5)-2)))
			case 2:
				x = new(big.Int).Lsh(big.NewInt(int64(v.r.Intn(256))), uint(8*v.r.Intn(80)))
				x.Add(x, big.NewInt(int64(v.r.Intn(3)-1)))
			default:
				x = new(big.Int).Rand(v.r, new(big.Int).Lsh(big.NewInt(1), uint(1+v.r.Intn(700))))
			}
			if v.r.Intn(2) == 0 {
				x.Neg(x)
			}
		}
		switch v.r.Intn(6) {
		case 0:
			b = make([]byte, v.r.Intn(70))
		case 1:
			b = bytes.Repeat([]byte{255}, v.r.Intn(40))
		case 2:
			b = make([]byte, v.r.Intn(40))
			if len(b) > 0 {
				b[0] = byte(v.r.Intn(256))
			}
		default:
			b = make([]byte, v.r.Intn(70))
			v.r.Read(b)
		}
		v.run(func() string { return fmt.Sprintf("integer %v", x) }, func() {
			y := new(big.Int).Set(x)
			e := ToByteArray(x)
			if x.Cmp(y) != 0 {
				v.fail("the argument of ToByteArray changed to %v", x)
			}
			if !bytes.Equal(e, oencode(x)) {
				v.fail("ToByteArray is %x, expected %x", e, oencode(x))
			}
			z, err := FromByteArray(e)
			if err != nil || z.Cmp(x) != 0 {
				v.fail("decoded from its encoding: %v, %v", z, err)
			}
			if small%32 == 0 {
				v.keep(fmt.Sprintf("the encoding of %v", y), func() string { return fmt.Sprintf("%x", e) })
				v.keep(fmt.Sprintf("the integer decoded from %x", e), func() string { return z.String() })
			}
		})
		v.run(func() string { return fmt.Sprintf("bytes %x", b) }, func() {
			c := append([]byte{}, b...)
			z, err := FromByteArray(b)
			if !bytes.Equal(b, c) {
				v.fail("the argument of FromByteArray changed to %x", b)
			}
			if len(b) == 0 {
				if err == nil {
					v.fail("no error for an empty array")
				}
				return
			}
			if err != nil || z.Cmp(odenote(b)) != 0 {
				v.fail("FromByteArray is %v, %v, expected %v", z, err, odenote(b))
			}
		})
	}
	v.done()
}

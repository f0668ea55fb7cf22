package bulletproofs

import (
	"fmt"
	"testing"
)

func TestVerifC07(t *testing.T) {
	v := vstart(t)
	good := map[int64]int64{2: 1, 4: 2, 16: 4, 256: 8, 65536: 16, 1 << 32: 32}
	one := func(b int64) {
		v.run(func() string { return fmt.Sprintf("Setup(%d)", b) }, func() {
			p, err := Setup(b)
			n, ok := good[b]
			if !ok {
				if err == nil {
					v.fail("no error for an unsupported range end")
				}
				return
			}
			if err != nil {
				v.fail("%v", err)
			}
			q, _ := Setup(b)
			if vshow(p) != vshow(q) {
				v.fail("two set-ups differ")
			}
			if p.N != n || int64(len(p.Gg)) != n || int64(len(p.Hh)) != n {
				v.fail("N = %d with %d and %d generators", p.N, len(p.Gg), len(p.Hh))
			}
			if !oG.is(p.G) {
				v.fail("G is not the base point")
			}
			seen := map[string]bool{oG.String(): true}
			for _, x := range append(append(append(p.Gg[:0:0], p.H), p.Gg...), p.Hh...) {
				if x == nil || !oonc(x) {
					v.fail("a generator is no point of the curve: %v", x)
				}
				k := oof(x).String()
				if seen[k] {
					v.fail("the generator %s occurs twice", k)
				}
				seen[k] = true
			}
		})
	}
	for k := uint(0); k < 63; k++ {
		for _, d := range []int64{-1, 0, 1, 2} {
			one(int64(1)<<k + d)
			one(-(int64(1) << k) + d)
			one(int64(1)<<k + int64(1)<<(k/2) + d)
		}
	}
	one(-1 << 63)
	one(1<<63 - 1)
	one(0)
	for v.more() {
		b := v.r.Int63() >> uint(v.r.Intn(63))
		if v.r.Intn(3) == 0 {
			b = -b
		}
		one(b)
	}
	v.done()
}

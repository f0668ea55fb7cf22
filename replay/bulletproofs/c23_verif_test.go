package bulletproofs

import (
	"fmt"
	"math/big"
	"sync"
	"testing"

	"github.com/ing-bank/zkrp/crypto/p256"
)

// TestVerifC23 runs with the race detector: everything here may be done at the same time
func TestVerifC23(t *testing.T) {
	v := vstart(t)
	v.run(func() string { return "concurrent calls of the vector and hash functions" }, v.helpers)
	for i := 0; v.more() || i < 2; i++ {
		v.run(func() string { return fmt.Sprintf("round %d of concurrent provers and verifiers", i) }, func() { v.c23(i) })
	}
	v.done()
}

func (v *vrun) c23(round int) {
	n := []int64{1, 2, 4, 8}[round%4]
	params, e1 := Setup(1 << uint(n))
	gen, e2 := SetupGeneric(18, 18+200)
	if e1 != nil || e2 != nil {
		v.fail("setup: %v %v", e1, e2)
	}
	secret := v.inside(n)
	good, e1 := Prove(secret, params)
	rng, e2 := ProveGeneric(big.NewInt(40), gen)
	if e1 != nil || e2 != nil {
		v.fail("prove: %v %v", e1, e2)
	}
	bad := good
	bad.Taux = new(big.Int).Add(good.Taux, big.NewInt(1))
	var wg sync.WaitGroup
	var mu sync.Mutex
	first := ""
	say := func(f string, a ...interface{}) {
		mu.Lock()
		if first == "" {
			first = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	par := func(what string, want bool, f func() (bool, error)) {
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						say("%s: panic: %v", what, e)
					}
				}()
				if ok, e := f(); ok != want || e != nil && want {
					say("%s: %v %v, expected %v", what, ok, e, want)
				}
			}()
		}
	}
	par("valid proof", true, good.Verify)
	par("altered proof", false, bad.Verify)
	par("valid generic proof", true, rng.Verify)
	par("inner product argument", true, good.InnerProductProof.Verify)
	par("new proof", true, func() (bool, error) {
		p, e := Prove(secret, params)
		if e != nil {
			return false, e
		}
		return p.Verify()
	})
	x := big.NewInt(100)
	par("new generic proof", true, func() (bool, error) {
		p, e := ProveGeneric(x, gen)
		if e != nil {
			return false, e
		}
		return p.Verify()
	})
	par("new parameters", true, func() (bool, error) {
		q, e := Setup(4)
		if e != nil {
			return false, e
		}
		p, e := Prove(big.NewInt(3), q)
		if e != nil {
			return false, e
		}
		return p.Verify()
	})
	wg.Wait()
	if first != "" {
		v.fail("%s", first)
	}
}

// helpers calls the cheap functions over and over from many goroutines, each with inputs that the others use as well
func (v *vrun) helpers() {
	type job struct {
		what string
		f    func() string
		want string
	}
	var jobs []job
	add := func(what string, want interface{}, f func() interface{}) {
		jobs = append(jobs, job{what, func() string { return fmt.Sprint(f()) }, fmt.Sprint(want)})
	}
	var xs []*big.Int
	for i := 0; i < 3; i++ {
		xs = append(xs, v.num(oN))
	}
	for _, x := range xs {
		x := x
		for _, n := range []int64{1, 4, 8} {
			n := n
			w := []*big.Int{}
			for i := int64(0); i < n; i++ {
				w = append(w, new(big.Int).Exp(x, big.NewInt(i), oN))
			}
			add(fmt.Sprintf("powerOf(%v, %d)", x, n), w, func() interface{} { return powerOf(x, n) })
		}
		a, b := []*big.Int{}, []*big.Int{}
		sum := new(big.Int)
		var sums, prods, diffs []*big.Int
		for i := 0; i < 4; i++ {
			a, b = append(a, v.num(oN)), append(b, new(big.Int).Add(x, big.NewInt(int64(i))))
			sum.Add(sum, new(big.Int).Mul(a[i], b[i]))
			sums = append(sums, onn(new(big.Int).Add(a[i], b[i])))
			diffs = append(diffs, onn(new(big.Int).Sub(a[i], b[i])))
			prods = append(prods, onn(new(big.Int).Mul(a[i], b[i])))
		}
		add(fmt.Sprintf("ScalarProduct(%v, %v)", a, b), onn(sum), func() interface{} { r, _ := ScalarProduct(a, b); return r })
		add(fmt.Sprintf("VectorAdd(%v, %v)", a, b), sums, func() interface{} { r, _ := VectorAdd(a, b); return r })
		add(fmt.Sprintf("VectorSub(%v, %v)", a, b), diffs, func() interface{} { r, _ := VectorSub(a, b); return r })
		add(fmt.Sprintf("VectorMul(%v, %v)", a, b), prods, func() interface{} { r, _ := VectorMul(a, b); return r })
		p, q := copt(oG.mul(x)), copt(oG.mul(a[0]))
		h := func() interface{} { r, s, _ := HashBP(p, q); return []*big.Int{r, s} }
		add("HashBP of "+fmt.Sprint(p, q), h(), h)
		add(fmt.Sprintf("commitment to %v", a[0]), oG.mul(a[0]).String(), func() interface{} {
			return oof(new(p256.P256).ScalarBaseMult(a[0])).String()
		})
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	first := ""
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					first = fmt.Sprintf("panic: %v", e)
					mu.Unlock()
				}
			}()
			s := uint32(g*7919 + 1)
			for i := 0; i < 1500; i++ {
				s = s*1664525 + 1013904223
				j := jobs[int(s>>8)%len(jobs)]
				if r := j.f(); r != j.want {
					mu.Lock()
					if first == "" {
						first = fmt.Sprintf("%s: %s, expected %s", j.what, r, j.want)
					}
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	if first != "" {
		v.fail("%s", first)
	}
}

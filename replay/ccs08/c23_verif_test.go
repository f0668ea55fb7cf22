package ccs08

import (
	"fmt"
	"math/big"
	"sync"
	"testing"

	"github.com/ing-bank/zkrp/crypto/bn256"
	. "github.com/ing-bank/zkrp/util"
)

// TestVerifC23 runs with the race detector: everything here may be done at the same time
func TestVerifC23(t *testing.T) {
	v := vstart(t)
	for i := 0; v.more() || i < 2; i++ {
		v.run(func() string { return fmt.Sprintf("round %d of concurrent provers and verifiers", i) }, func() { v.c23(i) })
	}
	v.done()
}

func (v *vrun) c23(round int) {
	ps, e1 := SetupSet([]int64{1, 5, 9})
	pu, e2 := SetupUL(3, 2)
	if e1 != nil || e2 != nil {
		v.fail("setup: %v %v", e1, e2)
	}
	good, e1 := ProveSet(5, big.NewInt(77), ps)
	ul, e2 := ProveUL(big.NewInt(7), big.NewInt(99), pu)
	if e1 != nil || e2 != nil {
		v.fail("prove: %v %v", e1, e2)
	}
	bad := good
	bad.zr = new(big.Int).Add(good.zr, big.NewInt(1))
	var wg sync.WaitGroup
	var mu sync.Mutex
	first := ""
	say := func(f string, a ...interface{}) {
		mu.Lock()
		if first == "" {
			first = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	par := func(f func() string) {
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						say("panic: %v", e)
					}
				}()
				if s := f(); s != "" {
					say("%s", s)
				}
			}()
		}
	}
	verdict := func(what string, want bool, f func() (bool, error)) func() string {
		return func() string {
			if ok, e := f(); ok != want || e != nil && want {
				return fmt.Sprintf("%s: %v %v, expected %v", what, ok, e, want)
			}
			return ""
		}
	}
	par(verdict("valid set proof", true, func() (bool, error) { return VerifySet(&good, &ps) }))
	par(verdict("altered set proof", false, func() (bool, error) { return VerifySet(&bad, &ps) }))
	par(verdict("valid range proof", true, func() (bool, error) { return VerifyUL(&ul, &pu) }))
	secret := big.NewInt(9)
	par(verdict("new set proof", true, func() (bool, error) {
		p, e := ProveSet(9, secret, ps)
		if e != nil {
			return false, e
		}
		return VerifySet(&p, &ps)
	}))
	par(verdict("new range proof", true, func() (bool, error) {
		p, e := ProveUL(big.NewInt(4), secret, pu)
		if e != nil {
			return false, e
		}
		return VerifyUL(&p, &pu)
	}))
	par(func() string { // the constants and values taken from proofs and parameters
		for _, g := range []*bn256.G1{G1, ps.kp.Pubk, pu.kp.Pubk} {
			if g.String() != new(bn256.G1).ScalarMult(g, big.NewInt(1)).String() || len(g.Marshal()) != 64 {
				return "encoding of a shared element of G1"
			}
		}
		for _, g := range []*bn256.G2{G2, good.D, good.C, good.V, ps.H, pu.H, ps.signatures[5]} {
			if g.String() != new(bn256.G2).ScalarMult(g, big.NewInt(1)).String() || len(g.Marshal()) != 128 {
				return "encoding of a shared element of G2"
			}
		}
		for _, g := range []*bn256.GT{E, good.a} {
			if g.String() == "" || len(g.Marshal()) != 384 {
				return "encoding of a shared element of GT"
			}
		}
		return ""
	})
	if round%3 == 0 { // whole sessions with objects of their own
		par(func() string {
			z := ccs08{x: big.NewInt(12), r: big.NewInt(31)}
			if e := z.Setup(10, 20); e != nil {
				return "session setup: " + e.Error()
			}
			if e := z.Prove(); e != nil {
				return "session proof: " + e.Error()
			}
			if ok, e := z.Verify(); !ok || e != nil {
				return fmt.Sprintf("session: %v %v", ok, e)
			}
			return ""
		})
	}
	wg.Wait()
	if first != "" {
		v.fail("%s", first)
	}
}

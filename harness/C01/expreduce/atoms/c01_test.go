package atoms

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// A number by definition: a pair of exact fractions, or approximate when a
// machine real takes part.
type c01Num struct {
	re, im       *big.Rat
	flt, complex bool
}

func c01Rat(ex expreduceapi.Ex) (*big.Rat, bool, bool) {
	switch x := ex.(type) {
	case *Integer:
		return new(big.Rat).SetInt(x.Val), false, true
	case *Rational:
		if x.Den.Sign() == 0 {
			return nil, false, false
		}
		return new(big.Rat).SetFrac(x.Num, x.Den), false, true
	case *Flt:
		q, _ := x.Val.Rat(nil)
		return q, true, q != nil
	}
	return nil, false, false
}

func c01Of(ex expreduceapi.Ex) (c01Num, bool) {
	if c, ok := ex.(*Complex); ok {
		re, f1, ok1 := c01Rat(c.Re)
		im, f2, ok2 := c01Rat(c.Im)
		return c01Num{re, im, f1 || f2, true}, ok1 && ok2
	}
	q, f, ok := c01Rat(ex)
	return c01Num{q, new(big.Rat), f, false}, ok
}

func c01Op(mul bool, a, b c01Num) c01Num {
	r := c01Num{new(big.Rat), new(big.Rat), a.flt || b.flt, a.complex || b.complex}
	if !mul {
		r.re.Add(a.re, b.re)
		r.im.Add(a.im, b.im)
		return r
	}
	m := func(x, y *big.Rat) *big.Rat { return new(big.Rat).Mul(x, y) }
	r.re.Sub(m(a.re, b.re), m(a.im, b.im))
	r.im.Add(m(a.re, b.im), m(a.im, b.re))
	return r
}

func c01Near(a, b *big.Rat, scale float64) bool {
	x, _ := a.Float64()
	y, _ := b.Float64()
	return math.Abs(x-y) <= 1e-9*(scale+math.Abs(x)+math.Abs(y))
}

func TestVerifC01Fold(t *testing.T) {
	r := vStart(t, "argument lists of integers, rationals, reals and complex numbers with non-numbers in between, folded by sum and product and compared with exact arithmetic on fractions; non-trivial when at least one number is folded", "lists of at most 6 arguments over 27 values; exhaustive to length 2, random beyond")
	defer r.Done()
	pool := func() []expreduceapi.Ex {
		return []expreduceapi.Ex{aI(0), aI(1), aI(-1), aI(2), aI(-3), aI(7), aBig("123456789012345678901234567890"), aBig("-9223372036854775809"),
			aQ(1, 2), aQ(-1, 2), aQ(2, 3), aQ(5, 6), NewRational(aBig("100000000000000000001").Val, big.NewInt(3)),
			aF(0.5), aF(-2.25), aF(3), aF(0),
			NewComplex(aI(1), aI(2)), NewComplex(aI(0), aI(1)), NewComplex(aQ(1, 2), aI(-3)), NewComplex(aI(2), aQ(-3, 4)), NewComplex(aF(1.5), aI(2)), NewComplex(aI(3), aF(-0.5)),
			aS("Global`x"), aE(aS("Global`f"), aI(2)), NewString("2"), aE(aS("System`Plus"))}
	}
	np := len(pool())
	one := func(idx []int, mul bool) {
		p := pool()
		var args []expreduceapi.Ex
		for _, i := range idx {
			args = append(args, p[i])
		}
		op := "Plus"
		fn := FoldFnAdd
		if mul {
			op, fn = "Times", FoldFnMul
		}
		in := op + "[" + aList(args) + "]"
		r.Run("fold", in, func() {
			before := aList(args)
			e := aE(append([]expreduceapi.Ex{aS("System`" + op)}, args...)...)
			k := 0
			acc := c01Num{new(big.Rat), new(big.Rat), false, false}
			if mul {
				acc.re.SetInt64(1)
			}
			scale := 0.0
			for k < len(args) {
				v, ok := c01Of(args[k])
				if !ok {
					break
				}
				acc = c01Op(mul, acc, v)
				x, _ := acc.re.Float64()
				y, _ := acc.im.Float64()
				scale = math.Max(scale, math.Max(math.Abs(x), math.Abs(y)))
				k++
			}
			got, at := ComputeNumericPart(fn, e)
			wantAt := -1
			if k < len(args) {
				wantAt = k + 1
			}
			r.Check("rest starts at", in, true, at == wantAt, fmt.Sprint(wantAt), fmt.Sprint(at))
			if b := aList(args); b != before || aFF(e) != op2(op)+"["+listC(args)+"]" {
				r.Fail("operands unchanged", in, before, b)
				return
			}
			if k == 0 {
				r.Check("no numbers", in, false, got == nil, "no folded number", aFF(got))
				return
			}
			v, ok := c01Of(got)
			kind := "exact real"
			if acc.complex {
				kind = "complex"
			} else if acc.flt {
				kind = "machine real"
			}
			gk := "exact real"
			if v.complex {
				gk = "complex"
			} else if v.flt {
				gk = "machine real"
			}
			if !r2(ok, gk == kind) {
				r.Fail("kind of the result", in, kind, gk+" "+aFF(got))
				return
			}
			want := acc.re.RatString() + " + I*" + acc.im.RatString()
			if !acc.flt {
				r.Check("exact value", in, true, !v.flt && v.re.Cmp(acc.re) == 0 && v.im.Cmp(acc.im) == 0, want, aFF(got))
			} else {
				r.Check("approximate value", in, true, c01Near(v.re, acc.re, scale) && c01Near(v.im, acc.im, scale), want, aFF(got))
			}
			// the result may be used in further sums without touching the operands
			g := aFF(got)
			for _, f2 := range []foldFn{FoldFnAdd, FoldFnMul} {
				ComputeNumericPart(f2, aE(aS("System`Plus"), got, aI(5), aQ(1, 7)))
				ComputeNumericPart(f2, aE(aS("System`Plus"), aI(5), got, NewComplex(aI(1), aI(1)), aF(2)))
			}
			r.Check("numbers keep their value in later sums", in, true, aList(args) == before && aFF(got) == g, before+" -> "+g, aList(args)+" -> "+aFF(got))
			again, at2 := ComputeNumericPart(fn, e)
			r.Check("same again", in, true, aFF(again) == g && at2 == at, g, aFF(again))
		})
	}
	for _, mul := range []bool{false, true} {
		one(nil, mul)
		for i := 0; i < np; i++ {
			one([]int{i}, mul)
			for j := 0; j < np && !r.Failed(); j++ {
				one([]int{i, j}, mul)
			}
		}
	}
	n := 4000
	if r.Deep {
		n = 200000
	}
	for i := 0; i < n && !r.Failed(); i++ {
		l := 3 + r.Rnd.Intn(4)
		var idx []int
		for j := 0; j < l; j++ {
			// mostly numbers, sometimes one value repeated
			k := r.Rnd.Intn(np - 4)
			if r.Rnd.Intn(12) == 0 {
				k = r.Rnd.Intn(np)
			}
			if len(idx) > 0 && r.Rnd.Intn(5) == 0 {
				k = idx[r.Rnd.Intn(len(idx))]
			}
			idx = append(idx, k)
		}
		one(idx, r.Rnd.Intn(2) == 0)
	}
}

func r2(a, b bool) bool    { return a && b }
func op2(op string) string { return "System`" + op }
func listC(l []expreduceapi.Ex) string {
	s := ""
	for i, x := range l {
		if i > 0 {
			s += ", "
		}
		s += aFF(x)
	}
	return s
}

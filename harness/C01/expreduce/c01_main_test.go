package expreduce

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

type c01v struct {
	src    string
	re, im *big.Rat
	flt    bool
	cplx   bool
}

func c01q(n, d int64) *big.Rat { return big.NewRat(n, d) }

func c01real(q *big.Rat) string {
	if q.IsInt() {
		return q.Num().String()
	}
	return "Rational[" + q.Num().String() + ", " + q.Denom().String() + "]"
}

func c01flt(ex expreduceapi.Ex) (float64, bool) {
	switch x := ex.(type) {
	case *atoms.Integer:
		f, _ := new(big.Rat).SetInt(x.Val).Float64()
		return f, true
	case *atoms.Rational:
		f, _ := new(big.Rat).SetFrac(x.Num, x.Den).Float64()
		return f, true
	case *atoms.Flt:
		f, _ := x.Val.Float64()
		return f, true
	}
	return 0, false
}

func TestVerifC01Eval(t *testing.T) {
	r := vStart(t, "sums and products of numbers held in variables, alone and with symbols, evaluated and compared with exact fraction arithmetic, the variables being read again afterwards; non-trivial when a number is folded", "up to 5 operands of 18 numbers and 3 symbols")
	defer r.Done()
	vals := []c01v{
		{"0", c01q(0, 1), c01q(0, 1), false, false}, {"1", c01q(1, 1), c01q(0, 1), false, false}, {"-1", c01q(-1, 1), c01q(0, 1), false, false},
		{"2", c01q(2, 1), c01q(0, 1), false, false}, {"-7", c01q(-7, 1), c01q(0, 1), false, false}, {"12", c01q(12, 1), c01q(0, 1), false, false},
		{"1/2", c01q(1, 2), c01q(0, 1), false, false}, {"-1/2", c01q(-1, 2), c01q(0, 1), false, false}, {"2/3", c01q(2, 3), c01q(0, 1), false, false}, {"5/6", c01q(5, 6), c01q(0, 1), false, false}, {"-3/4", c01q(-3, 4), c01q(0, 1), false, false},
		{"Complex[1,2]", c01q(1, 1), c01q(2, 1), false, true}, {"Complex[0,-1]", c01q(0, 1), c01q(-1, 1), false, true}, {"Complex[1/2,3]", c01q(1, 2), c01q(3, 1), false, true}, {"Complex[-1,2/3]", c01q(-1, 1), c01q(2, 3), false, true},
		{"0.5", c01q(1, 2), c01q(0, 1), true, false}, {"-2.25", c01q(-9, 4), c01q(0, 1), true, false}, {"3.", c01q(3, 1), c01q(0, 1), true, false},
	}
	es := NewEvalState()
	for i, v := range vals {
		EvalInterp(fmt.Sprintf("n%d=%s", i, v.src), es)
	}
	reread := func(in string) bool {
		for i, v := range vals {
			got := EvalInterp(fmt.Sprintf("n%d", i), es)
			want := ""
			if v.cplx {
				want = "Complex[" + c01real(v.re) + ", " + c01real(v.im) + "]"
			} else if !v.flt {
				want = c01real(v.re)
			}
			if v.flt {
				f, ok := c01flt(got)
				w, _ := v.re.Float64()
				if !ok || f != w {
					r.Fail("operand keeps its value", in, v.src, vFF(got))
					return false
				}
			} else if vFF(got) != want {
				r.Fail("operand keeps its value", in, want, vFF(got))
				return false
			}
		}
		return true
	}
	reread("initially")
	one := func(idx []int, syms []string, mul bool) {
		op := "Plus"
		if mul {
			op = "Times"
		}
		var a []string
		re, im := c01q(0, 1), c01q(0, 1)
		if mul {
			re = c01q(1, 1)
		}
		flt, cplx := false, false
		m := func(x, y *big.Rat) *big.Rat { return new(big.Rat).Mul(x, y) }
		scale := 1.0
		for _, i := range idx {
			v := vals[i]
			a = append(a, fmt.Sprintf("n%d", i))
			flt, cplx = flt || v.flt, cplx || v.cplx
			if mul {
				re, im = new(big.Rat).Sub(m(re, v.re), m(im, v.im)), new(big.Rat).Add(m(re, v.im), m(im, v.re))
			} else {
				re, im = new(big.Rat).Add(re, v.re), new(big.Rat).Add(im, v.im)
			}
			x, _ := re.Float64()
			y, _ := im.Float64()
			scale = math.Max(scale, math.Max(math.Abs(x), math.Abs(y)))
		}
		src := op + "[" + strings.Join(append(append([]string{}, syms...), a...), ",") + "]"
		in := src + " for"
		for _, i := range idx {
			in += fmt.Sprintf(" n%d=%s", i, vals[i].src)
		}
		r.Run("evaluated fold", in, func() {
			got := EvalInterp(src, es)
			num := got
			if len(syms) > 0 {
				// the numeric coefficient must come first, then the symbols
				e, ok := got.(*atoms.Expression)
				id := c01q(0, 1)
				if mul {
					id = c01q(1, 1)
				}
				if !flt && im.Sign() == 0 && re.Cmp(id) == 0 {
					want := op + "[" + strings.Join(syms, ", ") + "]"
					if len(syms) == 1 {
						want = syms[0]
					}
					r.Check("identity is left out", in, true, vFF(got) == want, want, vFF(got))
					return
				}
				if !ok || len(e.Parts) != len(syms)+2 {
					if mul && !flt && re.Sign() == 0 && im.Sign() == 0 {
						r.Check("zero product", in, true, vFF(got) == "0", "0", vFF(got))
						return
					}
					r.Check("symbols remain", in, true, false, "a number and "+strings.Join(syms, ", "), vFF(got))
					return
				}
				num = e.Parts[1]
				for i, s := range syms {
					if vFF(e.Parts[i+2]) != s {
						r.Fail("symbols remain", in, strings.Join(syms, ", "), vFF(got))
					}
				}
			}
			if !flt {
				want := c01real(re)
				if im.Sign() != 0 {
					want = "Complex[" + c01real(re) + ", " + c01real(im) + "]"
				}
				r.Check("exact value", in, len(idx) > 1, vFF(num) == want, want, vFF(num))
				return
			}
			wr, _ := re.Float64()
			wi, _ := im.Float64()
			var gr, gi float64
			ok := true
			if c, isC := num.(*atoms.Complex); isC {
				var o1, o2 bool
				gr, o1 = c01flt(c.Re)
				gi, o2 = c01flt(c.Im)
				ok = o1 && o2 && cplx
			} else {
				gr, ok = c01flt(num)
				if _, isF := num.(*atoms.Flt); !isF {
					ok = false
				}
			}
			ok = ok && math.Abs(gr-wr) <= 1e-9*scale && math.Abs(gi-wi) <= 1e-9*scale
			r.Check("approximate value", in, len(idx) > 1, ok, fmt.Sprintf("machine number %v + I %v", wr, wi), vFF(num))
		})
		if !reread(in) {
			for i, v := range vals {
				EvalInterp(fmt.Sprintf("n%d=%s", i, v.src), es)
			}
		}
	}
	for _, mul := range []bool{false, true} {
		for i := range vals {
			for j := range vals {
				if r.Failed() {
					break
				}
				one([]int{i, j}, nil, mul)
			}
		}
	}
	r.Check("empty sum", "Plus[]", true, vEv(es, "Plus[]") == "0", "0", vEv(es, "Plus[]"))
	r.Check("empty product", "Times[]", true, vEv(es, "Times[]") == "1", "1", vEv(es, "Times[]"))
	n := 500
	if r.Deep {
		n = 6000
	}
	for i := 0; i < n && !r.Failed(); i++ {
		var idx []int
		for j := 1 + r.Rnd.Intn(5); j > 0; j-- {
			k := r.Rnd.Intn(len(vals))
			if len(idx) > 0 && r.Rnd.Intn(4) == 0 {
				k = idx[0]
			}
			idx = append(idx, k)
		}
		one(idx, [][]string{nil, nil, {"x"}, {"x", "y"}}[r.Rnd.Intn(4)], r.Rnd.Intn(2) == 0)
	}
	// like terms: coefficients add up
	terms := []string{"x", "y", "x*y"}
	for i := 0; i < n/4 && !r.Failed(); i++ {
		sum := map[int]*big.Rat{}
		var a []string
		for j := 2 + r.Rnd.Intn(4); j > 0; j-- {
			k, c := r.Rnd.Intn(3), r.Rnd.Intn(11)
			for vals[c].re.Sign() == 0 {
				c = r.Rnd.Intn(11)
			}
			if sum[k] == nil {
				sum[k] = new(big.Rat)
			}
			sum[k].Add(sum[k], vals[c].re)
			a = append(a, fmt.Sprintf("n%d*%s", c, terms[k]))
		}
		src := strings.Join(a, "+")
		for k, tm := range terms {
			if sum[k] == nil {
				sum[k] = new(big.Rat)
			}
			// read one coefficient off by evaluating at three points
			_ = tm
		}
		for _, pt := range [][2]int64{{1, 0}, {0, 1}, {1, 1}, {2, 3}} {
			q := fmt.Sprintf("(%s)/.{x->%d,y->%d}", src, pt[0], pt[1])
			want := new(big.Rat)
			for k, xy := range []int64{pt[0], pt[1], pt[0] * pt[1]} {
				want.Add(want, new(big.Rat).Mul(sum[k], c01q(xy, 1)))
			}
			in := q
			r.Run("like terms", in, func() {
				got := vEv(es, q)
				r.Check("like terms", in, true, got == c01real(want), c01real(want), got)
			})
		}
	}
	// functions of integers give the integers they were given back unchanged
	for _, f := range []string{"x1!", "-x1", "x1-x1", "x1/3", "x1^2", "Mod[x1,4]", "Abs[x1]", "GCD[x1,6]", "Max[x1,2]", "N[x1]", "x1*1.", "Range[x1]", "Sum[i,{i,x1}]", "Product[i,{i,x1}]", "x1+1/x1"} {
		r.Run("operand keeps its value", f, func() {
			got := vEv(es, "x1=5;x2=1/3;x3=Complex[1,2];{"+f+","+strings.Replace(f, "x1", "(x1+1)", -1)+"};{x1,x2,x3}")
			r.Check("operand keeps its value", f, true, got == "List[5, Rational[1, 3], Complex[1, 2]]", "List[5, Rational[1, 3], Complex[1, 2]]", got)
		})
	}
}

package expreduce

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// what the quotient of two integers is, by definition
func c14Want(n, d *big.Int) string {
	if d.Sign() == 0 {
		if n.Sign() == 0 {
			return "Indeterminate"
		}
		return "ComplexInfinity"
	}
	q := new(big.Rat).SetFrac(n, d)
	if q.IsInt() {
		return q.Num().String()
	}
	return "Rational[" + q.Num().String() + ", " + q.Denom().String() + "]"
}

func c14Ints(r *vRec) []*big.Int {
	var l []*big.Int
	for i := int64(-12); i <= 12; i++ {
		l = append(l, big.NewInt(i))
	}
	for _, s := range []string{"-30", "30", "64", "-64", "97", "360360", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551616", "18446744073709551617", "-36893488147419103232", "4294967296", "123456789012345678901234567890", "-246913578024691357802469135780", "370370367037037036703703703670"} {
		b, _ := new(big.Int).SetString(s, 10)
		l = append(l, b)
	}
	return l
}

func TestC14Reduce(t *testing.T) {
	r := vStart(t, "reducing a quotient gives the value in lowest terms and leaves its integers alone", "all pairs of 41 integers, separate and shared storage")
	defer r.Done()
	es := NewEvalState()
	for _, n := range c14Ints(r) {
		for _, d := range c14Ints(r) {
			in := n.String() + " over " + d.String()
			r.Run("reduce", in, func() {
				want := c14Want(n, d)
				nn, dd := atoms.NewInteger(new(big.Int).Set(n)), atoms.NewInteger(new(big.Int).Set(d))
				got := vFF(es.Eval(atoms.NewRational(nn.Val, dd.Val)))
				r.Check("lowest-terms", in, true, got == want, want, got)
				r.Check("integers-kept", in, true, nn.Val.Cmp(n) == 0 && dd.Val.Cmp(d) == 0, in, nn.Val.String()+" over "+dd.Val.String())
				// built from the same stored integers a second time
				got2 := vFF(es.Eval(vEx("Rational", nn, dd)))
				r.Check("lowest-terms-again", in, true, got2 == want, want, got2)
				r.Check("integers-kept", in+" (Rational[n,d])", true, nn.Val.Cmp(n) == 0 && dd.Val.Cmp(d) == 0, in, nn.Val.String()+" over "+dd.Val.String())
				if n.Cmp(d) == 0 {
					got3 := vFF(es.Eval(atoms.NewRational(nn.Val, nn.Val)))
					r.Check("shared", in, true, got3 == want && nn.Val.Cmp(n) == 0, want, got3)
				}
			})
		}
	}
}

func c14Bad(ex expreduceapi.Ex) string {
	switch x := ex.(type) {
	case *atoms.Rational:
		g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(x.Num), new(big.Int).Abs(x.Den))
		if x.Den.Cmp(big.NewInt(1)) <= 0 || g.Cmp(big.NewInt(1)) != 0 {
			return vFF(x)
		}
	case *atoms.Complex:
		if b := c14Bad(x.Re); b != "" {
			return b
		}
		return c14Bad(x.Im)
	case *atoms.Expression:
		for _, p := range x.GetParts() {
			if b := c14Bad(p); b != "" {
				return b
			}
		}
	}
	return ""
}

func TestC14Evaluator(t *testing.T) {
	r := vStart(t, "every rational in the result of exact arithmetic is in lowest terms and has the right value", "quotients, sums, differences, products and powers of rationals with parts up to 12, and fixed expressions")
	defer r.Done()
	es := NewEvalState()
	ev := func(in string, want string) {
		r.Run("evaluate", in, func() {
			res := EvalInterp(in, es)
			got := vFF(res)
			r.Check("in-lowest-terms", in, true, c14Bad(res) == "", "every rational in lowest terms", c14Bad(res)+" in "+got)
			if want != "" && !strings.Contains(got, "Power") {
				r.Check("value", in, true, got == want, want, got)
			}
		})
	}
	q := func(x *big.Rat) string { return c14Want(x.Num(), x.Denom()) }
	n := 250
	if r.Deep {
		n = 4000
	}
	for i := 0; i < n; i++ {
		z := func() int64 {
			v := int64(r.Rnd.Intn(24) - 12)
			if v >= 0 {
				v++
			}
			return v
		}
		a, b, c, d := z(), z(), z(), z()
		x, y := big.NewRat(a, b), big.NewRat(c, d)
		s := fmt.Sprintf("((%d)/(%d))", a, b)
		u := fmt.Sprintf("((%d)/(%d))", c, d)
		switch r.Rnd.Intn(6) {
		case 0:
			ev(s+" + "+u, q(new(big.Rat).Add(x, y)))
		case 1:
			ev(s+" - "+u, q(new(big.Rat).Sub(x, y)))
		case 2:
			ev(s+" * "+u, q(new(big.Rat).Mul(x, y)))
		case 3:
			ev(s+" / "+u, q(new(big.Rat).Quo(x, y)))
		case 4:
			ev(fmt.Sprintf("Rational[%d, %d]", a, b), q(x))
		case 5:
			k := int64(r.Rnd.Intn(5) - 2)
			p := big.NewRat(1, 1)
			for j := int64(0); j < k; j++ {
				p.Mul(p, x)
			}
			for j := int64(0); j < -k; j++ {
				p.Quo(p, x)
			}
			ev(fmt.Sprintf("%s^(%d)", s, k), q(p))
		}
	}
	for _, c := range [][2]string{
		{"6/4", "Rational[3, 2]"}, {"-6/-4", "Rational[3, 2]"}, {"6/-4", "Rational[-3, 2]"}, {"8/4", "2"}, {"0/5", "0"},
		{"a/4 + b*6/4", ""}, {"{2/4, 3/6, 4/8}", "List[Rational[1, 2], Rational[1, 2], Rational[1, 2]]"},
		{"1/3 + 1/6 + 1/2", "1"}, {"Complex[2/4, 6/4]", "Complex[Rational[1, 2], Rational[3, 2]]"},
		{"n1 = 6; d1 = 4; n1/d1; {n1, d1, Rational[n1, d1], n1, d1}", "List[6, 4, Rational[3, 2], 6, 4]"},
		{"2^(4/6)", ""}, {"x^(2/4)", "Power[x, Rational[1, 2]]"}, {"Sqrt[9/4]", "Rational[3, 2]"},
		{"Sum[1/i, {i, 1, 10}]", "Rational[7381, 2520]"}, {"Product[i/(i + 2), {i, 1, 6}]", "Rational[1, 28]"},
		{"Table[Rational[i, 6], {i, -6, 6}]", "List[-1, Rational[-5, 6], Rational[-2, 3], Rational[-1, 2], Rational[-1, 3], Rational[-1, 6], 0, Rational[1, 6], Rational[1, 3], Rational[1, 2], Rational[2, 3], Rational[5, 6], 1]"},
		{"Total[{1/2, 1/3, 1/6}]", "1"}, {"Mean[{1, 2, 4}]", "Rational[7, 3]"},
		{"Rational[0, 0]", "Indeterminate"}, {"Rational[3, 0]", "ComplexInfinity"}, {"Rational[-3, 0]", "ComplexInfinity"},
		{"1/2 /. 2 -> 4", ""}, {"(1/2)^-3", "8"}, {"(2/3)^-2", "Rational[9, 4]"}, {"(-2/3)^3", "Rational[-8, 27]"},
	} {
		ev(c[0], c[1])
	}
}

package atoms

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// aFF prints an expression with all its contents, independently of the code under test.
func aFF(ex expreduceapi.Ex) string {
	switch x := ex.(type) {
	case nil:
		return "<nil>"
	case *Integer:
		return x.Val.String()
	case *Rational:
		return "Rational[" + x.Num.String() + ", " + x.Den.String() + "]"
	case *Flt:
		return "Real[" + x.Val.Text('g', 40) + "]"
	case *Complex:
		return "Complex[" + aFF(x.Re) + ", " + aFF(x.Im) + "]"
	case *String:
		return strconv.Quote(x.Val)
	case *Symbol:
		return x.Name
	case *Expression:
		if len(x.Parts) == 0 {
			return "<empty>"
		}
		var l []string
		for _, p := range x.Parts[1:] {
			l = append(l, aFF(p))
		}
		return aFF(x.Parts[0]) + "[" + strings.Join(l, ", ") + "]"
	}
	return fmt.Sprintf("<%T>", ex)
}

func aList(l []expreduceapi.Ex) string {
	var s []string
	for _, x := range l {
		s = append(s, aFF(x))
	}
	return strings.Join(s, "; ")
}

func aI(n int64) *Integer     { return NewInteger(big.NewInt(n)) }
func aQ(n, d int64) *Rational { return NewRational(big.NewInt(n), big.NewInt(d)) }
func aF(f float64) *Flt       { return NewReal(big.NewFloat(f)) }
func aS(n string) *Symbol     { return NewSymbol(n) }
func aBig(s string) *Integer {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return NewInteger(b)
}
func aE(parts ...expreduceapi.Ex) *Expression {
	return NewExpression(append([]expreduceapi.Ex{}, parts...))
}

// aRand draws an expression of at most the given depth over a small vocabulary.
func aRand(r *rand.Rand, depth int, reals bool) expreduceapi.Ex {
	if depth > 0 && r.Intn(3) > 0 {
		n := r.Intn(4)
		head := expreduceapi.Ex(aS([]string{"System`Plus", "System`Times", "System`Power", "System`List", "Global`f", "Global`g"}[r.Intn(6)]))
		if r.Intn(8) == 0 {
			head = aRand(r, depth-1, reals)
		}
		ps := []expreduceapi.Ex{head}
		for i := 0; i < n; i++ {
			ps = append(ps, aRand(r, depth-1, reals))
		}
		return aE(ps...)
	}
	for {
		switch r.Intn(8) {
		case 0, 1:
			return aI(int64(r.Intn(7) - 3))
		case 2:
			if r.Intn(3) == 0 {
				return aBig([]string{"123456789012345678901234567890", "-123456789012345678901234567890", "18446744073709551616", "9007199254740993"}[r.Intn(4)])
			}
			d := int64(r.Intn(4) + 2)
			return aQ(int64(r.Intn(9)-4)*d+1, d)
		case 3:
			if reals {
				switch k := r.Intn(9); k {
				case 7: // 0.5 as the rounded result of an operation
					return NewReal(new(big.Float).Add(big.NewFloat(0.1), big.NewFloat(0.4)))
				case 8:
					return aF(math.Copysign(0, -1))
				default:
					return aF([]float64{0, 1, -1, 0.5, 2.5, -3.25, 1e10}[k])
				}
			}
		case 4:
			return NewComplex(aI(int64(r.Intn(3)-1)), aI(int64(r.Intn(3)+1)))
		case 5:
			return NewString([]string{"", "a", "A", "ab", "b", "x"}[r.Intn(6)])
		default:
			return aS([]string{"Global`a", "Global`b", "Global`x", "Global`A", "Global`ab", "System`List", "System`a"}[r.Intn(7)])
		}
	}
}

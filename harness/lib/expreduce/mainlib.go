package expreduce

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// vFF prints an expression in full form, independently of the code under test.
func vFF(ex expreduceapi.Ex) string {
	switch x := ex.(type) {
	case nil:
		return "<nil>"
	case *atoms.Integer:
		return x.Val.String()
	case *atoms.Rational:
		return "Rational[" + x.Num.String() + ", " + x.Den.String() + "]"
	case *atoms.Flt:
		return "Real[" + x.Val.Text('g', 30) + "]"
	case *atoms.Complex:
		return "Complex[" + vFF(x.Re) + ", " + vFF(x.Im) + "]"
	case *atoms.String:
		return strconv.Quote(x.Val)
	case *atoms.Symbol:
		return strings.TrimPrefix(strings.TrimPrefix(x.Name, "System`"), "Global`")
	case *atoms.Expression:
		ps := x.GetParts()
		if len(ps) == 0 {
			return "<empty>"
		}
		var l []string
		for _, p := range ps[1:] {
			l = append(l, vFF(p))
		}
		return vFF(ps[0]) + "[" + strings.Join(l, ", ") + "]"
	}
	return fmt.Sprintf("<%T>", ex)
}

func vSym(n string) *atoms.Symbol {
	if strings.Contains(n, "`") {
		return atoms.NewSymbol(n)
	}
	if n != "" && n[0] >= 'A' && n[0] <= 'Z' {
		return atoms.NewSymbol("System`" + n)
	}
	return atoms.NewSymbol("Global`" + n)
}

func vInt(n int64) *atoms.Integer { return atoms.NewInteger(big.NewInt(n)) }

func vEx(head string, parts ...expreduceapi.Ex) expreduceapi.Ex {
	return atoms.NewExpression(append([]expreduceapi.Ex{vSym(head)}, parts...))
}

// vEv parses and evaluates one input line.
func vEv(es *EvalState, src string) string { return vFF(EvalInterp(src, es)) }

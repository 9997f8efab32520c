package expreduce

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

func m02Fresh(a expreduceapi.Ex) expreduceapi.Ex {
	switch x := a.(type) {
	case *atoms.Integer:
		return atoms.NewInteger(new(big.Int).Set(x.Val))
	case *atoms.Complex:
		return atoms.NewComplex(m02Fresh(x.Re), m02Fresh(x.Im))
	case *atoms.Symbol:
		return atoms.NewSymbol(x.Name)
	case *atoms.Expression:
		var l []expreduceapi.Ex
		for _, p := range x.GetParts() {
			l = append(l, m02Fresh(p))
		}
		return atoms.NewExpression(l)
	}
	return a
}

func m02Stale(a expreduceapi.Ex) string {
	x, ok := a.(*atoms.Expression)
	if !ok {
		if a.Hash() != m02Fresh(a).Hash() {
			return vFF(a)
		}
		return ""
	}
	for _, p := range x.GetParts() {
		if s := m02Stale(p); s != "" {
			return s
		}
	}
	if x.CachedHash != 0 && x.CachedHash != m02Fresh(x).Hash() {
		return vFF(x)
	}
	return ""
}

func m02gen(pick func(int) int, d int) string {
	if d == 0 || pick(4) == 0 {
		return []string{"a", "b", "c", "x", "1", "2", "1/2", "\"s\"", "I", "0", "f", "y"}[pick(12)]
	}
	g := func() string { return m02gen(pick, d-1) }
	l := func() string {
		var s []string
		for k := pick(4); k >= 0; k-- {
			s = append(s, g())
		}
		return strings.Join(s, ", ")
	}
	switch pick(22) {
	case 0:
		return "Sort[{" + l() + "}]"
	case 1:
		return "Union[{" + l() + "}]"
	case 2:
		return "Min[" + l() + "]"
	case 3:
		return "And[" + l() + "]"
	case 4:
		return "Or[" + l() + "]"
	case 5:
		return "(" + g() + " + " + g() + ")"
	case 6:
		return "(" + g() + " * " + g() + ")"
	case 7:
		return "ReplacePart[{" + l() + "}, {1 -> " + g() + ", 2 -> " + g() + "}]"
	case 8:
		return "Table[" + g() + ", {x, 2}]"
	case 9:
		return "Flatten[{" + l() + ", {" + l() + "}}]"
	case 10:
		return "({" + l() + "} /. " + g() + " -> " + g() + ")"
	case 11:
		return "Map[f, {" + l() + "}]"
	case 12:
		return "Apply[f, {" + l() + "}]"
	case 13:
		return "Hold[" + l() + "]"
	case 14:
		return "Complement[{" + l() + "}, {" + l() + "}]"
	case 15:
		return "Intersection[{" + l() + "}, {" + l() + "}]"
	case 16:
		return "Append[{" + l() + "}, " + g() + "]"
	case 17:
		return "f[" + l() + "]"
	case 18:
		return "Function[x, " + g() + "][" + g() + "]"
	case 19:
		return "Sequence[" + l() + "]"
	case 20:
		return "Cases[{" + l() + "}, _Symbol]"
	}
	return "{" + l() + "}"
}

// After any evaluation every hash an expression remembers is the one its contents give,
// and SameQ of two results is structural identity.
func TestVerifC02Evaluated(t *testing.T) {
	r := vStart(t, "results of generated evaluations", "nesting 3")
	defer r.Done()
	es := NewEvalState()
	n := 6000
	if r.Deep {
		n = 60000
	}
	prev := expreduceapi.Ex(atoms.NewInt(1))
	for c := 0; c < n && !r.Failed(); c++ {
		if c%200 == 0 {
			es = NewEvalState()
			vEv(es, "f[1]=x; f[x_, y_] := {y, x}; y = a + b")
		}
		src := m02gen(r.Rnd.Intn, 3)
		r.Run("remembered", src, func() {
			res := EvalInterp(src, es)
			s := m02Stale(res)
			r.Check("remembered", src, true, s == "", "every remembered hash fits the contents", "stale at "+s)
			want := vFF(res) == vFF(prev)
			got := atoms.IsSameQ(res, prev)
			r.Check("identity", vFF(res)+" ? "+vFF(prev), want, got == want, fmt.Sprint(want), fmt.Sprint(got))
			fr := m02Fresh(res)
			r.Check("identity", vFF(res)+" ? a rebuilt copy", true, atoms.IsSameQ(res, fr), "true", "false")
			prev = res
		})
	}
}

package expreduce

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

func TestVerifC04Language(t *testing.T) {
	r := vStart(t, "Sort, Order and an Orderless symbol on shuffled lists of terms", "7 terms")
	defer r.Done()
	es := NewEvalState()
	EvalInterp("SetAttributes[ol, Orderless]", es)
	terms := []string{"1", "2", "-1", "1/2", "10^40", "10^40+1", "10^40+2", "0.5", "1.*10^40", "\"a\"", "\"b\"", "\"B\"", "\"ab\"",
		"x", "y", "b", "X", "2*x", "3*x", "x*y", "2*x*y", "x^2", "x^y", "y^2", "2*y^2", "f[x]", "f[x,y]", "f[x]^2", "g[2]", "{}", "{x}", "x+y", "(x+y)^2", "I", "2*I", "a*b*c", "5*a*b*c"}
	n := 300
	if r.Deep {
		n = 5000
	}
	for i := 0; i < n && !r.Failed(); i++ {
		var l []string
		for k := 2 + r.Rnd.Intn(6); k > 0; k-- {
			l = append(l, terms[r.Rnd.Intn(len(terms))])
		}
		var ref, refo expreduceapi.Ex
		for j := 0; j < 3; j++ {
			r.Rnd.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
			src := strings.Join(l, ", ")
			var s, o expreduceapi.Ex
			r.Run("sort", src, func() {
				s = EvalInterp("Sort[{"+src+"}]", es)
				o = EvalInterp("ol["+src+"]", es)
			})
			if ref == nil {
				ref, refo = s, o
			}
			r.Check("sort", "Sort[{"+src+"}]", true, v04tied(s, ref), vFF(ref), vFF(s))
			r.Check("orderless", "ol["+src+"]", true, v04tied(o, refo), vFF(refo), vFF(o))
		}
		// like terms meet: the sum of coefficients times monomials
		ms := [][]string{{"a*b*c", "b*c", "c", "a*c", "b"}, {"x^2*y", "y", "x*y", "y^2"}, {"f[x]*x*y", "x*y", "f[x]", "y*z", "x*y*z"}}[r.Rnd.Intn(3)]
		sum := make([]int, len(ms))
		var ts, want []string
		for k := 2 + r.Rnd.Intn(5); k > 0; k-- {
			m, c := r.Rnd.Intn(len(ms)), r.Rnd.Intn(4)+1
			sum[m] += c
			ts = append(ts, fmt.Sprintf("%d*%s", c, ms[m]))
		}
		for m, c := range sum {
			if c != 0 {
				want = append(want, vFF(EvalInterp(fmt.Sprintf("%d*%s", c, ms[m]), es)))
			}
		}
		in := strings.Join(ts, " + ")
		got := EvalInterp(in, es)
		gs := []string{vFF(got)}
		if e, ok := got.(*atoms.Expression); ok && vFF(e.Parts[0]) == "Plus" {
			gs = nil
			for _, p := range e.Parts[1:] {
				gs = append(gs, vFF(p))
			}
		}
		sort.Strings(gs)
		sort.Strings(want)
		r.Check("like-terms-meet", in, true, fmt.Sprint(gs) == fmt.Sprint(want), fmt.Sprint(want), vFF(got))
		a, b := l[0], l[1]
		x, y := EvalInterp("Order["+a+", "+b+"]", es), EvalInterp("-Order["+b+", "+a+"]", es)
		r.Check("order", a+" , "+b, true, vFF(x) == vFF(y) && (vFF(x) == "1" || vFF(x) == "0" || vFF(x) == "-1"), "-Order of the swapped pair: "+vFF(y), vFF(x))
	}
}

func v04tied(a, b expreduceapi.Ex) bool {
	x, ok1 := a.(*atoms.Expression)
	y, ok2 := b.(*atoms.Expression)
	if !ok1 || !ok2 || len(x.Parts) != len(y.Parts) {
		return false
	}
	for i := range x.Parts {
		if fmt.Sprint(vFF(x.Parts[i])) != vFF(y.Parts[i]) && atoms.ExOrder(x.Parts[i], y.Parts[i]) != 0 {
			return false
		}
	}
	return true
}

package expreduce

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/matcher"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// c07Sub is substitution written from the statement: every occurrence at once,
// values never searched again.
func c07Sub(b map[string]expreduceapi.Ex, e expreduceapi.Ex) expreduceapi.Ex {
	switch x := e.(type) {
	case *atoms.Symbol:
		if v, ok := b[x.Name]; ok {
			return v
		}
	case *atoms.Expression:
		var l []expreduceapi.Ex
		for _, p := range x.Parts {
			l = append(l, c07Sub(b, p))
		}
		return atoms.NewExpression(l)
	}
	return e
}

var c07Names = []string{"Global`x", "Global`y", "Global`z", "Global`xx", "x", "System`x", "Global`f", "System`List", "System`Plus", "System`Sequence", "Global`X"}

// c07Nodes lists the expression nodes of e with their number of parts.
func c07Nodes(e expreduceapi.Ex, out map[*atoms.Expression]bool) {
	if x, ok := e.(*atoms.Expression); ok {
		out[x] = true
		for _, p := range x.Parts {
			c07Nodes(p, out)
		}
	}
}

func TestVerifC07Replace(t *testing.T) {
	r := vStart(t, "generated expressions with generated bindings, some values mentioning bound names", "depth 5, up to 5 bindings")
	defer r.Done()
	var gen func(d int) expreduceapi.Ex
	gen = func(d int) expreduceapi.Ex {
		if d > 0 && r.Rnd.Intn(4) > 0 {
			n := r.Rnd.Intn(4)
			var ps []expreduceapi.Ex
			if r.Rnd.Intn(4) == 0 {
				ps = append(ps, gen(d-1))
			} else {
				ps = append(ps, atoms.NewSymbol(c07Names[r.Rnd.Intn(len(c07Names))]))
			}
			for i := 0; i < n; i++ {
				ps = append(ps, gen(d-1))
			}
			return atoms.NewExpression(ps)
		}
		switch r.Rnd.Intn(7) {
		case 0:
			return vInt(int64(r.Rnd.Intn(9)))
		case 1:
			return atoms.NewString([]string{"Global`x", "x", "a"}[r.Rnd.Intn(3)])
		case 2:
			return atoms.NewRational(vInt(1).Val, vInt(3).Val)
		case 3:
			return atoms.NewComplex(vInt(2), vInt(1))
		}
		return atoms.NewSymbol(c07Names[r.Rnd.Intn(len(c07Names))])
	}
	n := 20000
	if r.Deep {
		n = 200000
	}
	es := NewEvalState()
	for c := 0; c < n && !r.Failed(); c++ {
		e := gen(1 + r.Rnd.Intn(5))
		b := map[string]expreduceapi.Ex{}
		pm := matcher.EmptyPD()
		for k := r.Rnd.Intn(6); k > 0; k-- {
			nm := c07Names[r.Rnd.Intn(len(c07Names))]
			v := gen(r.Rnd.Intn(3))
			if r.Rnd.Intn(10) == 0 {
				v = e // a value may be the expression itself
			}
			b[nm] = v
			pm.Define(nm, v)
		}
		if r.Rnd.Intn(3) == 0 {
			e.Hash()
		}
		var ks []string
		for k := range b {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		vals := map[string]string{}
		var sb []string
		for _, k := range ks {
			vals[k] = vFF(b[k])
			sb = append(sb, k+" -> "+vals[k])
		}
		before := vFF(e)
		in := before + " with {" + strings.Join(sb, ", ") + "}"
		want := vFF(c07Sub(b, e))
		r.Run("substitution", in, func() {
			res := matcher.ReplacePD(e, es, pm)
			got := vFF(res)
			r.Check("substitution", in, want != before, got == want, want, got)
			r.Check("original", in, want != before, vFF(e) == before, before, vFF(e))
			for _, k := range ks {
				r.Check("values", in, true, vFF(b[k]) == vals[k], vals[k], vFF(b[k]))
			}
			fresh := c07Sub(b, e)
			r.Check("identity", in, want != before, atoms.IsSameQ(res, fresh), "identical to "+want, "not identical by hash")
			// a second use of the same bindings gives the same
			r.Check("again", in, want != before, vFF(matcher.ReplacePD(e, es, pm)) == want, want, "something else")
			// rewriting the result's own top level leaves the original alone
			if x, ok := res.(*atoms.Expression); ok && want != before && atoms.ContainsSymbol(e, "Global`z") {
				if y, isE := e.(*atoms.Expression); isE {
					own := map[*atoms.Expression]bool{}
					c07Nodes(y, own)
					r.Check("own-storage", in, true, !own[x] || c07IsValue(b, x), "a new expression", "the original node")
				}
			}
		})
	}
}

func c07IsValue(b map[string]expreduceapi.Ex, x *atoms.Expression) bool {
	for _, v := range b {
		own := map[*atoms.Expression]bool{}
		c07Nodes(v, own)
		if own[x] {
			return true
		}
	}
	return false
}

// Occurrence scan: exactly the symbols that occur.
func TestVerifC07Contains(t *testing.T) {
	r := vStart(t, "one symbol at every position of small expressions", "up to 4 parts, depth 3")
	defer r.Done()
	var build func(d, n int, at []int) expreduceapi.Ex
	build = func(d, n int, at []int) expreduceapi.Ex {
		if d == 0 {
			if at != nil {
				return atoms.NewSymbol("Global`x")
			}
			return atoms.NewSymbol("Global`y")
		}
		var ps []expreduceapi.Ex
		for i := 0; i < n; i++ {
			var sub []int
			if len(at) > 0 && at[0] == i {
				sub = at[1:]
				if sub == nil {
					sub = []int{}
				}
			}
			ps = append(ps, build(d-1, n, sub))
		}
		return atoms.NewExpression(ps)
	}
	for d := 1; d <= 3; d++ {
		for n := 1; n <= 4; n++ {
			total := 1
			for i := 0; i < d; i++ {
				total *= n
			}
			for c := 0; c < total; c++ {
				at := []int{}
				for i, k := 0, c; i < d; i++ {
					at = append(at, k%n)
					k /= n
				}
				e := build(d, n, at)
				in := vFF(e)
				r.Run("occurs", in, func() {
					r.Check("occurs", in, true, atoms.ContainsSymbol(e, "Global`x"), "x occurs", "not found")
					none := build(d, n, nil)
					r.Check("occurs", vFF(none), true, !atoms.ContainsSymbol(none, "Global`x"), "x does not occur", "found")
				})
			}
		}
	}
}

// The constructs that apply bindings.
func TestVerifC07Constructs(t *testing.T) {
	r := vStart(t, "rules and definitions applied to permuted arguments", "the listed forms with 3 names")
	defer r.Done()
	names := []string{"a", "b", "c", "x", "y", "p"}
	for i, u := range names {
		for _, v := range names[i:] {
			for _, w := range names {
				es := NewEvalState()
				cases := [][2]string{
					{fmt.Sprintf("Replace[q[%s, %s], q[x_, y_] :> {y, x, x[y]}]", u, v), fmt.Sprintf("List[%s, %s, %s[%s]]", v, u, u, v)},
					{fmt.Sprintf("q[%s, %s] /. q[x_, y_] -> {y, x, k[x, y]}", u, v), fmt.Sprintf("List[%s, %s, k[%s, %s]]", v, u, u, v)},
				}
				cases = append(cases, [][2]string{
					// at any depth, in head position, in several places
					{fmt.Sprintf("g[1, q[%s, %s][q[%s]], q[%s, %s]] /. q[x_, y_] :> k[y, x]", u, v, u, v, u), fmt.Sprintf("g[1, k[%s, %s][q[%s]], k[%s, %s]]", v, u, u, u, v)},
					{fmt.Sprintf("Hold[g[q[%s, %s]]] /. q[x_, y_] :> x[y]", u, v), fmt.Sprintf("Hold[g[%s[%s]]]", u, v)},
					// no match: the same
					{fmt.Sprintf("g[1, q[%s], %s] /. q[x_, y_] :> k[y, x]", u, v), fmt.Sprintf("g[1, q[%s], %s]", u, v)},
					{fmt.Sprintf("Replace[g[q[%s, %s]], q[x_, y_] :> k[y, x]]", u, v), fmt.Sprintf("g[q[%s, %s]]", u, v)},
					// sequences
					{fmt.Sprintf("Replace[q[%s, %s], q[x__] :> k[x, 1, x]]", u, v), fmt.Sprintf("k[%s, %s, 1, %s, %s]", u, v, u, v)},
					{fmt.Sprintf("Replace[q[%s, %s], q[x_, y___] :> k[y, x, g[y]]]", u, v), fmt.Sprintf("k[%s, %s, g[%s]]", v, u, v)},
					{fmt.Sprintf("Replace[q[%s], q[x_, y___] :> k[y, x, g[y]]]", u), fmt.Sprintf("k[%s, g[]]", u)},
					// with a condition
					{fmt.Sprintf("Replace[q[%s, 1, %s], q[x_, n_, y_] :> k[y, x, n] /; n == 1]", u, v), fmt.Sprintf("k[%s, %s, 1]", v, u)},
					{fmt.Sprintf("Replace[q[%s, 2, %s], q[x_, n_, y_] :> k[y, x, n] /; n == 1]", u, v), fmt.Sprintf("q[%s, 2, %s]", u, v)},
					// the rule and the expression are used again
					{fmt.Sprintf("c7r = q[x_, y_] :> k[g[y], g[g[x]]]; c7e = l[q[%s, %s]]; {c7e /. c7r, q[%s, 3] /. c7r, c7e, c7r[[2]]}", u, v, v),
						fmt.Sprintf("List[l[k[g[%s], g[g[%s]]]], k[g[3], g[g[%s]]], l[q[%s, %s]], k[g[y], g[g[x]]]]", v, u, v, u, v)},
					// an expression without variables
					{fmt.Sprintf("g[%s, l[%s], 1] /. l[%s] -> m[%s, %s]", u, v, v, u, v), fmt.Sprintf("g[%s, m[%s, %s], 1]", u, u, v)},
					{fmt.Sprintf("g[z, l[z], z[1]] /. z -> %s", u), fmt.Sprintf("g[%s, l[%s], %s[1]]", u, u, u)},
					{fmt.Sprintf("Function[z, g[z, l[z], z[1]]][%s]", u), fmt.Sprintf("g[%s, l[%s], %s[1]]", u, u, u)},
					{fmt.Sprintf("(g[#2, l[#1], #1[#2], %s] &)[%s, %s]", w, u, v), fmt.Sprintf("g[%s, l[%s], %s[%s], %s]", v, u, u, v, w)},
				}...)
				for _, cs := range cases {
					r.Run("constructs", cs[0], func() {
						got := vEv(es, cs[0])
						r.Check("constructs", cs[0], true, got == cs[1], cs[1], got)
					})
				}
				in := fmt.Sprintf("h[x_, y_] := g[y, x, %s]; h[%s, %s]", w, u, v)
				r.Run("constructs", in, func() {
					vEv(es, fmt.Sprintf("h[x_, y_] := g[y, x, %s]", w))
					got := vEv(es, fmt.Sprintf("h[%s, %s]", u, v))
					want := fmt.Sprintf("g[%s, %s, %s]", v, u, c07w(w, u, v))
					r.Check("constructs", in, true, got == want, want, got)
				})
			}
		}
	}
}

func c07w(w, u, v string) string {
	switch w {
	case "x":
		return u
	case "y":
		return v
	}
	return w
}

package expreduce

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"
)

// one iterator: its text (without the variable) and the values it takes
type v08it struct {
	src  string
	vals []string
}

func v08q(q *big.Rat) string {
	if q.IsInt() {
		return q.Num().String()
	}
	return "Rational[" + q.Num().String() + ", " + q.Denom().String() + "]"
}

func v08src(q *big.Rat) string { return "(" + q.RatString() + ")" }

func v08rat(r *rand.Rand, ints bool) *big.Rat {
	d := int64(1)
	if !ints {
		d = int64(1 + r.Intn(4))
	}
	n := int64(r.Intn(25) - 12)
	q := big.NewRat(n, d)
	if r.Intn(12) == 0 {
		b, _ := new(big.Rat).SetString("1000000000000000000000000")
		q.Add(q, b)
	}
	return q
}

func v08range(a, b, s *big.Rat, lim int) ([]string, bool) {
	vals := []string{}
	for x := new(big.Rat).Set(a); ; x = new(big.Rat).Add(x, s) {
		c := x.Cmp(b)
		if s.Sign() > 0 && c > 0 || s.Sign() < 0 && c < 0 {
			return vals, true
		}
		vals = append(vals, v08q(x))
		if len(vals) > lim {
			return nil, false
		}
	}
}

func v08iter(r *rand.Rand, lim int) v08it {
	for {
		ints := r.Intn(3) > 0
		switch r.Intn(5) {
		case 0:
			n := v08rat(r, ints)
			if v, ok := v08range(big.NewRat(1, 1), n, big.NewRat(1, 1), lim); ok {
				return v08it{v08src(n), v}
			}
		case 1:
			a, b := v08rat(r, ints), v08rat(r, ints)
			if v, ok := v08range(a, b, big.NewRat(1, 1), lim); ok {
				return v08it{v08src(a) + ", " + v08src(b), v}
			}
		case 2, 3:
			a, b, s := v08rat(r, ints), v08rat(r, ints), v08rat(r, ints)
			if r.Intn(2) == 0 {
				k := big.NewRat(int64(r.Intn(8)-1), 1)
				b = new(big.Rat).Add(a, k.Mul(k, s))
			}
			if s.Sign() == 0 {
				continue
			}
			if v, ok := v08range(a, b, s, lim); ok {
				return v08it{v08src(a) + ", " + v08src(b) + ", " + v08src(s), v}
			}
		case 4:
			n := r.Intn(5)
			var v []string
			pool := []string{"1", "x", "1", "-3", "f[x]", "List[]", "\"t\"", "y", "Real[2.5]", "List[a, b]"}
			srcs := []string{"1", "x", "1", "-3", "f[x]", "{}", "\"t\"", "y", "2.5", "{a,b}"}
			var ss []string
			for i := 0; i < n; i++ {
				k := r.Intn(len(pool))
				v = append(v, pool[k])
				ss = append(ss, srcs[k])
			}
			return v08it{"{" + strings.Join(ss, ", ") + "}", v}
		}
	}
}

func v08combos(its []v08it) [][]string {
	out := [][]string{{}}
	for _, it := range its {
		var n [][]string
		for _, p := range out {
			for _, v := range it.vals {
				n = append(n, append(append([]string{}, p...), v))
			}
		}
		out = n
	}
	return out
}

func TestVerifC08Visits(t *testing.T) {
	r := vStart(t, "random exact ranges (both directions, rationals, large numbers), counts, lists; nested one to three deep", "40 values per iterator")
	defer r.Done()
	es := NewEvalState()
	n := 4000
	if r.Deep {
		n = 30000
	}
	plain, indexed := []string{"i", "j", "k"}, []string{"x[1]", "x[2]", "y[a]"}
	for c := 0; c < n && !r.Failed(); c++ {
		vars := append([]string{}, plain...)
		if c%4 == 3 {
			for k := range vars {
				if r.Rnd.Intn(2) == 0 {
					vars[k] = indexed[k]
				}
			}
		}
		d := 1 + r.Rnd.Intn(3)
		var its []v08it
		var specs, vs []string
		for k := 0; k < d; k++ {
			it := v08iter(r.Rnd, []int{40, 8, 5}[d-1])
			if r.Rnd.Intn(6) == 0 && !strings.HasPrefix(vars[k], "x") {
				// the bound, or the list, is what a variable holds
				a := strings.Split(it.src, ", ")
				if strings.HasPrefix(it.src, "{") {
					a = []string{it.src}
				}
				b := fmt.Sprintf("bnd%d", k)
				vEv(es, b+"="+a[len(a)-1])
				a[len(a)-1] = b
				it.src = strings.Join(a, ", ")
			}
			its = append(its, it)
			specs = append(specs, "{"+vars[k]+", "+it.src+"}")
			vs = append(vs, vars[k])
		}
		spec := strings.Join(specs, ", ")
		combos := v08combos(its)
		var want []string
		for _, p := range combos {
			want = append(want, "List["+strings.Join(p, ", ")+"]")
		}
		w := "List[" + strings.Join(want, ", ") + "]"
		body := "{" + strings.Join(vs, ", ") + "}"
		one := func(clause, src string) {
			var g string
			if r.Run(clause, src, func() { g = vEv(es, src) }) {
				r.Check(clause, src, len(combos) > 1, g == w, w, g)
			}
		}
		one("table", "Table["+body+", "+spec+"]")
		switch c % 3 {
		case 0:
			one("do", "acc={}; Do[acc=Append[acc,"+body+"], "+spec+"]; acc")
		case 1:
			if strings.Contains(body, "[") {
				continue
			}
			one("parallel-table", "ParallelTable["+body+", "+spec+"]")
		case 2:
			// the order in which the terms are evaluated
			one("sum", "acc={}; Sum[acc=Append[acc,"+body+"];0, "+spec+"]; acc")
		}
		if d == 1 && !strings.HasPrefix(its[0].src, "{") && !strings.HasPrefix(its[0].src, "bnd") {
			src := "Range[" + its[0].src + "]"
			w1 := "List[" + strings.Join(its[0].vals, ", ") + "]"
			var g string
			r.Run("range", src, func() { g = vEv(es, src) })
			r.Check("range", src, len(combos) > 1, g == w1, w1, g)
		}
		if c == 0 {
			src := "ParallelTable[x[1], {x[1], 3}]"
			g := vEv(es, src)
			r.Check("parallel-indexed", src, true, g == "List[1, 2, 3]", "List[1, 2, 3]", g)
		}
		g := vEv(es, "{i, j, k, x[1], x[2], y[a]}")
		r.Check("left-unset", spec, true, g == "List[i, j, k, x[1], x[2], y[a]]", "List[i, j, k, x[1], x[2], y[a]]", g)
	}
}

func TestVerifC08Restore(t *testing.T) {
	r := vStart(t, "iterations with variables that have a value before or none, ended normally or by Throw or Return", "three iterators")
	defer r.Done()
	es := NewEvalState()
	n := 4000
	if r.Deep {
		n = 30000
	}
	vars := []string{"i", "j", "k"}
	for c := 0; c < n && !r.Failed(); c++ {
		var set, before []string
		for _, v := range vars {
			val := []string{"", "", "7", "f[x]", "{1,2}", "\"s\"", "1/2", "q", "True", "2.5", "1+2*I", "g", "i0_", "Infinity"}[r.Rnd.Intn(14)]
			if val == "" {
				set = append(set, "Clear["+v+"]")
			} else {
				set = append(set, v+"="+val)
			}
		}
		for _, s := range set {
			vEv(es, s)
		}
		for _, v := range vars {
			before = append(before, vEv(es, v))
		}
		d := 1 + r.Rnd.Intn(3)
		perm := r.Rnd.Perm(3)
		var specs []string
		total := 1
		var its []v08it
		for k := 0; k < d; k++ {
			it := v08iter(r.Rnd, 6)
			total *= len(it.vals)
			its = append(its, it)
			v := vars[perm[k]]
			if r.Rnd.Intn(8) == 0 {
				v = vars[perm[0]] // the same variable twice
			}
			specs = append(specs, "{"+v+", "+it.src+"}")
		}
		spec := strings.Join(specs, ", ")
		stop := 1 + r.Rnd.Intn(total+2)
		ev := fmt.Sprintf("cnt=cnt+1; If[cnt==%d, %%s]", stop)
		if r.Rnd.Intn(4) == 0 {
			ev = fmt.Sprintf("%s=99; ", vars[perm[0]]) + ev
		}
		var src string
		switch c % 5 {
		case 0:
			src = "Catch[Table[" + fmt.Sprintf(ev, "Throw[5]") + ", " + spec + "]]"
		case 1:
			src = "Catch[Do[" + fmt.Sprintf(ev, "Throw[5]") + ", " + spec + "]]"
		case 2:
			src = "Do[" + fmt.Sprintf(ev, "Return[5]") + ", " + spec + "]"
		case 3:
			src = "Catch[Sum[" + fmt.Sprintf(ev, "Throw[5]") + ";1, " + spec + "]]"
		case 4:
			src = "Catch[Product[" + fmt.Sprintf(ev, "Throw[5]") + ";2, " + spec + "]]"
		}
		in := strings.Join(set, "; ") + "; cnt=0; " + src
		var res string
		if !r.Run("ends", in, func() { vEv(es, "cnt=0"); res = vEv(es, src) }) {
			return
		}
		if stop <= total {
			r.Check("stopped", in, true, res == "5", "5", res)
		}
		var after []string
		for _, v := range vars {
			after = append(after, vEv(es, v))
		}
		r.Check("restored", in, true, strings.Join(after, " ") == strings.Join(before, " "), strings.Join(before, " "), strings.Join(after, " "))
	}
}

// Iterations inside iterations (the inner bounds may use the outer variable,
// the inner variable may be the outer one), and specifications that prescribe
// no values because they are not iterators.
func TestVerifC08Nested(t *testing.T) {
	r := vStart(t, "Table inside Table inside Do with bounds that use the outer variable or reuse its name; malformed iterators next to proper ones", "two levels of iteration, eleven malformed forms")
	defer r.Done()
	es := NewEvalState()
	n := 1500
	if r.Deep {
		n = 10000
	}
	bad := []string{"{i, q}", "{1, 5}", "{i}", "{}", "i", "{i, 1, q}", "{i, q, 3}", "{i, 1, 3, q}", "{i, 1, 2, 1, 1}", "{\"i\", 3}", "{i, f[x]}"}
	for c := 0; c < n && !r.Failed(); c++ {
		it := v08iter(r.Rnd, 6)
		if strings.HasPrefix(it.src, "{") {
			it = v08it{"-1, 3", []string{"-1", "0", "1", "2", "3"}}
		}
		m := int64(r.Rnd.Intn(5) - 1)
		var rows, flat []string
		same := r.Rnd.Intn(3) == 0
		in := "j"
		if same {
			in = "i"
		}
		for _, v := range it.vals {
			q, ok := new(big.Rat).SetString(v)
			if !ok {
				var a, b int64
				if k, _ := fmt.Sscanf(v, "Rational[%d, %d]", &a, &b); k != 2 {
					q = nil
				} else {
					q = big.NewRat(a, b)
				}
			}
			if q == nil {
				rows = nil
				break
			}
			var cells []string
			for k := int64(0); k <= m; k++ {
				w := v08q(new(big.Rat).Add(q, big.NewRat(k, 1)))
				cells = append(cells, "List["+v+", "+w+"]")
				if same {
					cells[k] = "List[" + w + ", " + w + "]"
				}
			}
			flat = append(flat, cells...)
			rows = append(rows, "List["+strings.Join(cells, ", ")+"]")
		}
		if rows != nil || len(it.vals) == 0 {
			inner := fmt.Sprintf("Table[{i, %s}, {%s, i, i+(%d)}]", in, in, m)
			src := "Table[" + inner + ", {i, " + it.src + "}]"
			w := "List[" + strings.Join(rows, ", ") + "]"
			var g string
			if r.Run("nested", src, func() { g = vEv(es, src) }) {
				r.Check("nested", src, len(rows) > 1, g == w, w, g)
			}
			src = "acc={}; Do[Do[acc=Append[acc,{i," + in + "}], {" + in + ", i, i+(" + fmt.Sprint(m) + ")}], {i, " + it.src + "}]; acc"
			w = "List[" + strings.Join(flat, ", ") + "]"
			if r.Run("nested-do", src, func() { g = vEv(es, src) }) {
				r.Check("nested-do", src, len(flat) > 1, g == w, w, g)
			}
		}
		b := bad[r.Rnd.Intn(len(bad))]
		head := []string{"Table", "Do", "Sum"}[r.Rnd.Intn(3)]
		spec := b
		switch r.Rnd.Intn(3) {
		case 0:
			spec = "{k, 2}, " + b
		case 1:
			spec = b + ", {k, 2}"
		}
		if head != "Do" || !strings.Contains(spec, "{}") {
			src := "cnt=0; {Head[" + head + "[cnt=cnt+1, " + spec + "]], cnt}"
			w := "List[" + head + ", 0]"
			var g string
			if r.Run("malformed", src, func() { g = vEv(es, src) }) {
				r.Check("malformed", src, true, g == w, w, g)
			}
		}
		g := vEv(es, "{i, j, k}")
		r.Check("nested-unset", spec, true, g == "List[i, j, k]", "List[i, j, k]", g)
	}
}

package atoms

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"testing"

	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// v04num draws a number; close ones (equal as rounded reals) are frequent.
func v04num(r *rand.Rand) expreduceapi.Ex {
	big40 := new(big.Int).Exp(big.NewInt(10), big.NewInt(40), nil)
	switch r.Intn(12) {
	case 0, 1, 2:
		return aI(int64(r.Intn(5) - 2))
	case 3, 4:
		d := int64(2 + r.Intn(3))
		return aQ(int64(r.Intn(7)-3)*d+1, d)
	case 5:
		return NewInteger(new(big.Int).Add(big40, big.NewInt(int64(r.Intn(3)-1))))
	case 6:
		return NewInteger(new(big.Int).Neg(new(big.Int).Add(big40, big.NewInt(int64(r.Intn(3)-1)))))
	case 7:
		return NewRational(new(big.Int).Add(big40, big.NewInt(int64(1+2*r.Intn(3)))), new(big.Int).Mul(big40, big.NewInt(2)))
	case 8, 9:
		return aF([]float64{0, 0.5, 1, 2, -1, 1.0 / 3, 1e40}[r.Intn(7)])
	case 10:
		return NewComplex(aI(int64(r.Intn(3)-1)), aI(int64(1+r.Intn(2))))
	default:
		return NewComplex(aQ(1, 2), aF(1.5))
	}
}

func v04atom(r *rand.Rand) expreduceapi.Ex {
	switch r.Intn(6) {
	case 0, 1:
		return v04num(r)
	case 2:
		return NewString([]string{"", "a", "b", "B", "ab", "abc", "a ", "é", "\xff", "Z"}[r.Intn(10)])
	default:
		return aS([]string{"Global`a", "Global`b", "Zz`x", "Global`x", "System`List", "Global`ab", "Global`A", "System`Times", "System`Power"}[r.Intn(9)])
	}
}

// v04norm draws an expression as evaluation leaves it: products are flat, have
// at least two factors and at most one number, in front.
func v04norm(r *rand.Rand, d int) expreduceapi.Ex {
	if d == 0 {
		return v04atom(r)
	}
	switch k := r.Intn(10); {
	case k < 3:
		return v04atom(r)
	case k < 5:
		return aE(aS("System`Power"), v04norm(r, d-1), v04norm(r, d-1))
	case k < 8:
		var c expreduceapi.Ex
		if r.Intn(2) == 0 {
			c = v04num(r)
		}
		return v04prod(c, v04factors(r, d))
	default:
		ps := []expreduceapi.Ex{aS([]string{"Global`f", "Global`g", "System`Plus"}[r.Intn(3)])}
		if r.Intn(6) == 0 {
			ps[0] = v04norm(r, d-1)
		}
		for i := r.Intn(4); i > 0; i-- {
			ps = append(ps, v04norm(r, d-1))
		}
		if s, ok := ps[0].(*Symbol); ok && s.Name == "System`Times" {
			ps[0] = aS("Global`f")
		}
		return aE(ps...)
	}
}

func v04isProd(x expreduceapi.Ex) bool {
	e, ok := x.(*Expression)
	if !ok {
		return false
	}
	s, ok := e.Parts[0].(*Symbol)
	return ok && s.Name == "System`Times"
}

func v04isNum(x expreduceapi.Ex) bool {
	switch x.(type) {
	case *Integer, *Rational, *Flt, *Complex:
		return true
	}
	return false
}

func v04factors(r *rand.Rand, d int) []expreduceapi.Ex {
	var fs []expreduceapi.Ex
	for n := 1 + r.Intn(3); n > 0; n-- {
		for {
			x := v04norm(r, d-1)
			if _, str := x.(*String); !str && !v04isNum(x) && !v04isProd(x) {
				fs = append(fs, x)
				break
			}
		}
	}
	return fs
}

func v04prod(c expreduceapi.Ex, fs []expreduceapi.Ex) expreduceapi.Ex {
	if c == nil && len(fs) == 1 {
		return fs[0]
	}
	ps := []expreduceapi.Ex{aS("System`Times")}
	if c != nil {
		ps = append(ps, c)
	}
	return aE(append(ps, fs...)...)
}

// a small change of an expression, so that pairs and triples differ late
func v04near(r *rand.Rand, x expreduceapi.Ex) expreduceapi.Ex {
	if e, ok := x.(*Expression); ok && r.Intn(3) > 0 && len(e.Parts) > 1 && !v04isProd(x) {
		ps := append([]expreduceapi.Ex{}, e.Parts...)
		i := 1 + r.Intn(len(ps)-1)
		ps[i] = v04near(r, ps[i])
		return aE(ps...)
	}
	if v04isProd(x) {
		e := x.(*Expression)
		fs := append([]expreduceapi.Ex{}, e.Parts[1:]...)
		var c expreduceapi.Ex
		if v04isNum(fs[0]) {
			c, fs = fs[0], fs[1:]
		}
		switch r.Intn(3) {
		case 0:
			c = v04num(r)
		case 1:
			c = nil
		default:
			i := r.Intn(len(fs))
			fs[i] = v04atom(r)
			for v04class(fs[i]) < 2 {
				fs[i] = v04atom(r)
			}
		}
		return v04prod(c, fs)
	}
	if r.Intn(3) == 0 && !v04isNum(x) {
		return v04prod(v04num(r), []expreduceapi.Ex{x})
	}
	if r.Intn(4) == 0 {
		return aE(aS("System`Power"), x, v04atom(r))
	}
	return v04norm(r, 1)
}

func v04sgn(n int) string { return fmt.Sprint(n) }

func v04rat(x expreduceapi.Ex) *big.Rat {
	switch n := x.(type) {
	case *Integer:
		return new(big.Rat).SetInt(n.Val)
	case *Rational:
		return new(big.Rat).SetFrac(n.Num, n.Den)
	}
	return nil
}

func v04class(x expreduceapi.Ex) int {
	switch x.(type) {
	case *Integer, *Rational, *Flt, *Complex:
		return 0
	case *String:
		return 1
	}
	return 2
}

func v04text(a, b string) int64 {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] < b[i] {
			return 1
		}
		if a[i] > b[i] {
			return -1
		}
	}
	switch {
	case len(a) < len(b):
		return 1
	case len(a) > len(b):
		return -1
	}
	return 0
}

func v04pair(r *vRec, a, b expreduceapi.Ex) {
	in := aFF(a) + " vs " + aFF(b)
	var ab, ba, aa int64
	fa, fb := aFF(a), aFF(b)
	r.Run("answers", in, func() { ab, ba, aa = ExOrder(a, b), ExOrder(b, a), ExOrder(a, a) })
	r.Check("three-way", in, true, ab >= -1 && ab <= 1, "-1, 0 or 1", fmt.Sprint(ab))
	r.Check("swap", in, ab != 0, ab == -ba, fmt.Sprint(-ab), fmt.Sprint(ba))
	r.Check("itself", fa, true, aa == 0, "0", fmt.Sprint(aa))
	r.Check("unmodified", in, true, fa == aFF(a) && fb == aFF(b), fa+" vs "+fb, aFF(a)+" vs "+aFF(b))
	ca, cb := v04class(a), v04class(b)
	if ca != cb {
		w := int64(1)
		if ca > cb {
			w = -1
		}
		r.Check("kinds", in, true, ab == w, fmt.Sprint(w), fmt.Sprint(ab))
	}
	if x, y := v04rat(a), v04rat(b); x != nil && y != nil {
		w := int64(y.Cmp(x))
		r.Check("value", in, w != 0, ab == w, fmt.Sprint(w), fmt.Sprint(ab))
	}
	if x, ok := a.(*String); ok {
		if y, ok := b.(*String); ok {
			r.Check("text", in, true, ab == v04text(x.Val, y.Val), fmt.Sprint(v04text(x.Val, y.Val)), fmt.Sprint(ab))
		}
	}
	if x, ok := a.(*Symbol); ok {
		if y, ok := b.(*Symbol); ok {
			r.Check("text", in, true, ab == v04text(x.Name, y.Name), fmt.Sprint(v04text(x.Name, y.Name)), fmt.Sprint(ab))
		}
	}
}

func v04triple(r *vRec, a, b, c expreduceapi.Ex) {
	in := aFF(a) + " | " + aFF(b) + " | " + aFF(c)
	r.Run("transitive", in, func() {
		ab, bc, ac := ExOrder(a, b), ExOrder(b, c), ExOrder(a, c)
		if ab >= 0 && bc >= 0 {
			w := ab
			if bc > w {
				w = bc
			}
			r.Check("transitive", in, w > 0, ac == w, fmt.Sprint(w), fmt.Sprint(ac))
		}
	})
}

func TestVerifC04Order(t *testing.T) {
	r := vStart(t, "all pairs and triples of a fixed set of atoms; random normal-form expressions and slightly changed copies", "depth 3")
	defer r.Done()
	var atoms []expreduceapi.Ex
	p40 := "10000000000000000000000000000000000000000"
	for _, s := range []string{"0", "1", "-1", "2", "10", "9007199254740992", "9007199254740993", "9007199254740994", p40, p40[:40] + "1", p40[:40] + "2", "-" + p40, "-" + p40[:40] + "1"} {
		atoms = append(atoms, aBig(s))
	}
	atoms = append(atoms, aQ(1, 2), aQ(-1, 2), aQ(1, 3), aQ(2, 3), aQ(3, 2), NewRational(aBig("10000000000000000000000000000000000000001").Val, aBig("20000000000000000000000000000000000000000").Val),
		NewRational(aBig("33333333333333333333333333333333333").Val, aBig("100000000000000000000000000000000000").Val))
	for _, f := range []float64{0, 1, -1, 0.5, 1.0 / 3, 9007199254740992, 1e40} {
		atoms = append(atoms, aF(f))
	}
	atoms = append(atoms, NewComplex(aI(0), aI(1)), NewComplex(aQ(1, 2), aI(1)), NewComplex(aI(1), aF(2)))
	for _, s := range []string{"", "a", "b", "A", "ab", "aa", "a\x00", "\xff", "é", "z"} {
		atoms = append(atoms, NewString(s))
	}
	for _, s := range []string{"Global`a", "Global`b", "Global`A", "Global`aa", "System`a", "A`z", "Global`", "System`Power"} {
		atoms = append(atoms, aS(s))
	}
	for _, a := range atoms {
		for _, b := range atoms {
			v04pair(r, a, b)
			for _, c := range atoms {
				v04triple(r, a, b, c)
			}
			if r.Failed() {
				return
			}
		}
	}
	// long texts and wide expressions, changed at one place
	for i := 0; i < 1500 && !r.Failed(); i++ {
		l := 1 + r.Rnd.Intn(300)
		if i%5 == 0 {
			l = 2000 + r.Rnd.Intn(3000)
		}
		b := make([]byte, l)
		for j := range b {
			b[j] = "abAB`z"[r.Rnd.Intn(6)]
		}
		c := append([]byte{}, b...)
		c[r.Rnd.Intn(l)] = "abAB`z"[r.Rnd.Intn(6)]
		d := append([]byte{}, c[:l-r.Rnd.Intn(l)]...)
		v04pair(r, NewString(string(b)), NewString(string(c)))
		v04pair(r, aS(string(b)), aS(string(c)))
		v04pair(r, aS(string(b)), aS(string(d)))
		v04triple(r, aS(string(b)), aS(string(c)), aS(string(d)))
	}
	for i := 0; i < 300 && !r.Failed(); i++ {
		l := 1 + r.Rnd.Intn(200)
		mk := func() []expreduceapi.Ex { return []expreduceapi.Ex{aS("Global`f")} }
		x, y := mk(), mk()
		k := r.Rnd.Intn(l)
		for j := 0; j < l; j++ {
			e := v04atom(r.Rnd)
			x = append(x, e)
			if j == k {
				e = v04atom(r.Rnd)
			}
			y = append(y, e)
		}
		a, b := expreduceapi.Ex(NewExpression(x)), expreduceapi.Ex(NewExpression(y))
		v04pair(r, a, b)
		if w := ExOrder(x[k+1], y[k+1]); true {
			r.Check("first-difference", aFF(a)+" vs "+aFF(b), w != 0, ExOrder(a, b) == w, fmt.Sprint(w), fmt.Sprint(ExOrder(a, b)))
		}
	}
	n := 30000
	if r.Deep {
		n = 600000
	}
	for i := 0; i < n && !r.Failed(); i++ {
		a := v04norm(r.Rnd, 3)
		b, c := v04norm(r.Rnd, 3), v04norm(r.Rnd, 3)
		if i%3 > 0 {
			b = v04near(r.Rnd, a)
			c = v04near(r.Rnd, b)
		}
		if i%3 == 2 {
			c = v04near(r.Rnd, a)
		}
		v04pair(r, a, b)
		v04triple(r, a, b, c)
		v04triple(r, c, a, b)
		v04triple(r, b, c, a)
		v04triple(r, a, c, b)
	}
}

// like terms: coefficients do not decide between different monomials, nor
// exponents between different bases
func TestVerifC04Like(t *testing.T) {
	r := vStart(t, "random monomials with random coefficients, random bases with random exponents", "depth 2")
	defer r.Done()
	n := 20000
	if r.Deep {
		n = 300000
	}
	for i := 0; i < n && !r.Failed(); i++ {
		m1, m2 := v04factors(r.Rnd, 2), v04factors(r.Rnd, 2)
		if i%2 == 0 {
			m2 = append([]expreduceapi.Ex{}, m1...)
			if r.Rnd.Intn(2) == 0 && len(m2) > 1 {
				if m2 = m2[:len(m2)-1]; r.Rnd.Intn(2) == 0 {
					m2 = append(m2[:0:0], m1[1:]...)
				}
			} else {
				m2[r.Rnd.Intn(len(m2))] = v04factors(r.Rnd, 1)[0]
			}
		}
		w := ExOrder(v04prod(nil, m1), v04prod(nil, m2))
		if w != 0 {
			var c1, c2 expreduceapi.Ex
			if r.Rnd.Intn(3) > 0 {
				c1 = v04num(r.Rnd)
			}
			if r.Rnd.Intn(3) > 0 {
				c2 = v04num(r.Rnd)
			}
			x, y := v04prod(c1, m1), v04prod(c2, m2)
			g := ExOrder(x, y)
			r.Check("like-terms", aFF(x)+" vs "+aFF(y), true, g == w, fmt.Sprint(w), fmt.Sprint(g))
		}
		b1, b2 := v04norm(r.Rnd, 1), v04norm(r.Rnd, 1)
		if v04isProd(b1) || v04isProd(b2) || v04class(b1) == 1 || v04class(b2) == 1 {
			continue
		}
		if w := ExOrder(aE(aS("System`Power"), b1, aI(1)), aE(aS("System`Power"), b2, aI(1))); w != 0 && ExOrder(b1, b2) == w {
			x, y := aE(aS("System`Power"), b1, v04norm(r.Rnd, 1)), aE(aS("System`Power"), b2, v04norm(r.Rnd, 1))
			g := ExOrder(x, y)
			r.Check("like-bases", aFF(x)+" vs "+aFF(y), true, g == w, fmt.Sprint(w), fmt.Sprint(g))
		}
	}
}

func TestVerifC04Sort(t *testing.T) {
	r := vStart(t, "random part lists sorted from several initial arrangements", "up to 7 parts, depth 2")
	defer r.Done()
	n := 3000
	if r.Deep {
		n = 60000
	}
	for i := 0; i < n && !r.Failed(); i++ {
		ps := []expreduceapi.Ex{aS("System`List")}
		for k := r.Rnd.Intn(7); k >= 0; k-- {
			x := v04norm(r.Rnd, 2)
			if len(ps) > 1 && r.Rnd.Intn(2) == 0 {
				x = v04near(r.Rnd, ps[1+r.Rnd.Intn(len(ps)-1)])
			}
			ps = append(ps, x)
		}
		var first *Expression
		for j := 0; j < 4; j++ {
			q := append([]expreduceapi.Ex{}, ps...)
			r.Rnd.Shuffle(len(q)-1, func(a, b int) { q[a+1], q[b+1] = q[b+1], q[a+1] })
			e := aE(q...)
			in := aFF(e)
			r.Run("sort", in, func() { sort.Sort(e) })
			// a permutation of the parts
			var s1, s2 []string
			for k := range q {
				s1, s2 = append(s1, aFF(ps[k])), append(s2, aFF(e.Parts[k]))
			}
			sort.Strings(s1[1:])
			sort.Strings(s2[1:])
			r.Check("same-parts", in, true, fmt.Sprint(s1) == fmt.Sprint(s2), fmt.Sprint(s1), fmt.Sprint(s2))
			if first == nil {
				first = e
			}
			ok := true
			for k := 1; k < len(q); k++ {
				if k+1 < len(q) && ExOrder(e.Parts[k], e.Parts[k+1]) < 0 {
					ok = false
				}
				if ExOrder(e.Parts[k], first.Parts[k]) != 0 {
					ok = false
				}
			}
			r.Check("arrangement", in, true, ok, aFF(first), aFF(e))
		}
	}
}

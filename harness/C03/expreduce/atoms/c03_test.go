package atoms

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"testing"

	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// every storage cell reachable from an expression: nodes, number payloads and
// part-list arrays, by address
func c03Cells(ex expreduceapi.Ex, m map[uintptr]string) {
	put := func(p interface{}, what string) {
		v := reflect.ValueOf(p)
		if !v.IsNil() {
			m[v.Pointer()] = what
		}
	}
	switch x := ex.(type) {
	case *Integer:
		put(x, "Integer "+aFF(x))
		put(x.Val, "value of Integer "+aFF(x))
		c03Words(x.Val, m)
	case *Rational:
		put(x, "Rational "+aFF(x))
		put(x.Num, "numerator of "+aFF(x))
		put(x.Den, "denominator of "+aFF(x))
		c03Words(x.Num, m)
		c03Words(x.Den, m)
	case *Flt:
		put(x, "Real "+aFF(x))
		put(x.Val, "value of Real "+aFF(x))
	case *Complex:
		put(x, "Complex "+aFF(x))
		c03Cells(x.Re, m)
		c03Cells(x.Im, m)
	case *String:
		put(x, "String "+aFF(x))
	case *Symbol:
		put(x, "Symbol "+aFF(x))
	case *Expression:
		put(x, "node of "+aFF(x))
		if cap(x.Parts) > 0 {
			m[reflect.ValueOf(x.Parts).Pointer()] = "part list of " + aFF(x)
		}
		for _, p := range x.Parts {
			c03Cells(p, m)
		}
	}
}

func c03Words(i *big.Int, m map[uintptr]string) {
	if w := i.Bits(); len(w) > 0 {
		m[reflect.ValueOf(w).Pointer()] = "digits of " + i.String()
	}
}

// overwrite everything reachable
func c03Wreck(ex expreduceapi.Ex) {
	switch x := ex.(type) {
	case *Integer:
		x.Val.Add(x.Val.Lsh(x.Val, 3), big.NewInt(77))
		if w := x.Val.Bits(); len(w) > 0 {
			w[0] ^= 0x55
		}
	case *Rational:
		x.Num.SetInt64(91)
		x.Den.SetInt64(97)
	case *Flt:
		x.Val.SetFloat64(123.5)
	case *Complex:
		c03Wreck(x.Re)
		c03Wreck(x.Im)
		x.Re, x.Im = aI(5), aI(6)
	case *String:
		x.Val = x.Val + "!"
	case *Symbol:
		x.Name = x.Name + "!"
	case *Expression:
		for _, p := range x.Parts {
			c03Wreck(p)
		}
		full := x.Parts[:cap(x.Parts)]
		for i := range full {
			full[i] = aS("Global`wrecked")
		}
		x.Parts = append(x.Parts, aS("Global`extra"))
	}
}

func c03State(ex expreduceapi.Ex) string {
	s := aFF(ex)
	var rec func(e expreduceapi.Ex)
	rec = func(e expreduceapi.Ex) {
		switch x := e.(type) {
		case *Expression:
			s += fmt.Sprintf("|%v %v %d %d", x.needsEval, x.correctlyInstantiated, x.EvaledHash, x.CachedHash)
			for _, p := range x.Parts {
				rec(p)
			}
		case *Integer:
			s += fmt.Sprintf("|%d", x.cachedHash)
		case *Symbol:
			s += fmt.Sprintf("|%d", x.cachedHash)
		case *Rational:
			s += fmt.Sprintf("|%v", x.needsEval)
		case *Complex:
			s += fmt.Sprintf("|%v", x.needsEval)
			rec(x.Re)
			rec(x.Im)
		}
	}
	rec(ex)
	return s
}

func c03Kinds(ex expreduceapi.Ex) string {
	s := fmt.Sprintf("%T", ex)
	switch x := ex.(type) {
	case *Expression:
		for _, p := range x.Parts {
			s += "," + c03Kinds(p)
		}
	case *Complex:
		s += "(" + c03Kinds(x.Re) + "," + c03Kinds(x.Im) + ")"
	}
	return s
}

func c03Inputs(r *vRec) []func() expreduceapi.Ex {
	fs := []func() expreduceapi.Ex{
		func() expreduceapi.Ex { return aI(0) },
		func() expreduceapi.Ex { return aI(7) },
		func() expreduceapi.Ex { return aBig("-123456789012345678901234567890") },
		func() expreduceapi.Ex { return aQ(-3, 7) },
		func() expreduceapi.Ex { return aF(2.5) },
		func() expreduceapi.Ex { return NewComplex(aI(1), aI(2)) },
		func() expreduceapi.Ex { return NewComplex(aQ(1, 2), aF(2)) },
		func() expreduceapi.Ex { return NewString("") },
		func() expreduceapi.Ex { return NewString("héllo") },
		func() expreduceapi.Ex { return aS("Global`x") },
		func() expreduceapi.Ex { return aE(aS("System`List")) },
		func() expreduceapi.Ex { return aE(aS("Global`f"), aI(1)) },
		func() expreduceapi.Ex { return aE(aE(aS("Global`f"), aI(1)), aI(2), aI(3)) },
		func() expreduceapi.Ex {
			return aE(aS("System`List"), NewComplex(aI(1), aI(2)), aE(aS("Global`g"), aQ(1, 2), NewString("s")), aF(1.5))
		},
		func() expreduceapi.Ex {
			e := aE(aS("Global`f"))
			for i := 0; i < 20; i++ {
				e.AppendEx(aI(int64(i)))
			}
			return e
		},
		func() expreduceapi.Ex {
			var e expreduceapi.Ex = aI(3)
			for i := 0; i < 40; i++ {
				e = aE(aS("Global`f"), e, aI(int64(i)))
			}
			return e
		},
		func() expreduceapi.Ex {
			e := aE(aS("Global`f"), aE(aS("Global`g"), aI(1)), aI(2))
			e.Hash()
			e.EvaledHash = 5
			e.SetNeedsEval(false)
			return e
		},
	}
	n := 300
	if r.Deep {
		n = 6000
	}
	for i := 0; i < n; i++ {
		seed := r.Rnd.Int63()
		fs = append(fs, func() expreduceapi.Ex { return aRand(rand.New(rand.NewSource(seed)), 4, true) })
	}
	return fs
}

func TestC03DeepCopy(t *testing.T) {
	r := vStart(t, "a deep copy is structurally the same, shares no storage and leaves the source as it was", "17 fixed expressions and seeded random ones of depth 4")
	defer r.Done()
	for _, f := range c03Inputs(r) {
		x := f()
		in := aFF(x)
		r.Run("deepcopy", in, func() {
			before := c03State(x)
			y := x.DeepCopy()
			r.Check("deepcopy-same", in, true, aFF(y) == in && c03Kinds(y) == c03Kinds(x), in, aFF(y))
			r.Check("deepcopy-source", in, true, c03State(x) == before, before, c03State(x))
			a, b := map[uintptr]string{}, map[uintptr]string{}
			c03Cells(x, a)
			c03Cells(y, b)
			shared := ""
			for p, w := range a {
				if _, ok := b[p]; ok {
					shared = w
				}
			}
			r.Check("deepcopy-own-storage", in, true, shared == "", "no shared storage", "shared "+shared)
			c03Wreck(y)
			r.Check("deepcopy-independent", in, true, c03State(x) == before, before, c03State(x))
			z := x.DeepCopy()
			c03Wreck(x)
			r.Check("deepcopy-independent2", in, true, aFF(z) == in, in, aFF(z))
		})
	}
}

func TestC03ShallowCopy(t *testing.T) {
	r := vStart(t, "a shallow copy has the same parts in a part list of its own", "the same expressions; every part replaced, parts appended to either")
	defer r.Done()
	for _, f := range c03Inputs(r) {
		x, ok := f().(*Expression)
		if !ok {
			continue
		}
		in := aFF(x)
		for _, spare := range []int{0, 3} {
			if spare > 0 {
				p := make([]expreduceapi.Ex, len(x.Parts), len(x.Parts)+spare)
				copy(p, x.Parts)
				x.Parts = p
			}
			for kind, mk := range map[string]func() *Expression{
				"ShallowCopy": func() *Expression { return ShallowCopy(x) },
				"Copy":        func() *Expression { return x.Copy().(*Expression) },
			} {
				name := fmt.Sprintf("%s of %s (spare capacity %d)", kind, in, spare)
				r.Run("shallow", name, func() {
					before := c03State(x)
					parts := append([]expreduceapi.Ex{}, x.Parts...)
					y := mk()
					same := y != x && len(y.Parts) == len(parts)
					if same && kind == "ShallowCopy" {
						for i := range parts {
							same = same && y.Parts[i] == parts[i]
						}
					}
					r.Check("shallow-same-parts", name, true, same && aFF(y) == in, in, aFF(y))
					r.Check("shallow-source", name, true, c03State(x) == before, before, c03State(x))
					y.AppendEx(aS("Global`y1"))
					x.AppendEx(aS("Global`x1"))
					r.Check("shallow-append", name, true, len(y.Parts) == len(parts)+1 && aFF(y.Parts[len(parts)]) == "Global`y1" && aFF(x.Parts[len(parts)]) == "Global`x1", "each list keeps its own appended part", aFF(y)+" / "+aFF(x))
					x.Parts = x.Parts[:len(parts)]
					for i := range y.Parts {
						y.Parts[i] = aS("Global`wrecked")
					}
					r.Check("shallow-replace", name, true, c03State(x) == before, before, c03State(x))
					z := mk()
					for i := range parts {
						x.Parts[i] = aS("Global`wrecked")
					}
					r.Check("shallow-replace2", name, true, aFF(z) == in, in, aFF(z))
					copy(x.Parts, parts)
					if kind == "Copy" {
						w := mk()
						for _, p := range w.Parts {
							if pe, isE := p.(*Expression); isE {
								for i := range pe.Parts {
									pe.Parts[i] = aS("Global`wrecked")
								}
							}
						}
						r.Check("copy-nested-lists", name, true, c03State(x) == before, before, c03State(x))
					}
				})
			}
		}
	}
}

package atoms

import (
	"fmt"
	"math/big"
	"math/rand"
	"testing"

	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// c02Same is structural identity, written from the statement alone.
func c02Same(a, b expreduceapi.Ex) bool {
	switch x := a.(type) {
	case *Integer:
		y, ok := b.(*Integer)
		return ok && x.Val.Cmp(y.Val) == 0
	case *Rational:
		y, ok := b.(*Rational)
		return ok && x.Num.Cmp(y.Num) == 0 && x.Den.Cmp(y.Den) == 0
	case *Flt:
		y, ok := b.(*Flt)
		return ok && x.Val.Cmp(y.Val) == 0
	case *Complex:
		y, ok := b.(*Complex)
		return ok && c02Same(x.Re, y.Re) && c02Same(x.Im, y.Im)
	case *Symbol:
		y, ok := b.(*Symbol)
		return ok && x.Name == y.Name
	case *String:
		y, ok := b.(*String)
		return ok && x.Val == y.Val
	case *Expression:
		y, ok := b.(*Expression)
		if !ok || len(x.Parts) != len(y.Parts) {
			return false
		}
		for i := range x.Parts {
			if !c02Same(x.Parts[i], y.Parts[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// c02Fresh rebuilds an expression without any remembered hash.
func c02Fresh(a expreduceapi.Ex) expreduceapi.Ex {
	switch x := a.(type) {
	case *Integer:
		return NewInteger(new(big.Int).Set(x.Val))
	case *Rational:
		return NewRational(new(big.Int).Set(x.Num), new(big.Int).Set(x.Den))
	case *Flt:
		return NewReal(new(big.Float).Set(x.Val))
	case *Complex:
		return NewComplex(c02Fresh(x.Re), c02Fresh(x.Im))
	case *Symbol:
		return NewSymbol(x.Name)
	case *String:
		return NewString(x.Val)
	case *Expression:
		var l []expreduceapi.Ex
		for _, p := range x.Parts {
			l = append(l, c02Fresh(p))
		}
		return NewExpression(l)
	}
	panic(fmt.Sprintf("%T", a))
}

// c02Stale finds a node whose remembered hash is not that of its contents.
func c02Stale(a expreduceapi.Ex) string {
	bad := ""
	switch x := a.(type) {
	case *Integer:
		if x.cachedHash != 0 && x.cachedHash != c02Fresh(x).Hash() {
			bad = aFF(x)
		}
	case *Symbol:
		if x.cachedHash != 0 && x.cachedHash != c02Fresh(x).Hash() {
			bad = aFF(x)
		}
	case *Complex:
		return c02Stale(x.Re) + c02Stale(x.Im)
	case *Expression:
		for _, p := range x.Parts {
			bad += c02Stale(p)
		}
		if x.CachedHash != 0 && x.CachedHash != c02Fresh(x).Hash() {
			bad += aFF(x)
		}
	}
	return bad
}

// c02Near changes one thing somewhere in an expression.
func c02Near(r *rand.Rand, a expreduceapi.Ex) expreduceapi.Ex {
	switch x := a.(type) {
	case *Integer:
		switch r.Intn(4) {
		case 0:
			return NewInteger(new(big.Int).Neg(x.Val))
		case 1:
			return NewInteger(new(big.Int).Add(x.Val, big.NewInt(256)))
		case 2:
			return aF(1)
		}
		return NewString(x.Val.String())
	case *Rational:
		n, d := new(big.Int).Set(x.Num), new(big.Int).Set(x.Den)
		switch r.Intn(4) {
		case 0: // move a byte between numerator and denominator
			nb, db := n.Bytes(), d.Bytes()
			if len(nb) > 0 {
				db = append([]byte{nb[len(nb)-1]}, db...)
				nb = nb[:len(nb)-1]
			}
			return NewRational(new(big.Int).SetBytes(nb), new(big.Int).SetBytes(db))
		case 1:
			return NewRational(d, n)
		case 2:
			return NewRational(n.Neg(n), d)
		}
		return NewComplex(NewInteger(n), NewInteger(d))
	case *Complex:
		if r.Intn(2) == 0 {
			return NewComplex(x.Im, x.Re)
		}
		return NewExpression([]expreduceapi.Ex{x.Re, x.Im})
	case *Symbol:
		switch r.Intn(3) {
		case 0:
			return NewString(x.Name)
		case 1:
			return NewSymbol(x.Name + "a")
		}
		return NewExpression([]expreduceapi.Ex{x})
	case *String:
		switch r.Intn(3) {
		case 0:
			return NewSymbol(x.Val)
		case 1:
			return NewString(x.Val + "\x00")
		}
		return NewString(x.Val + " ")
	case *Expression:
		p := append([]expreduceapi.Ex{}, x.Parts...)
		i := r.Intn(len(p))
		switch r.Intn(5) {
		case 0: // regroup
			j := i + r.Intn(len(p)-i) + 1
			q := append([]expreduceapi.Ex{}, p[:i]...)
			q = append(q, NewExpression(append([]expreduceapi.Ex{}, p[i:j]...)))
			return NewExpression(append(q, p[j:]...))
		case 1: // swap two parts
			j := r.Intn(len(p))
			p[i], p[j] = p[j], p[i]
		case 2: // drop or repeat a part
			if i > 0 {
				p = append(p[:i], p[i+1:]...)
			} else {
				p = append(p, p[len(p)-1])
			}
		default:
			p[i] = c02Near(r, p[i])
		}
		return NewExpression(p)
	}
	return aI(5)
}

func TestVerifC02Identity(t *testing.T) {
	r := vStart(t, "pairs of generated expressions and of an expression and a near miss of it", "depth 4; reals at least two units in the last place apart")
	defer r.Done()
	n := 40000
	if r.Deep {
		n = 400000
	}
	var pool []expreduceapi.Ex
	for c := 0; c < n && !r.Failed(); c++ {
		a := aRand(r.Rnd, r.Rnd.Intn(4), r.Rnd.Intn(3) == 0)
		if r.Rnd.Intn(4) == 0 {
			a = c02Atom(r.Rnd)
		}
		var b expreduceapi.Ex
		switch r.Rnd.Intn(4) {
		case 0:
			b = c02Fresh(a)
		case 1:
			if len(pool) > 0 {
				b = pool[r.Rnd.Intn(len(pool))]
			} else {
				b = c02Near(r.Rnd, a)
			}
		default:
			b = c02Near(r.Rnd, c02Fresh(a))
		}
		if len(pool) < 400 {
			pool = append(pool, a)
		} else {
			pool[r.Rnd.Intn(400)] = a
		}
		in := aFF(a) + "  ?  " + aFF(b)
		fa, fb := c02Fresh(a), c02Fresh(b)
		want := c02Same(a, b)
		r.Run("identity", in, func() {
			got := IsSameQ(a, b)
			r.Check("identity", in, want, got == want, fmt.Sprint(want), fmt.Sprint(got))
			r.Check("identity", in+" (the other way round)", want, IsSameQ(b, a) == want, fmt.Sprint(want), fmt.Sprint(!want))
			r.Check("hash", in, want, (a.Hash() == b.Hash()) == want, fmt.Sprintf("hashes agree: %v", want), fmt.Sprintf("%x %x", a.Hash(), b.Hash()))
			r.Check("self", aFF(a), true, IsSameQ(a, a), "true", "false")
			r.Check("unchanged", in, true, c02Same(a, fa) && c02Same(b, fb), aFF(fa)+" ? "+aFF(fb), aFF(a)+" ? "+aFF(b))
			s := c02Stale(a) + c02Stale(b)
			r.Check("remembered", in, true, s == "", "every remembered hash fits", "stale in "+s)
		})
	}
}

// atoms whose encodings are close to each other
func c02Atom(r *rand.Rand) expreduceapi.Ex {
	w := func() *big.Int {
		b := make([]byte, 1+r.Intn(20))
		for i := range b {
			b[i] = []byte{0, 1, 2, 255, 128, 5, 7}[r.Intn(7)]
		}
		x := new(big.Int).SetBytes(b)
		if r.Intn(3) == 0 {
			x.Neg(x)
		}
		return x
	}
	switch r.Intn(5) {
	case 0:
		return NewInteger(w())
	case 1:
		return NewRational(w(), w())
	case 2:
		return NewComplex(NewInteger(w()), NewRational(w(), w()))
	case 3:
		return NewString(string(w().Bytes()))
	}
	return NewSymbol(string(w().Bytes()))
}

// All small integers, rationals and texts: no two of them are conflated.
func TestVerifC02Small(t *testing.T) {
	r := vStart(t, "all integers and fractions with small numerator and denominator, and texts", "numbers up to 60 and around 2^8, 2^16, 2^32, 2^64")
	defer r.Done()
	var ns []int64
	for i := int64(-60); i <= 60; i++ {
		ns = append(ns, i)
	}
	ns = append(ns, 255, 256, 257, 65535, 65536, 65537, 1<<32-1, 1<<32, 1<<32+1, -256, -65536)
	seen := map[uint64]expreduceapi.Ex{}
	add := func(x expreduceapi.Ex) {
		r.Run("conflated", aFF(x), func() {
			h := x.Hash()
			y, ok := seen[h]
			r.Check("conflated", aFF(x), true, !ok || c02Same(x, y), "a hash of its own", fmt.Sprintf("the hash of %v", y))
			seen[h] = x
		})
	}
	for _, i := range ns {
		add(NewInteger(big.NewInt(i)))
		add(NewString(fmt.Sprint(i)))
		add(NewSymbol(fmt.Sprint(i)))
		for _, j := range ns {
			if j > 0 {
				add(NewRational(big.NewInt(i), big.NewInt(j)))
			}
			if i%7 == 0 {
				add(NewComplex(aI(i), aI(j)))
				add(aE(aI(i), aI(j)))
				add(aE(aE(aI(i), aI(j))))
				add(aE(aE(aI(i)), aI(j)))
			}
		}
	}
}

// Histories: hash requests, copies, arithmetic in place and part rewrites in any order.
func TestVerifC02History(t *testing.T) {
	r := vStart(t, "sequences of hash requests, copies, in-place number operations and part rewrites", "12 steps")
	defer r.Done()
	n := 8000
	if r.Deep {
		n = 80000
	}
	for c := 0; c < n && !r.Failed(); c++ {
		e := aE(aS("Global`f"), aRand(r.Rnd, 2, false), aRand(r.Rnd, 2, false), aI(int64(r.Rnd.Intn(5))))
		in := aFF(e)
		r.Run("remembered", in, func() {
			var cur expreduceapi.Ex = e
			for k := 0; k < 12; k++ {
				x := cur.(*Expression)
				switch r.Rnd.Intn(9) {
				case 0, 1:
					cur.Hash()
					in += "; hash"
				case 2:
					cur = cur.DeepCopy()
					in += "; deep copy"
				case 3:
					cur = cur.Copy()
					in += "; copy"
				case 4:
					cur = ShallowCopy(x)
					in += "; shallow copy"
				case 5:
					i := NewInteger(big.NewInt(int64(r.Rnd.Intn(100))))
					i.Hash()
					i.addI(aI(int64(r.Rnd.Intn(7) - 3)))
					x = ShallowCopy(x)
					x.ClearHashes()
					x.AppendEx(i)
					cur = x
					in += "; append " + aFF(i)
				case 6:
					i := NewInteger(big.NewInt(int64(r.Rnd.Intn(100))))
					i.Hash()
					i.mulI(aI(int64(r.Rnd.Intn(7) - 3)))
					x = ShallowCopy(x)
					x.ClearHashes()
					x.SetParts(append([]expreduceapi.Ex{x.Parts[0], i}, x.Parts[1:]...))
					cur = x
					in += "; insert " + aFF(i)
				case 7:
					p := x.Parts[r.Rnd.Intn(len(x.Parts))]
					p.Hash()
					IsSameQ(p, cur)
					in += "; compare"
				case 8:
					fn := []foldFn{FoldFnAdd, FoldFnMul}[r.Rnd.Intn(2)]
					ops := []expreduceapi.Ex{aS("Global`f")}
					for k := 1 + r.Rnd.Intn(3); k > 0; k-- {
						n := aI(int64(r.Rnd.Intn(9) - 4))
						n.Hash()
						ops = append(ops, n)
						if r.Rnd.Intn(4) == 0 {
							ops = append(ops, aQ(int64(r.Rnd.Intn(5)-2), 3))
						}
					}
					sum, _ := ComputeNumericPart(fn, NewExpression(ops))
					if s := c02Stale(sum); s != "" {
						in += "; fold " + aFF(NewExpression(ops))
						r.Check("remembered", in, true, false, "every remembered hash fits", "stale in "+s)
						return
					}
					sum.Hash()
					in += "; sum"
				}
				s := c02Stale(cur)
				r.Check("remembered", in, true, s == "", "every remembered hash fits", "stale in "+s)
				if s != "" {
					return
				}
			}
		})
	}
}

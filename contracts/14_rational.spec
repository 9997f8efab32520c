# C14: rationals in lowest terms.
#
# divides(d, n) for d > 0; coprime(n, m): no number greater than one divides both
logic divides(Int,Int) Bool
logic coprime(Int,Int) Bool
logic ediv(Int,Int) Int
logic great(Int,Int,Int) Bool
smt c14_divides divides ediv {
(define-fun ediv ((n Int) (d Int)) Int (div n d))
(declare-fun divides (Int Int) Bool)
(assert (forall ((d Int) (n Int)) (! (= (divides d n) (and (< 0 d) (= n (* d (ediv n d))))) :pattern ((divides d n)))))
}
smt c14_coprime coprime {
(declare-fun coprime (Int Int) Bool)
(declare-fun cowit (Int Int) Int)
(assert (forall ((n Int) (m Int) (k Int)) (! (=> (and (coprime n m) (< 1 k)) (not (and (divides k n) (divides k m)))) :pattern ((coprime n m) (divides k n)))))
(assert (forall ((n Int) (m Int)) (! (let ((k (cowit n m))) (=> (not (and (< 1 k) (divides k n) (divides k m))) (coprime n m))) :pattern ((coprime n m)))))
}
# great(g, a, b): g is a common divisor of a and b and no other is greater
smt c14_great great {
(declare-fun great (Int Int Int) Bool)
(assert (forall ((g Int) (a Int) (b Int)) (! (=> (great g a b) (and (< 0 g) (divides g a) (divides g b))) :pattern ((great g a b)))))
(assert (forall ((g Int) (a Int) (b Int) (d Int)) (! (=> (and (great g a b) (divides d a) (divides d b)) (<= d g)) :pattern ((great g a b) (divides d a) (divides d b)))))
}
# dividing by the greatest common divisor leaves coprime numbers
smt c14_reduced great coprime {
(assert (forall ((g Int) (a Int) (b Int)) (! (=> (great g a b) (coprime (ediv a g) (ediv b g))) :pattern ((great g a b)))))
}
lemma c14_reduced props C14 {
; k > 1 divides both quotients: then g*k divides both numbers, but is greater than g
(declare-const g Int)
(declare-const a Int)
(declare-const b Int)
(declare-const k Int)
(assert (great g a b))
(assert (not (coprime (ediv a g) (ediv b g))))
(assert (= k (cowit (ediv a g) (ediv b g))))
(assert (= (div (ediv a g) k) (ediv (ediv a g) k)))
(assert (=> (and (divides (* g k) a) (divides (* g k) b)) (<= (* g k) g)))
(assert (=> (and (= a (* g (* k (div (ediv a g) k)))) (< 0 (* g k))) (= (div a (* g k)) (div (ediv a g) k))))
(assert (=> (and (= b (* g (* k (div (ediv b g) k)))) (< 0 (* g k))) (= (div b (* g k)) (div (ediv b g) k))))
(assert (=> (and (< 0 g) (< 1 k)) (< g (* g k))))
---
; the cuts used above
(declare-const g Int)
(declare-const k Int)
(declare-const a Int)
(declare-const x Int)
(assert (= a (* g (* k x))))
(assert (< 0 (* g k)))
(assert (= a (* (* g k) x)))
(assert (not (= (div a (* g k)) x)))
---
(declare-const g Int)
(declare-const k Int)
(assert (< 0 g))
(assert (< 1 k))
(assert (not (< g (* g k))))
---
(declare-const g Int)
(declare-const k Int)
(declare-const x Int)
(assert (not (= (* g (* k x)) (* (* g k) x))))
}
package math/big
extern (*Int).Div :: z, x, y -> r
  requires z != nil && x != nil && y != nil && y.$val != 0
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == ediv(old(x.$val), old(y.$val))
extern (*Int).GCD :: z, x, y, a, b -> r
  requires z != nil && x == nil && y == nil && a != nil && b != nil && a.$val > 0 && b.$val > 0
  modifies z.$val
  opt noalloc
  ensures r == z && great(z.$val, old(a.$val), old(b.$val))
package github.com/corywalker/expreduce/expreduce
define iabs(x) = ite(x < 0, 0 - x, x)
func (*EvalState).evalRational :: es, q -> r
  props C14
  requires q != nil && q.Num != nil && q.Den != nil
  modifies q.Num, q.Den, q.needsEval
  ensures [undefined] old(q.Num.$val) == 0 && old(q.Den.$val) == 0 ==> is(r, *atoms.Symbol) && r.(*atoms.Symbol).Name == "System`Indeterminate"
  ensures [infinite] old(q.Num.$val) != 0 && old(q.Den.$val) == 0 ==> is(r, *atoms.Symbol) && r.(*atoms.Symbol).Name == "System`ComplexInfinity"
  ensures [kind] old(q.Den.$val) != 0 ==> is(r, *atoms.Integer) || is(r, *atoms.Rational)
  ensures [exact] old(q.Den.$val) != 0 && is(r, *atoms.Integer) ==> r.(*atoms.Integer).Val.$val * old(q.Den.$val) == old(q.Num.$val)
  ensures [lowest] is(r, *atoms.Rational) ==> r.(*atoms.Rational).Den.$val > 1 && coprime(iabs(r.(*atoms.Rational).Num.$val), r.(*atoms.Rational).Den.$val)
  ensures [value] is(r, *atoms.Rational) ==> r.(*atoms.Rational).Num.$val * old(q.Den.$val) == old(q.Num.$val) * r.(*atoms.Rational).Den.$val
  ensures [done] is(r, *atoms.Rational) ==> !r.(*atoms.Rational).needsEval

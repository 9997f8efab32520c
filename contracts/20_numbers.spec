# C01: folding numbers.
# the value of a fraction, and what the operations on fractions do to it
# meaning of the two abstract names: division and multiplication of real numbers
smt qv_def qv_meaning {
(declare-const qv_meaning Bool)
(assert (forall ((n Int) (d Int)) (! (= (qv n d) (/ (to_real n) (to_real d))) :pattern ((qv n d)))))
(assert (forall ((x Real) (y Real)) (! (= (rmul x y) (* x y)) :pattern ((rmul x y)))))
}
smt qv_add rmul kop propC01 {
(assert (forall ((n Int) (d Int) (m Int) (e Int) (N Int) (D Int)) (! (=> (and (not (= d 0)) (not (= e 0)) (= N (+ (* n e) (* d m))) (= D (* d e))) (= (qv N D) (+ (qv n d) (qv m e)))) :pattern ((qv n d) (qv m e) (qv N D)))))
(assert (forall ((n Int) (d Int) (m Int) (e Int) (N Int) (D Int)) (! (=> (and (not (= d 0)) (not (= e 0)) (= N (* n m)) (= D (* d e))) (= (qv N D) (rmul (qv n d) (qv m e)))) :pattern ((qv n d) (qv m e) (qv N D)))))
(assert (forall ((n Int) (d Int) (i Int) (N Int)) (! (=> (and (not (= d 0)) (= N (+ n (* i d)))) (= (qv N d) (+ (qv n d) (to_real i)))) :pattern ((qv n d) (qv N d) (to_real i)))))
(assert (forall ((n Int) (d Int) (i Int) (N Int)) (! (=> (and (not (= d 0)) (= N (* n i))) (= (qv N d) (rmul (qv n d) (to_real i)))) :pattern ((qv n d) (qv N d) (to_real i)))))
}
lemma qv_add props C01 {
(assert (= qv_meaning qv_meaning))
(declare-const n Int) (declare-const d Int) (declare-const m Int) (declare-const e Int)
(assert (not (= d 0))) (assert (not (= e 0)))
(declare-const a Real) (declare-const b Real)
(assert (= a (qv n d))) (assert (= b (qv m e)))
(assert (= (* a (to_real d)) (to_real n))) (assert (= (* b (to_real e)) (to_real m)))
(assert (not (= (qv (+ (* n e) (* d m)) (* d e)) (+ (qv n d) (qv m e)))))
---
(assert (= qv_meaning qv_meaning))
(declare-const n Int) (declare-const d Int) (declare-const m Int) (declare-const e Int)
(assert (not (= d 0))) (assert (not (= e 0)))
(assert (not (= (qv (* n m) (* d e)) (rmul (qv n d) (qv m e)))))
---
(assert (= qv_meaning qv_meaning))
(declare-const n Int) (declare-const d Int) (declare-const i Int)
(assert (not (= d 0)))
(assert (not (= (qv (+ n (* i d)) d) (+ (qv n d) (to_real i)))))
---
(assert (= qv_meaning qv_meaning))
(declare-const n Int) (declare-const d Int) (declare-const i Int)
(assert (not (= d 0)))
(assert (not (= (qv (* n i) d) (rmul (qv n d) (to_real i)))))
}

# the four folds over the parts 1..n-1 of expression e: k = 0 sum, k = 1 product
logic heap c01_i(Int,Int,Int) Int
logic heap c01_q(Int,Int,Int) Real
logic heap c01_f(Int,Int,Int) BF
logic bf_z() BF
logic heap c01_has(Int,Int,Int) Bool
smt c01_fold c01_i c01_q c01_f c01_has {
(declare-fun c01_i (TH Int Int Int) Int)
(assert (forall ((S TH) (k Int) (e Int) (n Int)) (! (=> (<= n 1) (= (c01_i S k e n) (kid k))) :pattern ((c01_i S k e n)))))
(assert (forall ((S TH) (k Int) (e Int) (n Int) (m Int)) (! (=> (and (<= 1 n) (= m (+ n 1))) (= (c01_i S k e m) (ite (= (ek S e n) 1) (kopi k (c01_i S k e n) (select (th_big S) (select (th_ival S) (ep S e n)))) (c01_i S k e n)))) :pattern ((c01_i S k e n) (c01_i S k e m)))))
(declare-fun c01_q (TH Int Int Int) Real)
(assert (forall ((S TH) (k Int) (e Int) (n Int)) (! (=> (<= n 1) (= (c01_q S k e n) (to_real (kid k)))) :pattern ((c01_q S k e n)))))
(assert (forall ((S TH) (k Int) (e Int) (n Int) (m Int)) (! (=> (and (<= 1 n) (= m (+ n 1))) (= (c01_q S k e m) (ite (= (ek S e n) 2) (kop k (c01_q S k e n) (qv (select (th_big S) (select (th_rnum S) (ep S e n))) (select (th_big S) (select (th_rden S) (ep S e n))))) (c01_q S k e n)))) :pattern ((c01_q S k e n) (c01_q S k e m)))))
(declare-fun c01_has (TH Int Int Int) Bool)
(assert (forall ((S TH) (t Int) (e Int) (n Int)) (! (=> (<= n 1) (not (c01_has S t e n))) :pattern ((c01_has S t e n)))))
(assert (forall ((S TH) (t Int) (e Int) (n Int) (m Int)) (! (=> (and (<= 1 n) (= m (+ n 1))) (= (c01_has S t e m) (or (c01_has S t e n) (= (ek S e n) t)))) :pattern ((c01_has S t e n) (c01_has S t e m)))))
; reals are folded in order, starting from a copy of the first
(declare-fun c01_f (TH Int Int Int) BF)
(assert (forall ((S TH) (k Int) (e Int) (n Int)) (! (=> (<= n 1) (= (c01_f S k e n) bf_zero)) :pattern ((c01_f S k e n)))))
(assert (forall ((S TH) (k Int) (e Int) (n Int) (m Int)) (! (=> (and (<= 1 n) (= m (+ n 1))) (= (c01_f S k e m) (ite (= (ek S e n) 3) (ite (c01_has S 3 e n) (bf_op k (c01_f S k e n) (c01_f S k e n) (select (th_bf S) (select (th_fval S) (ep S e n)))) (select (th_bf S) (select (th_fval S) (ep S e n)))) (c01_f S k e n)))) :pattern ((c01_f S k e n) (c01_f S k e m)))))
}

package github.com/corywalker/expreduce/expreduce/atoms

define num_i(x) = x != nil && x.Val != nil
define num_r(x) = x != nil && x.Num != nil && x.Den != nil && x.Num != x.Den && x.Den.$val != 0
define num_f(x) = x != nil && x.Val != nil
define num_real(x) = x != nil && (is(x, *Integer) || is(x, *Rational) || is(x, *Flt)) && (is(x, *Integer) ==> num_i(x.(*Integer))) && (is(x, *Rational) ==> num_r(x.(*Rational))) && (is(x, *Flt) ==> num_f(x.(*Flt)))
define num_c(x) = x != nil && num_real(x.Re) && num_real(x.Im)
define num_part(x) = (is(x, *Integer) ==> num_i(x.(*Integer))) && (is(x, *Rational) ==> num_r(x.(*Rational))) && (is(x, *Flt) ==> num_f(x.(*Flt))) && (is(x, *Complex) ==> num_c(x.(*Complex)))
define num_new_i(x) = x != nil && fresh(x) && x.Val != nil && fresh(x.Val)
define num_new_r(x) = num_r(x) && fresh(x) && fresh(x.Num) && fresh(x.Den)
define num_new_f(x) = x != nil && fresh(x) && x.Val != nil && fresh(x.Val)
# the part of the number that can be changed in place is new
define num_new_real(x) = num_real(x) && (is(x, *Integer) ==> num_new_i(x.(*Integer))) && (is(x, *Rational) ==> num_new_r(x.(*Rational))) && (is(x, *Flt) ==> num_new_f(x.(*Flt)))
define num_new_c(x) = num_c(x) && fresh(x) && num_new_real(x.Re) && num_new_real(x.Im)

func (*Integer).DeepCopy :: i -> r
  props C01
  requires num_i(i)
  ensures [kind] is(r, *Integer) && num_new_i(r.(*Integer))
  ensures [value] r.(*Integer).Val.$val == i.Val.$val

func (*Rational).DeepCopy :: q -> r
  props C01
  requires num_r(q)
  ensures [kind] is(r, *Rational) && num_new_r(r.(*Rational))
  ensures [value] r.(*Rational).Num.$val == q.Num.$val && r.(*Rational).Den.$val == q.Den.$val

func (*Flt).DeepCopy :: f -> r
  props C01
  requires num_f(f)
  ensures [kind] is(r, *Flt) && num_new_f(r.(*Flt))
  ensures [value] r.(*Flt).Val.$val == f.Val.$val

func (*Complex).DeepCopy :: c -> r
  props C01
  requires num_c(c)
  ensures [kind] is(r, *Complex) && num_c(r.(*Complex)) && fresh(r)
  ensures [re] num_new_real(r.(*Complex).Re)
  ensures [im] num_new_real(r.(*Complex).Im)

func (*Integer).addI :: a, b
  props C01 C02
  requires num_i(a) && num_i(b)
  modifies a.Val.$val, a.cachedHash
  opt helper noalloc
  ensures [value] a.Val.$val == old(a.Val.$val) + old(b.Val.$val)
  ensures [hash-forgotten] a.cachedHash == 0

func (*Integer).mulI :: a, b
  props C01 C02
  requires num_i(a) && num_i(b)
  modifies a.Val.$val, a.cachedHash
  opt helper noalloc
  ensures [value] a.Val.$val == old(a.Val.$val) * old(b.Val.$val)
  ensures [hash-forgotten] a.cachedHash == 0

define rat_val(x) = qv(x.Num.$val, x.Den.$val)

func (*Rational).addI :: a, b
  props C01
  requires num_r(a) && num_i(b) && b.Val != a.Num && b.Val != a.Den
  modifies a.Num.$val, a.Den.$val
  opt helper
  ensures [value] num_r(a) && rat_val(a) == old(rat_val(a)) + toreal(old(b.Val.$val))

func (*Rational).mulI :: a, b
  props C01
  requires num_r(a) && num_i(b) && b.Val != a.Num && b.Val != a.Den
  modifies a.Num.$val, a.Den.$val
  opt helper
  ensures [value] num_r(a) && rat_val(a) == rmul(old(rat_val(a)), toreal(old(b.Val.$val)))

func (*Rational).addR :: a, b
  props C01
  requires num_r(a) && num_r(b) && b.Num != a.Num && b.Num != a.Den && b.Den != a.Num && b.Den != a.Den
  modifies a.Num.$val, a.Den.$val
  opt helper
  ensures [value] num_r(a) && rat_val(a) == old(rat_val(a)) + old(rat_val(b))

func (*Rational).mulR :: a, b
  props C01
  requires num_r(a) && num_r(b) && b.Num != a.Num && b.Num != a.Den && b.Den != a.Num && b.Den != a.Den
  modifies a.Num.$val, a.Den.$val
  opt helper
  ensures [value] num_r(a) && rat_val(a) == rmul(old(rat_val(a)), old(rat_val(b)))

func (*Flt).addF :: a, b
  props C01
  requires num_f(a) && num_f(b)
  modifies a.Val.$val
  opt helper noalloc
  ensures [value] a.Val.$val == bf_op(0, old(a.Val.$val), old(a.Val.$val), old(b.Val.$val))

func (*Flt).mulF :: a, b
  props C01
  requires num_f(a) && num_f(b)
  modifies a.Val.$val
  opt helper noalloc
  ensures [value] a.Val.$val == bf_op(1, old(a.Val.$val), old(a.Val.$val), old(b.Val.$val))

func (*Flt).addI :: a, b
  props C01
  requires num_f(a) && num_i(b)
  modifies a.Val.$val
  opt helper
  ensures [value] a.Val.$val == bf_op(0, old(a.Val.$val), old(a.Val.$val), flt_of_int(b.Val.$val))

func (*Flt).mulI :: a, b
  props C01
  requires num_f(a) && num_i(b)
  modifies a.Val.$val
  opt helper
  ensures [value] a.Val.$val == bf_op(1, old(a.Val.$val), old(a.Val.$val), flt_of_int(b.Val.$val))

define flt_of_int(n) = bf_int(bf_of(f64_z()), n)

func (*Flt).addR :: a, b
  props C01
  requires num_f(a) && num_r(b)
  modifies a.Val.$val
  opt helper
  ensures [value] a.Val.$val == bf_op(0, old(a.Val.$val), old(a.Val.$val), bf_op(2, bf_of(f64_z()), flt_of_int(b.Num.$val), flt_of_int(b.Den.$val)))

func (*Flt).mulR :: a, b
  props C01
  requires num_f(a) && num_r(b)
  modifies a.Val.$val
  opt helper
  ensures [value] a.Val.$val == bf_op(1, old(a.Val.$val), old(a.Val.$val), bf_op(2, bf_of(f64_z()), flt_of_int(b.Num.$val), flt_of_int(b.Den.$val)))

func (*Complex).addReal :: c, x
  props C01
  requires num_c(c) && num_real(x)
  modifies c.Re, c.needsEval
  opt helper
  ensures num_new_real(c.Re)

func (*Complex).mulReal :: c, x
  props C01
  requires num_c(c) && num_real(x)
  modifies c.Re, c.Im, c.needsEval
  opt helper
  ensures num_new_real(c.Re) && num_new_real(c.Im)

func (*Complex).addC :: cmplx, c
  props C01
  requires num_c(cmplx) && num_c(c)
  modifies cmplx.Re, cmplx.Im, cmplx.needsEval
  opt helper
  ensures num_new_real(cmplx.Re) && num_new_real(cmplx.Im)

func (*Complex).mulC :: cmplx, c
  props C01
  requires num_c(cmplx) && num_c(c)
  modifies cmplx.Re, cmplx.Im, cmplx.needsEval
  opt helper
  ensures num_new_real(cmplx.Re) && num_new_real(cmplx.Im)

define fl_r(fn, v, r) = ite(r != nil, bf_op(fn, v, v, bf_op(2, bf_of(f64_z()), flt_of_int(old(r.Num.$val)), flt_of_int(old(r.Den.$val)))), v)
define fl_i(fn, v, i) = ite(i != nil, bf_op(fn, v, v, flt_of_int(old(i.Val.$val))), v)
func typedRealPart :: fn, i, r, f, c -> x
  props C01
  requires fn == 0 || fn == 1
  requires (i != nil ==> num_i(i)) && (r != nil ==> num_r(r)) && (f != nil ==> num_f(f)) && (c != nil ==> num_c(c))
  requires i != nil && r != nil ==> i.Val != r.Num && i.Val != r.Den
  modifies when(r != nil, r.Num.$val), when(r != nil, r.Den.$val), when(f != nil, f.Val.$val), when(c != nil, c.Re), when(c != nil, c.Im), when(c != nil, c.needsEval), when(i != nil, i.cachedHash)
  opt helper
  ensures [none] x == nil <==> i == nil && r == nil && f == nil && c == nil
  ensures [complex] c != nil ==> is(x, *Complex) && ref(x) == ref(c) && num_c(c) && (num_new_real(c.Re) || c.Re == old(c.Re)) && (num_new_real(c.Im) || c.Im == old(c.Im))
  ensures [real] c == nil && f != nil ==> is(x, *Flt) && ref(x) == ref(f)
  ensures [real-value] c == nil && f != nil ==> f.Val.$val == fl_i(fn, fl_r(fn, old(f.Val.$val), r), i)
  ensures [rational] c == nil && f == nil && r != nil ==> is(x, *Rational) && ref(x) == ref(r) && num_r(r)
  ensures [rational-value] c == nil && f == nil && r != nil ==> rat_val(r) == ite(i != nil, kop(fn, old(rat_val(r)), toreal(i.Val.$val)), old(rat_val(r)))
  ensures [integer] c == nil && f == nil && r == nil && i != nil ==> is(x, *Integer) && ref(x) == ref(i)

define cnp_apart(x, p) = is(x, *Rational) ==> x.(*Rational).Den != p
define cnp_real(e) = forall j:int :: {old(e.Parts[j])} 1 <= j && j < len(old(e.Parts)) ==> 1 <= old(ek(e, j)) && old(ek(e, j)) <= 3
define cnp_n(idx, e) = ite(idx < 0, len(e.Parts), idx)
func ComputeNumericPart :: fn, e -> x, idx
  props C01
  requires fn == 0 || fn == 1
  requires is(e, *Expression) && e.(*Expression) != nil
  requires forall j:int :: {e.(*Expression).Parts[j]} 0 <= j && j < len(e.(*Expression).Parts) ==> num_part(e.(*Expression).Parts[j])
  timeout 30
  ensures [stop] idx == 0 - 1 || (1 <= idx && idx < len(e.(*Expression).Parts) && ek(e.(*Expression), idx) == 0)
  ensures [leading] forall j:int :: {e.(*Expression).Parts[j]} 1 <= j && j < cnp_n(idx, e.(*Expression)) ==> ek(e.(*Expression), j) != 0
  ensures [all-real] cnp_real(e.(*Expression)) && len(e.(*Expression).Parts) > 1 ==> idx == 0 - 1 && num_new_real(x)
  ensures [nothing-folded] x == nil <==> cnp_n(idx, e.(*Expression)) <= 1
  ensures [complex] old(c01_has(4, e.(*Expression), cnp_n(idx, e.(*Expression)))) ==> is(x, *Complex) && num_new_c(x.(*Complex))
  ensures [real] !old(c01_has(4, e.(*Expression), cnp_n(idx, e.(*Expression)))) && old(c01_has(3, e.(*Expression), cnp_n(idx, e.(*Expression)))) ==> is(x, *Flt) && num_new_f(x.(*Flt))
  ensures [real-value] !old(c01_has(4, e.(*Expression), cnp_n(idx, e.(*Expression)))) && old(c01_has(3, e.(*Expression), cnp_n(idx, e.(*Expression)))) && !old(c01_has(2, e.(*Expression), cnp_n(idx, e.(*Expression)))) && !old(c01_has(1, e.(*Expression), cnp_n(idx, e.(*Expression)))) ==> x.(*Flt).Val.$val == old(c01_f(fn, e.(*Expression), cnp_n(idx, e.(*Expression))))
  ensures [rational] !old(c01_has(4, e.(*Expression), cnp_n(idx, e.(*Expression)))) && !old(c01_has(3, e.(*Expression), cnp_n(idx, e.(*Expression)))) && old(c01_has(2, e.(*Expression), cnp_n(idx, e.(*Expression)))) ==> is(x, *Rational) && num_new_r(x.(*Rational)) && rat_val(x.(*Rational)) == kop(fn, old(c01_q(fn, e.(*Expression), cnp_n(idx, e.(*Expression)))), toreal(old(c01_i(fn, e.(*Expression), cnp_n(idx, e.(*Expression))))))
  ensures [integer] !old(c01_has(4, e.(*Expression), cnp_n(idx, e.(*Expression)))) && !old(c01_has(3, e.(*Expression), cnp_n(idx, e.(*Expression)))) && !old(c01_has(2, e.(*Expression), cnp_n(idx, e.(*Expression)))) && cnp_n(idx, e.(*Expression)) > 1 ==> is(x, *Integer) && num_new_i(x.(*Integer)) && x.(*Integer).Val.$val == old(c01_i(fn, e.(*Expression), cnp_n(idx, e.(*Expression))))
  loop 1 i:int, foldedInt:*Integer, foldedRat:*Rational, foldedFlt:*Flt, foldedComp:*Complex
    invariant 1 <= i
    invariant forall j:int :: {e.(*Expression).Parts[j]} 1 <= j && j < i ==> ek(e.(*Expression), j) != 0
    invariant i <= len(e.(*Expression).Parts) || i == 1
    invariant foldedInt != nil ==> num_new_i(foldedInt)
    invariant foldedRat != nil ==> num_new_r(foldedRat)
    invariant foldedFlt != nil ==> num_new_f(foldedFlt)
    invariant foldedComp != nil ==> fresh(foldedComp)
    invariant foldedComp != nil ==> num_new_real(foldedComp.Re)
    invariant foldedComp != nil ==> num_new_real(foldedComp.Im)
    invariant foldedComp != nil && foldedInt != nil ==> cnp_apart(foldedComp.Re, foldedInt.Val) && cnp_apart(foldedComp.Im, foldedInt.Val)
    invariant foldedComp != nil && foldedRat != nil ==> cnp_apart(foldedComp.Re, foldedRat.Num) && cnp_apart(foldedComp.Im, foldedRat.Num) && cnp_apart(foldedComp.Re, foldedRat.Den) && cnp_apart(foldedComp.Im, foldedRat.Den)
    invariant cnp_real(e.(*Expression)) ==> foldedComp == nil
    invariant foldedInt != nil && foldedRat != nil ==> foldedInt.Val != foldedRat.Num && foldedInt.Val != foldedRat.Den
    invariant (foldedInt != nil <==> old(c01_has(1, e.(*Expression), i))) && (foldedRat != nil <==> old(c01_has(2, e.(*Expression), i))) && (foldedFlt != nil <==> old(c01_has(3, e.(*Expression), i))) && (foldedComp != nil <==> old(c01_has(4, e.(*Expression), i)))
    invariant i > 1 ==> foldedInt != nil || foldedRat != nil || foldedFlt != nil || foldedComp != nil
    invariant foldedInt != nil ==> foldedInt.Val.$val == old(c01_i(fn, e.(*Expression), i))
    invariant foldedInt == nil ==> old(c01_i(fn, e.(*Expression), i)) == kid(fn)
    invariant foldedRat != nil ==> rat_val(foldedRat) == old(c01_q(fn, e.(*Expression), i))
    invariant foldedRat == nil ==> old(c01_q(fn, e.(*Expression), i)) == toreal(kid(fn))
    invariant foldedFlt != nil ==> foldedFlt.Val.$val == old(c01_f(fn, e.(*Expression), i))
    invariant foldedFlt == nil ==> old(c01_f(fn, e.(*Expression), i)) == bf_z()

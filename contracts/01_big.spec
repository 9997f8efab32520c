# math/big: a big.Int is the mathematical integer $val; a big.Float an abstract value.
logic bf_of(F64) BF
logic bf_z() BF
smt bf_z bf_z {
(define-fun bf_z () BF bf_zero)
}
logic f64_z() F64
smt f64_z f64_z {
(define-fun f64_z () F64 f64_zero)
}
logic bf_op(Int,BF,BF,BF) BF
logic bf_int(BF,Int) BF
logic bf_cmp(BF,BF) Int
logic bf_rat(BF,Int,Int) BF
logic tdiv(Int,Int) Int
logic trem(Int,Int) Int
logic igcd(Int,Int) Int
logic dvd(Int,Int) Bool
smt bf bf_of bf_op bf_int bf_cmp bf_rat {
(declare-fun bf_of (F64) BF)
(declare-fun bf_op (Int BF BF BF) BF)
(declare-fun bf_int (BF Int) BF)
(declare-fun bf_rat (BF Int Int) BF)
(declare-fun bf_cmp (BF BF) Int)
(assert (forall ((x BF)) (! (= (bf_cmp x x) 0) :pattern ((bf_cmp x x)))))
}
# the value of a fraction, and what the operations on fractions do to it
logic qv(Int,Int) Real
logic toreal(Int) Real
logic kop(Int,Real,Real) Real
logic kopi(Int,Int,Int) Int
logic kid(Int) Int
logic rmul(Real,Real) Real
smt toreal toreal {
(define-fun toreal ((n Int)) Real (to_real n))
}
smt kop kop kopi kid rmul {
(declare-fun rmul (Real Real) Real)
(assert (forall ((x Real) (y Real)) (! (=> (= x 1.0) (= (rmul x y) y)) :pattern ((rmul x y)))))
(assert (forall ((x Real) (y Real)) (! (=> (= y 1.0) (= (rmul x y) x)) :pattern ((rmul x y)))))
(define-fun kop ((k Int) (x Real) (y Real)) Real (ite (= k 0) (+ x y) (rmul x y)))
(define-fun kopi ((k Int) (x Int) (y Int)) Int (ite (= k 0) (+ x y) (* x y)))
(define-fun kid ((k Int)) Int (ite (= k 0) 0 1))
}
smt qv qv {
(declare-fun qv (Int Int) Real)
}
# big.Rat: $val is the rational number itself
logic bf_setrat(BF,Real) BF
logic bf_exact(BF) Real
logic bf_inf(BF) Bool
smt bf_setrat bf_setrat bf_exact bf_inf {
(declare-fun bf_setrat (BF Real) BF)
(declare-fun bf_exact (BF) Real)
(declare-fun bf_inf (BF) Bool)
}
package math/big
extern NewInt :: x -> r
  ensures r != nil && fresh(r) && r.$val == x
extern NewFloat :: x -> r
  ensures r != nil && fresh(r) && r.$val == bf_of(x)
extern (*Int).Set :: z, x -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == old(x.$val)
extern (*Int).Add :: z, x, y -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == old(x.$val) + old(y.$val)
extern (*Int).Sub :: z, x, y -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == old(x.$val) - old(y.$val)
extern (*Int).Mul :: z, x, y -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == old(x.$val) * old(y.$val)
extern (*Int).Neg :: z, x -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == 0 - old(x.$val)
extern (*Int).Abs :: z, x -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == ite(old(x.$val) < 0, 0 - old(x.$val), old(x.$val))
extern (*Int).Cmp :: x, y -> r
  pure
  ensures r == ite(x.$val < y.$val, 0 - 1, ite(x.$val == y.$val, 0, 1))
extern (*Int).Sign :: x -> r
  pure
  ensures r == ite(x.$val < 0, 0 - 1, ite(x.$val == 0, 0, 1))
extern (*Int).IsInt64 :: x -> r
  pure
  ensures r <==> 0 - 9223372036854775808 <= x.$val && x.$val <= 9223372036854775807
extern (*Int).Int64 :: x -> r
  pure
  ensures 0 - 9223372036854775808 <= x.$val && x.$val <= 9223372036854775807 ==> r == x.$val
# a Float made by new(big.Float) has no precision yet and takes the value over exactly
extern (*Float).Set :: z, x -> r
  modifies z.$val
  opt noalloc
  ensures r == z && (old(z.$val) == bf_z() ==> z.$val == old(x.$val))
extern (*Float).Copy :: z, x -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == old(x.$val)
extern (*Float).SetInt :: z, x -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == bf_int(old(z.$val), x.$val)
extern (*Float).Add :: z, x, y -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == bf_op(0, old(z.$val), old(x.$val), old(y.$val))
extern (*Float).Mul :: z, x, y -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == bf_op(1, old(z.$val), old(x.$val), old(y.$val))
extern (*Float).Quo :: z, x, y -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == bf_op(2, old(z.$val), old(x.$val), old(y.$val))
extern (*Float).Cmp :: x, y -> r
  pure
  ensures r == bf_cmp(x.$val, y.$val)
extern NewRat :: a, b -> r
  panics b == 0
  ensures r != nil && fresh(r) && r.$val == qv(a, b)
extern (*Rat).SetInt :: z, x -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == toreal(x.$val)
extern (*Rat).SetFrac :: z, a, b -> r
  requires b.$val != 0
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == qv(a.$val, b.$val)
extern (*Rat).Cmp :: x, y -> r
  pure
  ensures r == ite(x.$val < y.$val, 0 - 1, ite(x.$val == y.$val, 0, 1))
extern (*Float).SetRat :: z, x -> r
  modifies z.$val
  opt noalloc
  ensures r == z && z.$val == bf_setrat(old(z.$val), x.$val)
extern (*Float).IsInf :: x -> r
  pure
  ensures r <==> bf_inf(x.$val)
extern (*Float).Rat :: x, z -> r, acc
  requires z != nil
  modifies z.$val
  opt noalloc
  ensures !bf_inf(x.$val) ==> z.$val == bf_exact(x.$val)

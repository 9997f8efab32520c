# Axioms of the encoding itself (machine arithmetic, slices, strings, floats).
# Everything here is part of the trusted base and is listed in the evidence.

smt base_types * {
(declare-fun typeof (Int) Int)
(define-fun sliceok ((s Slice) (al Int)) Bool
  (and (<= 0 (s_arr s)) (< (s_arr s) al) (<= 0 (s_off s)) (<= 0 (s_len s)) (<= (s_len s) (s_cap s))
       (<= (s_cap s) 4611686018427387904)
       (=> (= (s_arr s) 0) (and (= (s_off s) 0) (= (s_cap s) 0)))))
}
smt base_interior interior {
(declare-fun interior (Str Int) Int)
(declare-fun int_str (Int) Str)
(declare-fun int_ref (Int) Int)
(assert (forall ((s Str) (r Int)) (! (and (=> (not (= r 0)) (< (interior s r) 0)) (= (int_str (interior s r)) s) (= (int_ref (interior s r)) r)) :pattern ((interior s r)))))
}
smt base_wrap wrapint {
(declare-fun wrapint (Int Int Int) Int)
(assert (forall ((lo Int) (hi Int) (x Int)) (! (=> (<= lo hi) (and (<= lo (wrapint lo hi x)) (<= (wrapint lo hi x) hi))) :pattern ((wrapint lo hi x)))))
(assert (forall ((lo Int) (hi Int) (x Int)) (! (=> (and (> x hi) (<= (- x (+ (- hi lo) 1)) hi)) (= (wrapint lo hi x) (- x (+ (- hi lo) 1)))) :pattern ((wrapint lo hi x)))))
(assert (forall ((lo Int) (hi Int) (x Int)) (! (=> (and (< x lo) (>= (+ x (+ (- hi lo) 1)) lo)) (= (wrapint lo hi x) (+ x (+ (- hi lo) 1)))) :pattern ((wrapint lo hi x)))))
}
smt base_div tdiv trem {
(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (ite (> b 0) (div a b) (- (div a (- b)))) (ite (> b 0) (- (div (- a) b)) (div (- a) (- b)))))
(define-fun trem ((a Int) (b Int)) Int (- a (* b (tdiv a b))))
}
smt base_bits bitop bitnot {
(declare-fun bitop (Str Int Int) Int)
(declare-fun bitnot (Int) Int)
}
smt base_slen slen {
(assert (forall ((s Str)) (! (and (<= 0 (slen s)) (<= (slen s) 9223372036854775807)) :pattern ((slen s)))))
(assert (= (slen str_empty) 0))
(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s str_empty)) :pattern ((slen s)))))
}
smt base_scat scat {
(declare-fun scat (Str Str) Str)
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str)) (! (= (scat a str_empty) a) :pattern ((scat a str_empty)))))
(assert (forall ((a Str)) (! (= (scat str_empty a) a) :pattern ((scat str_empty a)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c)))))
}
smt base_sat sat {
(declare-fun sat (Str Int) Int)
}
smt base_ssub ssub {
(declare-fun ssub (Str Int Int) Str)
(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s))) (= (slen (ssub s a b)) (- b a))) :pattern ((ssub s a b)))))
(assert (forall ((s Str) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 i) (< i (- b a))) (= (sat (ssub s a b) i) (sat s (+ a i)))) :pattern ((sat (ssub s a b) i)))))
(assert (forall ((s Str)) (! (= (ssub s 0 (slen s)) s) :pattern ((ssub s 0 (slen s))))))
}
smt base_slt slt {
(declare-fun slt (Str Str) Bool)
(assert (forall ((a Str) (b Str)) (! (or (= a b) (slt a b) (slt b a)) :pattern ((slt a b)))))
(assert (forall ((a Str) (b Str)) (! (not (and (slt a b) (slt b a))) :pattern ((slt a b)))))
(assert (forall ((a Str) (b Str)) (! (=> (= a b) (not (slt a b))) :pattern ((slt a b)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (slt a b) (slt b c)) (slt a c)) :pattern ((slt a b) (slt b c)))))
}
smt base_bytes str_bytes bytes_str {
(declare-fun str_bytes (Str) (Array Int Int))
(declare-fun bytes_str ((Array Int Int) Int Int) Str)
(assert (forall ((s Str)) (! (= (bytes_str (str_bytes s) 0 (slen s)) s) :pattern ((str_bytes s)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (bytes_str a o n)) n)) :pattern ((bytes_str a o n)))))
}
smt base_bytes_sat bytes_str {
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (bytes_str a o n) i) (select a (+ o i)))) :pattern ((sat (bytes_str a o n) i)))))
(assert (forall ((s Str) (i Int)) (! (= (select (str_bytes s) i) (sat s i)) :pattern ((select (str_bytes s) i)))))
}
smt base_rune rune_str {
(declare-fun rune_str (Int) Str)
}
smt base_hasprefix hasprefix {
(declare-fun hasprefix (Str Str) Bool)
(assert (forall ((s Str) (p Str)) (! (=> (hasprefix s p) (and (<= (slen p) (slen s)) (= s (scat p (ssub s (slen p) (slen s)))))) :pattern ((hasprefix s p)))))
}
smt base_f64 f64_eq f64_lt f64_le f64_add f64_sub f64_mul f64_div f64_neg {
(declare-fun f64_eq (F64 F64) Bool)
(declare-fun f64_lt (F64 F64) Bool)
(declare-fun f64_le (F64 F64) Bool)
(declare-fun f64_add (F64 F64) F64)
(declare-fun f64_sub (F64 F64) F64)
(declare-fun f64_mul (F64 F64) F64)
(declare-fun f64_div (F64 F64) F64)
(declare-fun f64_neg (F64) F64)
}
smt base_f32 f32_round {
(declare-fun f32_round (F64) F64)
}
smt base_f64conv f64_of_int int_of_f64 uint_of_f64 {
(declare-fun f64_of_int (Int) F64)
(declare-fun int_of_f64 (F64) Int)
(declare-fun uint_of_f64 (F64) Int)
}

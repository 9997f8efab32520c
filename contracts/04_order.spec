# C04: the canonical order, as a function of the two trees.
logic c04_scmp(Str,Str,Int) Int
logic c04_ord(Tree,Tree) Int
logic c04_step(Tree,Tree) Int
logic c04_lex(TSeq,TSeq,Int) Int
logic c04_td(TSeq,TSeq,Int,Int) Int
logic c04_tn(TSeq,TSeq,Int) Int
logic c04_u(Tree,Tree) Bool
logic c04_ok(Tree) Bool
logic c04_min(Int,Int) Int
logic c04_cls(Tree) Int
logic c04_exact(Tree) Bool
logic c04_q(Tree) Real
logic tkind(Tree) Int
logic tstr(Tree) Str

# text, character by character from position i
smt c04_scmp c04_scmp {
(declare-fun c04_scmp (Str Str Int) Int)
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (or (>= i (slen a)) (>= i (slen b)))) (= (c04_scmp a b i) (ite (> (slen a) (slen b)) (- 1) (ite (< (slen a) (slen b)) 1 0)))) :pattern ((c04_scmp a b i)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen a)) (< i (slen b)) (not (= (sat a i) (sat b i)))) (= (c04_scmp a b i) (ite (> (sat a i) (sat b i)) (- 1) 1))) :pattern ((c04_scmp a b i)))))
(assert (forall ((a Str) (b Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (< i (slen a)) (< i (slen b)) (= (sat a i) (sat b i)) (= j (+ i 1))) (= (c04_scmp a b i) (c04_scmp a b j))) :pattern ((c04_scmp a b i) (c04_scmp a b j)))))
}
lemma c04_scmp_laws props C04 {
(declare-const a Str) (declare-const b Str) (declare-const i Int)
(assert (<= 0 i)) (assert (or (>= i (slen a)) (>= i (slen b))))
(assert (not (and (= (c04_scmp a b i) (- (c04_scmp b a i))) (<= (- 1) (c04_scmp a b i) 1))))
---
(declare-const a Str) (declare-const b Str) (declare-const i Int)
(assert (<= 0 i)) (assert (< i (slen a))) (assert (< i (slen b)))
(assert (and (= (c04_scmp a b (+ i 1)) (- (c04_scmp b a (+ i 1)))) (<= (- 1) (c04_scmp a b (+ i 1)) 1)))
(assert (not (and (= (c04_scmp a b i) (- (c04_scmp b a i))) (<= (- 1) (c04_scmp a b i) 1))))
}
# swapping flips, by induction on the characters left
smt c04_scmp_laws c04_scmp {
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (<= 0 i) (and (= (c04_scmp a b i) (- (c04_scmp b a i))) (<= (- 1) (c04_scmp a b i) 1))) :pattern ((c04_scmp a b i)))))
}
lemma c04_scmp_trans props C04 {
(declare-const a Str) (declare-const b Str) (declare-const c Str) (declare-const i Int)
(assert (<= 0 i)) (assert (or (>= i (slen a)) (>= i (slen b)) (>= i (slen c))))
(assert (>= (c04_scmp a b i) 0)) (assert (>= (c04_scmp b c i) 0))
(assert (not (= (c04_scmp a c i) (ite (> (c04_scmp a b i) (c04_scmp b c i)) (c04_scmp a b i) (c04_scmp b c i)))))
---
(declare-const a Str) (declare-const b Str) (declare-const c Str) (declare-const i Int)
(assert (<= 0 i)) (assert (< i (slen a))) (assert (< i (slen b))) (assert (< i (slen c)))
(define-fun mx ((x Int) (y Int)) Int (ite (> x y) x y))
(assert (=> (and (>= (c04_scmp a b (+ i 1)) 0) (>= (c04_scmp b c (+ i 1)) 0)) (= (c04_scmp a c (+ i 1)) (mx (c04_scmp a b (+ i 1)) (c04_scmp b c (+ i 1))))))
(assert (>= (c04_scmp a b i) 0)) (assert (>= (c04_scmp b c i) 0))
(assert (not (= (c04_scmp a c i) (mx (c04_scmp a b i) (c04_scmp b c i)))))
}
smt c04_scmp_trans c04_scmp_t {
(declare-const c04_scmp_t Bool)
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (>= (c04_scmp a b 0) 0) (>= (c04_scmp b c 0) 0)) (= (c04_scmp a c 0) (ite (> (c04_scmp a b 0) (c04_scmp b c 0)) (c04_scmp a b 0) (c04_scmp b c 0)))) :pattern ((c04_scmp a b 0) (c04_scmp b c 0)))))
}
# big.Float's comparison is antisymmetric
smt bf_cmp_anti bf_cmp {
(assert (forall ((x BF) (y BF)) (! (and (= (bf_cmp x y) (- (bf_cmp y x))) (<= (- 1) (bf_cmp x y)) (<= (bf_cmp x y) 1)) :pattern ((bf_cmp x y)))))
(assert (forall ((x BF) (y BF)) (! (=> (and (= (bf_cmp x y) 0) (bf_inf x)) (bf_inf y)) :pattern ((bf_cmp x y) (bf_inf x)))))
}
# rounding to a real keeps the order of the exact values
smt bf_mono bf_mono {
(declare-const bf_mono Bool)
(assert (forall ((n Int)) (! (= (bf_int (bf_of f64_zero) n) (bf_setrat (bf_of f64_zero) (to_real n))) :pattern ((bf_int (bf_of f64_zero) n)))))
(assert (forall ((p Real) (q Real)) (! (=> (<= p q) (<= (bf_cmp (bf_setrat (bf_of f64_zero) p) (bf_setrat (bf_of f64_zero) q)) 0)) :pattern ((bf_cmp (bf_setrat (bf_of f64_zero) p) (bf_setrat (bf_of f64_zero) q))))))
}
smt c04_num c04_u c04_cls c04_exact c04_q {
(define-fun c04_cls ((t Tree)) Int (ite (<= (tkind t) 4) 0 (ite (= (tkind t) 6) 1 2)))
(define-fun c04_rd0 ((t Tree)) BF (ite (= (tkind t) 1) (bf_int (bf_of f64_zero) (targ t)) (ite (= (tkind t) 2) (bf_setrat (bf_of f64_zero) (qv (targ t) (targ2 t))) (tbf t))))
(define-fun c04_rd ((t Tree)) BF (ite (= (tkind t) 4) (c04_rd0 (tc1 t)) (c04_rd0 t)))
(define-fun c04_q0 ((t Tree)) Real (ite (= (tkind t) 1) (to_real (targ t)) (ite (= (tkind t) 2) (qv (targ t) (targ2 t)) (bf_exact (tbf t)))))
(define-fun c04_q ((t Tree)) Real (ite (= (tkind t) 4) (c04_q0 (tc1 t)) (c04_q0 t)))
(define-fun c04_exact ((t Tree)) Bool (or (= (tkind t) 1) (= (tkind t) 2)))
(define-fun c04_rcmp ((x Real) (y Real)) Int (ite (< x y) (- 1) (ite (= x y) 0 1)))
(define-fun c04_icmp ((x Int) (y Int)) Int (ite (< x y) (- 1) (ite (= x y) 0 1)))
(define-fun c04_num ((s Tree) (t Tree)) Int (ite (and (= (tkind s) 1) (= (tkind t) 1)) (c04_icmp (targ t) (targ s))
  (let ((c (bf_cmp (c04_rd t) (c04_rd s)))) (let ((d (ite (and (= c 0) (not (bf_inf (c04_rd s)))) (c04_rcmp (c04_q t) (c04_q s)) c)))
  (ite (not (= d 0)) d (ite (and (= (tkind s) 1) (not (= (tkind t) 1))) 1 (ite (and (= (tkind t) 1) (not (= (tkind s) 1))) (- 1) 0)))))))
}
smt c04_seq c04_seq3 {
(declare-fun c04_seq3 (Tree Tree Tree) TSeq)
(assert (forall ((a Tree) (b Tree) (c Tree)) (! (and (= (tlen (c04_seq3 a b c)) 3) (= (tat (c04_seq3 a b c) 0) a) (= (tat (c04_seq3 a b c) 1) b) (= (tat (c04_seq3 a b c) 2) c)) :pattern ((c04_seq3 a b c)))))
}
# trees whose numbers are proper: denominators are not zero, parts of a complex number are real
smt c04_ok c04_ok {
(declare-fun c04_ok (Tree) Bool)
(declare-fun c04_okw (Tree) Int)
(assert (forall ((t Tree)) (! (=> (c04_ok t) (and (=> (= (tkind t) 2) (not (= (targ2 t) 0))) (=> (= (tkind t) 4) (and (<= 1 (tkind (tc1 t))) (<= (tkind (tc1 t)) 3) (c04_ok (tc1 t)))))) :pattern ((c04_ok t)))))
(assert (forall ((t Tree) (i Int)) (! (=> (and (c04_ok t) (= (tkind t) 7) (<= 0 i) (< i (tlen (tesq t)))) (c04_ok (tat (tesq t) i))) :pattern ((c04_ok t) (tat (tesq t) i)))))
(assert (forall ((t Tree)) (! (let ((w (c04_okw t))) (=> (and (= (tkind t) 7) (=> (and (<= 0 w) (< w (tlen (tesq t)))) (c04_ok (tat (tesq t) w)))) (c04_ok t))) :pattern ((c04_ok t)))))
(assert (forall ((t Tree)) (! (=> (or (= (tkind t) 1) (= (tkind t) 3) (= (tkind t) 5) (= (tkind t) 6)) (c04_ok t)) :pattern ((c04_ok t)))))
}
# loops over parts: position by position, from the end over the factors, numbers only
smt c04_loops c04_lex c04_td c04_tn c04_ord {
(declare-fun c04_ord (Tree Tree) Int)
(declare-fun c04_lex (TSeq TSeq Int) Int)
(assert (forall ((s TSeq) (t TSeq) (i Int)) (! (=> (>= i (tlen s)) (= (c04_lex s t i) 0)) :pattern ((c04_lex s t i)))))
(assert (forall ((s TSeq) (t TSeq) (i Int)) (! (=> (and (<= 0 i) (< i (tlen s)) (not (= (c04_ord (tat s i) (tat t i)) 0))) (= (c04_lex s t i) (c04_ord (tat s i) (tat t i)))) :pattern ((c04_lex s t i)))))
(assert (forall ((s TSeq) (t TSeq) (i Int) (j Int)) (! (=> (and (<= 0 i) (< i (tlen s)) (= j (+ i 1)) (= (c04_ord (tat s i) (tat t i)) 0)) (= (c04_lex s t i) (c04_lex s t j))) :pattern ((c04_lex s t i) (c04_lex s t j)))))
(define-fun c04_isn ((t Tree)) Bool (and (<= 1 (tkind t)) (<= (tkind t) 4)))
(define-fun c04_min ((x Int) (y Int)) Int (ite (< x y) x y))
(declare-fun c04_td (TSeq TSeq Int Int) Int)
(define-fun c04_tdo ((s TSeq) (t TSeq) (i Int) (j Int)) Int (ite (and (c04_isn (tat s i)) (c04_isn (tat t j))) 0 (c04_ord (tat s i) (tat t j))))
(assert (forall ((s TSeq) (t TSeq) (i Int) (j Int)) (! (=> (or (< i 1) (< j 1)) (= (c04_td s t i j) 0)) :pattern ((c04_td s t i j)))))
(assert (forall ((s TSeq) (t TSeq) (i Int) (j Int)) (! (=> (and (<= 1 i) (<= 1 j) (not (= (c04_tdo s t i j) 0))) (= (c04_td s t i j) (c04_tdo s t i j))) :pattern ((c04_td s t i j)))))
(assert (forall ((s TSeq) (t TSeq) (i Int) (j Int) (k Int) (l Int)) (! (=> (and (<= 1 i) (<= 1 j) (= k (- i 1)) (= l (- j 1)) (= (c04_tdo s t i j) 0)) (= (c04_td s t i j) (c04_td s t k l))) :pattern ((c04_td s t i j) (c04_td s t k l)))))
(declare-fun c04_tn (TSeq TSeq Int) Int)
(define-fun c04_tno ((s TSeq) (t TSeq) (i Int)) Int (ite (and (c04_isn (tat s i)) (c04_isn (tat t i))) (c04_ord (tat s i) (tat t i)) 0))
(assert (forall ((s TSeq) (t TSeq) (i Int)) (! (=> (>= i (c04_min (tlen s) (tlen t))) (= (c04_tn s t i) (ite (< (tlen s) (tlen t)) 1 (ite (> (tlen s) (tlen t)) (- 1) 0)))) :pattern ((c04_tn s t i)))))
(assert (forall ((s TSeq) (t TSeq) (i Int)) (! (=> (and (<= 0 i) (< i (c04_min (tlen s) (tlen t))) (not (= (c04_tno s t i) 0))) (= (c04_tn s t i) (c04_tno s t i))) :pattern ((c04_tn s t i)))))
(assert (forall ((s TSeq) (t TSeq) (i Int) (j Int)) (! (=> (and (<= 0 i) (< i (c04_min (tlen s) (tlen t))) (= j (+ i 1)) (= (c04_tno s t i) 0)) (= (c04_tn s t i) (c04_tn s t j))) :pattern ((c04_tn s t i) (c04_tn s t j)))))
}
smt c04_step c04_u c04_ord {
(define-fun c04_is ((t Tree) (n Str)) Bool (and (= (tkind t) 7) (= (tkind (tat (tesq t) 0)) 5) (= (tstr (tat (tesq t) 0)) n)))
(define-fun c04_P ((t Tree)) Tree (TE (c04_seq3 (TY @str("System`Power")) t (TI 1))))
(define-fun c04_T ((t Tree)) Tree (TE (c04_seq3 (TY @str("System`Times")) (TI 1) t)))
(define-fun c04_exp ((s Tree) (t Tree)) Int
 (let ((sT (c04_is s @str("System`Times"))) (tT (c04_is t @str("System`Times"))) (sP (c04_is s @str("System`Power"))) (tP (c04_is t @str("System`Power"))) (ss (tesq s)) (ts (tesq t)))
 (ite (and (not sT) tT) (c04_ord (c04_T s) t)
 (ite (and sP (not tP)) (c04_ord s (c04_P t))
 (ite (and sT (not tT)) (c04_ord s (c04_T t))
 (ite (and (not sP) tP) (c04_ord (c04_P s) t)
 (ite (not sT) (ite (< (tlen ss) (tlen ts)) 1 (ite (> (tlen ss) (tlen ts)) (- 1) (c04_lex ss ts 0)))
 (ite (not (= (c04_td ss ts (- (tlen ss) 1) (- (tlen ts) 1)) 0)) (c04_td ss ts (- (tlen ss) 1) (- (tlen ts) 1)) (c04_tn ss ts 0)))))))))
(define-fun c04_step ((s Tree) (t Tree)) Int
 (ite (and (c04_isn s) (c04_isn t)) (c04_num s t)
 (ite (and (= (tkind s) 7) (= (tkind t) 7)) (c04_exp s t)
 (ite (and (= (tkind s) 5) (= (tkind t) 5)) (c04_scmp (tstr s) (tstr t) 0)
 (ite (and (= (tkind s) 6) (= (tkind t) 6)) (c04_scmp (tstr s) (tstr t) 0)
 (ite (< (c04_cls s) (c04_cls t)) 1 (ite (> (c04_cls s) (c04_cls t)) (- 1)
 (ite (= (tkind t) 7) (ite (c04_is t @str("System`Power")) (c04_ord (c04_P s) t) (ite (c04_is t @str("System`Times")) (c04_ord (c04_T s) t) 1))
 (ite (c04_is s @str("System`Power")) (c04_ord s (c04_P t)) (ite (c04_is s @str("System`Times")) (c04_ord s (c04_T t)) (- 1)))))))))))
(declare-fun c04_u (Tree Tree) Bool)
(assert (forall ((s Tree) (t Tree)) (! (and (c04_u s t) (= (c04_ord s t) (c04_step s t))) :pattern ((c04_u s t)))))
}

# swapping the operands flips the answer
smt c04_anti c04_anti {
(define-fun c04_anti ((s Tree) (t Tree)) Bool (and (= (c04_ord s t) (- (c04_ord t s))) (<= (- 1) (c04_ord s t)) (<= (c04_ord s t) 1)))
(declare-fun c04_lw (TSeq TSeq) Int)
(declare-fun c04_dw1 (TSeq TSeq) Int)
(declare-fun c04_dw2 (TSeq TSeq) Int)
}
lemma c04_lex_anti props C04 {
(declare-const s TSeq) (declare-const t TSeq) (declare-const i Int)
(assert (= (tlen s) (tlen t))) (assert (>= i (tlen s)))
(assert (not (and (= (c04_lex s t i) (- (c04_lex t s i))) (<= (- 1) (c04_lex s t i) 1))))
---
(declare-const s TSeq) (declare-const t TSeq) (declare-const i Int)
(assert (= (tlen s) (tlen t))) (assert (<= 0 i)) (assert (< i (tlen s)))
(assert (c04_anti (tat s i) (tat t i)))
(assert (and (= (c04_lex s t (+ i 1)) (- (c04_lex t s (+ i 1)))) (<= (- 1) (c04_lex s t (+ i 1)) 1)))
(assert (not (and (= (c04_lex s t i) (- (c04_lex t s i))) (<= (- 1) (c04_lex s t i) 1))))
}
# by induction on the parts left; the witness is a pair of parts that does not flip
smt c04_lex_anti c04_anti {
(assert (forall ((s TSeq) (t TSeq)) (! (let ((w (c04_lw s t))) (=> (and (= (tlen s) (tlen t)) (=> (and (<= 0 w) (< w (tlen s))) (c04_anti (tat s w) (tat t w)))) (and (= (c04_lex s t 0) (- (c04_lex t s 0))) (<= (- 1) (c04_lex s t 0) 1)))) :pattern ((c04_lex s t 0)))))
}
lemma c04_td_anti props C04 {
(declare-const s TSeq) (declare-const t TSeq) (declare-const i Int) (declare-const j Int)
(assert (or (< i 1) (< j 1)))
(assert (not (and (= (c04_td s t i j) (- (c04_td t s j i))) (<= (- 1) (c04_td s t i j) 1))))
---
(declare-const s TSeq) (declare-const t TSeq) (declare-const i Int) (declare-const j Int)
(assert (<= 1 i)) (assert (<= 1 j))
(assert (c04_anti (tat s i) (tat t j)))
(assert (and (= (c04_td s t (- i 1) (- j 1)) (- (c04_td t s (- j 1) (- i 1)))) (<= (- 1) (c04_td s t (- i 1) (- j 1)) 1)))
(assert (not (and (= (c04_td s t i j) (- (c04_td t s j i))) (<= (- 1) (c04_td s t i j) 1))))
}
smt c04_td_anti c04_anti {
(assert (forall ((s TSeq) (t TSeq) (i Int) (j Int)) (! (let ((v (c04_dw1 s t)) (w (c04_dw2 s t))) (=> (and (< i (tlen s)) (< j (tlen t)) (=> (and (<= 1 v) (< v (tlen s)) (<= 1 w) (< w (tlen t))) (c04_anti (tat s v) (tat t w)))) (and (= (c04_td s t i j) (- (c04_td t s j i))) (<= (- 1) (c04_td s t i j) 1)))) :pattern ((c04_td s t i j)))))
}
lemma c04_tn_anti props C04 {
(declare-const s TSeq) (declare-const t TSeq) (declare-const i Int)
(assert (>= i (c04_min (tlen s) (tlen t))))
(assert (not (and (= (c04_tn s t i) (- (c04_tn t s i))) (<= (- 1) (c04_tn s t i) 1))))
---
(declare-const s TSeq) (declare-const t TSeq) (declare-const i Int)
(assert (<= 0 i)) (assert (< i (c04_min (tlen s) (tlen t))))
(assert (c04_anti (tat s i) (tat t i)))
(assert (and (= (c04_tn s t (+ i 1)) (- (c04_tn t s (+ i 1)))) (<= (- 1) (c04_tn s t (+ i 1)) 1)))
(assert (not (and (= (c04_tn s t i) (- (c04_tn t s i))) (<= (- 1) (c04_tn s t i) 1))))
}
smt c04_tn_anti c04_anti {
(declare-fun c04_tw (TSeq TSeq) Int)
(assert (forall ((s TSeq) (t TSeq)) (! (let ((w (c04_tw s t))) (=> (=> (and (<= 0 w) (< w (c04_min (tlen s) (tlen t)))) (c04_anti (tat s w) (tat t w))) (and (= (c04_tn s t 0) (- (c04_tn t s 0))) (<= (- 1) (c04_tn s t 0) 1)))) :pattern ((c04_tn s t 0)))))
}
# an expression is a finite tree: its parts are smaller than itself
smt c04_sz c04_sz {
(declare-fun c04_sz (Tree) Int)
(assert (forall ((t Tree)) (! (<= 1 (c04_sz t)) :pattern ((c04_sz t)))))
(assert (forall ((t Tree) (i Int)) (! (=> (and (= (tkind t) 7) (<= 0 i) (< i (tlen (tesq t)))) (< (c04_sz (tat (tesq t) i)) (c04_sz t))) :pattern ((c04_sz t) (tat (tesq t) i)))))
(assert (forall ((t Tree)) (! (=> (not (= (tkind t) 7)) (= (c04_sz t) 1)) :pattern ((c04_sz t)))))
}
lemma c04_antisym props C04 {
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (not (and (= (tkind s) 7) (= (tkind t) 7)))) (assert (not (= (tkind s) 7))) (assert (not (= (tkind t) 7)))
(assert (not (c04_anti s t)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (= (tkind s) 7)) (assert (= (tkind t) 7))
(assert (= sT tT)) (assert (= sP tP)) (assert (not sT))
(assert (not (c04_anti s t)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (= (tkind s) 7)) (assert (= (tkind t) 7))
(assert sT) (assert tT)
(assert (not (c04_anti s t)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (= (tkind s) 7)) (assert (= (tkind t) 7))
(assert (not sT)) (assert tT)
(assert (c04_u (c04_T s) t)) (assert (c04_u t (c04_T s)))
(assert (not (c04_anti s t)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (= (tkind s) 7)) (assert (= (tkind t) 7))
(assert sT) (assert (not tT))
(assert (c04_u s (c04_T t))) (assert (c04_u (c04_T t) s))
(assert (not (c04_anti s t)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (= (tkind s) 7)) (assert (= (tkind t) 7))
(assert (not sT)) (assert (not tT)) (assert sP) (assert (not tP))
(assert (c04_u s (c04_P t))) (assert (c04_u (c04_P t) s))
(assert (not (c04_anti s t)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (= (tkind s) 7)) (assert (= (tkind t) 7))
(assert (not sT)) (assert (not tT)) (assert tP) (assert (not sP))
(assert (c04_u (c04_P s) t)) (assert (c04_u t (c04_P s)))
(assert (not (c04_anti s t)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (not (= (tkind s) 7))) (assert (= (tkind t) 7)) (assert tP)
(assert (c04_u (c04_P s) t)) (assert (c04_u t (c04_P s)))
(assert (not (c04_anti s t)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (not (= (tkind s) 7))) (assert (= (tkind t) 7)) (assert tT)
(assert (c04_u (c04_T s) t)) (assert (c04_u t (c04_T s)))
(assert (not (c04_anti s t)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (not (= (tkind s) 7))) (assert (= (tkind t) 7)) (assert (not tT)) (assert (not tP))
(assert (not (c04_anti s t)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (not (= (tkind t) 7))) (assert (= (tkind s) 7)) (assert sP)
(assert (c04_u s (c04_P t))) (assert (c04_u (c04_P t) s))
(assert (not (c04_anti s t)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (not (= (tkind t) 7))) (assert (= (tkind s) 7)) (assert sT)
(assert (c04_u s (c04_T t))) (assert (c04_u (c04_T t) s))
(assert (not (c04_anti s t)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (=> (= (tkind s) 7) (= s (TE (tesq s))))) (assert (=> (= (tkind t) 7) (= t (TE (tesq t)))))
(assert (forall ((x Tree) (y Tree)) (! (=> (< (+ (c04_sz x) (c04_sz y)) (+ (c04_sz s) (c04_sz t))) (c04_anti x y)) :pattern ((c04_ord x y)))))
(assert (c04_u s t)) (assert (c04_u t s)) (assert (<= 1 (tkind s) 7)) (assert (<= 1 (tkind t) 7))
(define-fun sT () Bool (c04_is s @str("System`Times")))
(define-fun tT () Bool (c04_is t @str("System`Times")))
(define-fun sP () Bool (c04_is s @str("System`Power")))
(define-fun tP () Bool (c04_is t @str("System`Power")))
(assert (not (= (tkind t) 7))) (assert (= (tkind s) 7)) (assert (not sT)) (assert (not sP))
(assert (not (c04_anti s t)))
}
# every pair of finite trees flips, by induction on the sum of the sizes
smt c04_antisym c04_flip {
(declare-const c04_flip Bool)
(assert (forall ((s Tree) (t Tree)) (! (c04_anti s t) :pattern ((c04_ord s t)))))
}

# what the order says about numbers, text and compound expressions
lemma c04_classes props C04 {
(declare-const s Tree) (declare-const t Tree)
(assert (c04_u s t)) (assert (<= 1 (tkind s) 4)) (assert (<= 5 (tkind t) 6))
(assert (not (= (c04_ord s t) 1)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (c04_u s t)) (assert (= (tkind s) 6)) (assert (= (tkind t) 5))
(assert (not (= (c04_ord s t) 1)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (c04_u s t)) (assert (or (<= 1 (tkind s) 4) (= (tkind s) 6))) (assert (= (tkind t) 7))
(assert (not (c04_is t @str("System`Power")))) (assert (not (c04_is t @str("System`Times"))))
(assert (not (= (c04_ord s t) 1)))
---
(declare-const s Tree) (declare-const t Tree)
(assert (c04_u s t)) (assert (= (tkind s) (tkind t))) (assert (or (= (tkind s) 5) (= (tkind s) 6)))
(assert (not (= (c04_ord s t) (c04_scmp (tstr s) (tstr t) 0))))
}
smt c04_classes c04_facts {
(declare-const c04_facts Bool)
(assert (forall ((s Tree) (t Tree)) (! (=> (and (<= 1 (tkind s) 4) (<= 5 (tkind t) 6)) (= (c04_ord s t) 1)) :pattern ((c04_ord s t)))))
}
# exact numbers go by value
lemma c04_value props C04 {
(assert (= bf_mono bf_mono))
(declare-const s Tree) (declare-const t Tree)
(assert (c04_u s t)) (assert (c04_exact s)) (assert (c04_exact t)) (assert (not (bf_inf (c04_rd s))))
(assert (< (c04_q s) (c04_q t)))
(assert (not (= (c04_ord s t) 1)))
---
(assert (= bf_mono bf_mono))
(declare-const s Tree) (declare-const t Tree)
(assert (c04_u s t)) (assert (c04_exact s)) (assert (c04_exact t)) (assert (not (bf_inf (c04_rd s))))
(assert (> (c04_q s) (c04_q t)))
(assert (not (= (c04_ord s t) (- 1))))
}
smt c04_value c04_value_facts {
(declare-const c04_value_facts Bool)
}

package github.com/corywalker/expreduce/expreduce/atoms
func compareStrings :: a, b -> r
  props C04
  ensures [text] r == c04_scmp(a, b, 0)
  loop 1 i:int
    invariant 0 <= i && c04_scmp(a, b, 0) == c04_scmp(a, b, i)

func ExOrder :: a, b -> r
  props C04
  requires wf(a) && wf(b) && c04_ok(tv(a)) && c04_ok(tv(b))
  ensures [order-integer] is(a, *Integer) && c04_u(tv(a), tv(b)) ==> r == c04_ord(tv(a), tv(b))
  ensures [order-rational] is(a, *Rational) && c04_u(tv(a), tv(b)) ==> r == c04_ord(tv(a), tv(b))
  ensures [order-real] is(a, *Flt) && c04_u(tv(a), tv(b)) ==> r == c04_ord(tv(a), tv(b))
  ensures [order-complex-integer] is(a, *Complex) && is(b, *Integer) && c04_u(tv(a), tv(b)) ==> r == c04_ord(tv(a), tv(b))
  ensures [order-complex-rational] is(a, *Complex) && is(b, *Rational) && c04_u(tv(a), tv(b)) ==> r == c04_ord(tv(a), tv(b))
  ensures [order-complex-flt] is(a, *Complex) && is(b, *Flt) && c04_u(tv(a), tv(b)) ==> r == c04_ord(tv(a), tv(b))
  ensures [order-complex-complex] is(a, *Complex) && is(b, *Complex) && c04_u(tv(a), tv(b)) ==> r == c04_ord(tv(a), tv(b))
  ensures [order-complex] is(a, *Complex) && !is(b, *Integer) && !is(b, *Rational) && !is(b, *Flt) && !is(b, *Complex) && c04_u(tv(a), tv(b)) ==> r == c04_ord(tv(a), tv(b))
  ensures [order] !is(a, *Integer) && !is(a, *Rational) && !is(a, *Flt) && !is(a, *Complex) && c04_u(tv(a), tv(b)) ==> r == c04_ord(tv(a), tv(b))
  timeout 20
  loop 1 ai:int, bi:int
    invariant 0 <= ai && ai < tlen(old(tseq(a))) && 0 <= bi && bi < tlen(old(tseq(b)))
    invariant c04_td(old(tseq(a)), old(tseq(b)), tlen(old(tseq(a))) - 1, tlen(old(tseq(b))) - 1) == c04_td(old(tseq(a)), old(tseq(b)), ai, bi)
  loop 2 i:int
    invariant 0 <= i && c04_tn(old(tseq(a)), old(tseq(b)), 0) == c04_tn(old(tseq(a)), old(tseq(b)), i)
    invariant c04_td(old(tseq(a)), old(tseq(b)), tlen(old(tseq(a))) - 1, tlen(old(tseq(b))) - 1) == 0
  loop 3 i:int
    invariant 0 <= i && c04_lex(old(tseq(a)), old(tseq(b)), 0) == c04_lex(old(tseq(a)), old(tseq(b)), i)

# Expressions as trees: what an expression pointer stands for in a given heap.
heapcomp th_parts F:atoms.Expression.Parts
heapcomp th_ex E:expreduceapi.Ex (Array Int (Array Int Int))
heapcomp th_ival F:atoms.Integer.Val
heapcomp th_rnum F:atoms.Rational.Num
heapcomp th_rden F:atoms.Rational.Den
heapcomp th_fval F:atoms.Flt.Val
heapcomp th_cre F:atoms.Complex.Re
heapcomp th_cim F:atoms.Complex.Im
heapcomp th_sname F:atoms.Symbol.Name
heapcomp th_str F:atoms.String.Val
heapcomp th_big F:math/big.Int.$val
heapcomp th_bf F:math/big.Float.$val

logic heap cl() Bool
logic heap tv(Int) Tree
logic heap tseq(Int) TSeq
logic heap wf(Int) Bool
logic heap lo(Int,Int) Bool
logic heap nr(Int,Int) Bool
logic tlen(TSeq) Int
logic tat(TSeq,Int) Tree
logic TE(TSeq) Tree
logic TI(Int) Tree
logic TQ(Int,Int) Tree
logic TF(BF) Tree
logic TC(Tree,Tree) Tree
logic TY(Str) Tree
logic TS(Str) Tree
logic targ(Tree) Int
logic heap ek(Int,Int) Int
logic kindof(Int) Int

smt tree_ep ep ek kindof {
(define-fun ep ((S TH) (e Int) (i Int)) Int (select (select (th_ex S) (s_arr (select (th_parts S) e))) (+ (s_off (select (th_parts S) e)) i)))
; kind of a part: 1 integer, 2 rational, 3 real, 4 complex, 0 none of them
(define-fun kindof ((x Int)) Int (ite (= x 0) 0 (ite (= (typeof x) @tag(*atoms.Integer)) 1 (ite (= (typeof x) @tag(*atoms.Rational)) 2 (ite (= (typeof x) @tag(*atoms.Flt)) 3 (ite (= (typeof x) @tag(*atoms.Complex)) 4 0))))))
(define-fun ek ((S TH) (e Int) (i Int)) Int (kindof (ep S e i)))
}
smt tree_cl cl {
(declare-fun cl (TH) Bool)
}
# the tree a pointer stands for
smt tree_tv tv tseq TE TI TQ TF TC TY TS tlen tat {
(declare-sort Tree 0)
(declare-sort TSeq 0)
(declare-fun tv (TH Int) Tree)
(declare-fun tseq (TH Int) TSeq)
(declare-fun tlen (TSeq) Int)
(declare-fun tat (TSeq Int) Tree)
(declare-fun tkind (Tree) Int)
(declare-fun targ (Tree) Int)
(declare-fun targ2 (Tree) Int)
(declare-fun tbf (Tree) BF)
(declare-fun tstr (Tree) Str)
(declare-fun tc1 (Tree) Tree)
(declare-fun tc2 (Tree) Tree)
(declare-fun tesq (Tree) TSeq)
(declare-fun TE (TSeq) Tree)
(declare-fun TI (Int) Tree)
(declare-fun TQ (Int Int) Tree)
(declare-fun TF (BF) Tree)
(declare-fun TC (Tree Tree) Tree)
(declare-fun TY (Str) Tree)
(declare-fun TS (Str) Tree)
(assert (forall ((n Int)) (! (and (= (tkind (TI n)) 1) (= (targ (TI n)) n)) :pattern ((TI n)))))
(assert (forall ((n Int) (d Int)) (! (and (= (tkind (TQ n d)) 2) (= (targ (TQ n d)) n) (= (targ2 (TQ n d)) d)) :pattern ((TQ n d)))))
(assert (forall ((b BF)) (! (and (= (tkind (TF b)) 3) (= (tbf (TF b)) b)) :pattern ((TF b)))))
(assert (forall ((a Tree) (b Tree)) (! (and (= (tkind (TC a b)) 4) (= (tc1 (TC a b)) a) (= (tc2 (TC a b)) b)) :pattern ((TC a b)))))
(assert (forall ((s Str)) (! (and (= (tkind (TY s)) 5) (= (tstr (TY s)) s)) :pattern ((TY s)))))
(assert (forall ((s Str)) (! (and (= (tkind (TS s)) 6) (= (tstr (TS s)) s)) :pattern ((TS s)))))
(assert (forall ((q TSeq)) (! (and (= (tkind (TE q)) 7) (= (tesq (TE q)) q)) :pattern ((TE q)))))
(assert (forall ((S TH) (x Int)) (! (and
  (=> (= (typeof x) @tag(*atoms.Integer)) (= (tv S x) (TI (select (th_big S) (select (th_ival S) x)))))
  (=> (= (typeof x) @tag(*atoms.Rational)) (= (tv S x) (TQ (select (th_big S) (select (th_rnum S) x)) (select (th_big S) (select (th_rden S) x)))))
  (=> (= (typeof x) @tag(*atoms.Flt)) (= (tv S x) (TF (select (th_bf S) (select (th_fval S) x)))))
  (=> (= (typeof x) @tag(*atoms.Complex)) (= (tv S x) (TC (tv S (select (th_cre S) x)) (tv S (select (th_cim S) x)))))
  (=> (= (typeof x) @tag(*atoms.Symbol)) (= (tv S x) (TY (select (th_sname S) x))))
  (=> (= (typeof x) @tag(*atoms.String)) (= (tv S x) (TS (select (th_str S) x))))
  (=> (= (typeof x) @tag(*atoms.Expression)) (= (tv S x) (TE (tseq S x))))) :pattern ((tv S x)))))
(assert (forall ((S TH) (x Int)) (! (=> (<= 0 (s_len (select (th_parts S) x))) (= (tlen (tseq S x)) (s_len (select (th_parts S) x)))) :pattern ((tseq S x)))))
(assert (forall ((S TH) (x Int) (j Int)) (! (=> (and (<= 0 j) (< j (s_len (select (th_parts S) x)))) (= (tat (tseq S x) j) (tv S (ep S x j)))) :pattern ((tat (tseq S x) j)))))
(assert (forall ((S TH) (x Int) (i Int)) (! (let ((p (select (th_parts S) x))) (=> (and (<= (s_off p) i) (< i (+ (s_off p) (s_len p)))) (= (tat (tseq S x) (- i (s_off p))) (tv S (select (select (th_ex S) (s_arr p)) i))))) :pattern ((tseq S x) (select (select (th_ex S) (s_arr (select (th_parts S) x))) i)))))
}
smt tree_ext tv tseq TE TI TQ TF TC TY TS tlen tat {
; sequences are equal when they have the same length and the same elements
(declare-fun twit (TSeq TSeq) Int)
(assert (forall ((a TSeq) (b TSeq)) (! (let ((w (twit a b))) (or (= a b) (not (= (tlen a) (tlen b))) (and (<= 0 w) (< w (tlen a)) (not (= (tat a w) (tat b w)))))) :pattern ((TE a) (TE b)))))
}
# well-formed: every pointer set and allocated, at any depth
smt tree_wf wf {
(declare-fun wf (TH Int) Bool)
(declare-fun wwit (TH Int) Int)
(define-fun wfl ((S TH) (x Int)) Bool (and (< 0 x) (< x (th_alloc S))
  (or (= (typeof x) @tag(*atoms.Integer)) (= (typeof x) @tag(*atoms.Rational)) (= (typeof x) @tag(*atoms.Flt)) (= (typeof x) @tag(*atoms.Complex)) (= (typeof x) @tag(*atoms.Symbol)) (= (typeof x) @tag(*atoms.String)) (= (typeof x) @tag(*atoms.Expression)))
  (=> (= (typeof x) @tag(*atoms.Integer)) (and (not (= (select (th_ival S) x) 0)) (< (select (th_ival S) x) (th_alloc S))))
  (=> (= (typeof x) @tag(*atoms.Rational)) (and (not (= (select (th_rnum S) x) 0)) (not (= (select (th_rden S) x) 0)) (< (select (th_rnum S) x) (th_alloc S)) (< (select (th_rden S) x) (th_alloc S))))
  (=> (= (typeof x) @tag(*atoms.Flt)) (and (not (= (select (th_fval S) x) 0)) (< (select (th_fval S) x) (th_alloc S))))
  (=> (= (typeof x) @tag(*atoms.Complex)) (and (wf S (select (th_cre S) x)) (wf S (select (th_cim S) x))))
  (=> (= (typeof x) @tag(*atoms.Expression)) (<= 1 (s_len (select (th_parts S) x))))))
(assert (forall ((S TH) (x Int)) (! (=> (wf S x) (wfl S x)) :pattern ((wf S x)))))
(assert (forall ((S TH) (x Int) (i Int)) (! (let ((p (select (th_parts S) x))) (=> (and (wf S x) (= (typeof x) @tag(*atoms.Expression)) (<= (s_off p) i) (< i (+ (s_off p) (s_len p)))) (wf S (select (select (th_ex S) (s_arr p)) i)))) :pattern ((wf S x) (select (select (th_ex S) (s_arr (select (th_parts S) x))) i)))))
(assert (forall ((S TH) (x Int)) (! (let ((w (wwit S x))) (=> (and (wfl S x) (=> (and (= (typeof x) @tag(*atoms.Expression)) (<= 0 w) (< w (s_len (select (th_parts S) x)))) (wf S (ep S x w)))) (wf S x))) :pattern ((wf S x)))))
}
# lo: all storage reachable from x was allocated at or after n; nr: r is not reachable from x
smt tree_lo lo nr {
(declare-fun lo (TH Int Int) Bool)
(declare-fun nr (TH Int Int) Bool)
(declare-fun lwit (TH Int Int) Int)
(define-fun lol ((S TH) (x Int) (n Int)) Bool (and (<= n x)
  (=> (= (typeof x) @tag(*atoms.Integer)) (<= n (select (th_ival S) x)))
  (=> (= (typeof x) @tag(*atoms.Rational)) (and (<= n (select (th_rnum S) x)) (<= n (select (th_rden S) x))))
  (=> (= (typeof x) @tag(*atoms.Flt)) (<= n (select (th_fval S) x)))
  (=> (= (typeof x) @tag(*atoms.Complex)) (and (lo S (select (th_cre S) x) n) (lo S (select (th_cim S) x) n)))
  (=> (= (typeof x) @tag(*atoms.Expression)) (<= n (s_arr (select (th_parts S) x))))))
(assert (forall ((S TH) (x Int) (n Int)) (! (=> (lo S x n) (lol S x n)) :pattern ((lo S x n)))))
(assert (forall ((S TH) (x Int) (n Int) (i Int)) (! (let ((p (select (th_parts S) x))) (=> (and (lo S x n) (= (typeof x) @tag(*atoms.Expression)) (<= (s_off p) i) (< i (+ (s_off p) (s_len p)))) (lo S (select (select (th_ex S) (s_arr p)) i) n))) :pattern ((lo S x n) (select (select (th_ex S) (s_arr (select (th_parts S) x))) i)))))
(assert (forall ((S TH) (x Int) (n Int)) (! (let ((w (lwit S x n))) (=> (and (wf S x) (lol S x n) (=> (and (= (typeof x) @tag(*atoms.Expression)) (<= 0 w) (< w (s_len (select (th_parts S) x)))) (lo S (ep S x w) n))) (lo S x n))) :pattern ((lo S x n)))))
(assert (forall ((S TH) (x Int) (n Int) (m Int)) (! (=> (and (lo S x n) (<= m n)) (lo S x m)) :pattern ((lo S x n) (lo S x m)))))
(assert (forall ((S TH) (x Int) (n Int) (r Int)) (! (=> (and (lo S x n) (< r n)) (nr S x r)) :pattern ((lo S x n) (nr S x r)))))
(declare-fun nwit (TH Int Int) Int)
(define-fun nrl ((S TH) (x Int) (r Int)) Bool (and (not (= x r))
  (=> (= (typeof x) @tag(*atoms.Integer)) (not (= r (select (th_ival S) x))))
  (=> (= (typeof x) @tag(*atoms.Rational)) (and (not (= r (select (th_rnum S) x))) (not (= r (select (th_rden S) x)))))
  (=> (= (typeof x) @tag(*atoms.Flt)) (not (= r (select (th_fval S) x))))
  (=> (= (typeof x) @tag(*atoms.Complex)) (and (nr S (select (th_cre S) x) r) (nr S (select (th_cim S) x) r)))
  (=> (= (typeof x) @tag(*atoms.Expression)) (not (= r (s_arr (select (th_parts S) x)))))))
(assert (forall ((S TH) (x Int) (r Int)) (! (=> (and (wf S x) (nr S x r)) (nrl S x r)) :pattern ((nr S x r)))))
(assert (forall ((S TH) (x Int) (r Int)) (! (let ((w (nwit S x r))) (=> (and (wf S x) (nrl S x r) (=> (and (= (typeof x) @tag(*atoms.Expression)) (<= 0 w) (< w (s_len (select (th_parts S) x)))) (nr S (ep S x w) r))) (nr S x r))) :pattern ((nr S x r)))))
; nothing reaches what is not allocated yet
(assert (forall ((S TH) (x Int) (r Int)) (! (=> (and (cl S) (wf S x) (<= (th_alloc S) r)) (nr S x r)) :pattern ((nr S x r)))))
; a part reaches no more than the whole
(assert (forall ((S TH) (x Int) (r Int) (i Int)) (! (let ((p (select (th_parts S) x))) (=> (and (nr S x r) (= (typeof x) @tag(*atoms.Expression)) (<= (s_off p) i) (< i (+ (s_off p) (s_len p)))) (nr S (select (select (th_ex S) (s_arr p)) i) r))) :pattern ((nr S x r) (select (select (th_ex S) (s_arr (select (th_parts S) x))) i)))))
}
# frame: heaps that differ only where x does not reach agree on x
smt tree_frame tv wf lo nr {
(declare-fun fwit (TH TH Int) Int)
(define-fun thdiff ((S TH) (T TH) (w Int)) Bool (or
  (not (= (select (th_parts S) w) (select (th_parts T) w))) (not (= (select (th_ex S) w) (select (th_ex T) w)))
  (not (= (select (th_ival S) w) (select (th_ival T) w))) (not (= (select (th_rnum S) w) (select (th_rnum T) w)))
  (not (= (select (th_rden S) w) (select (th_rden T) w))) (not (= (select (th_fval S) w) (select (th_fval T) w)))
  (not (= (select (th_cre S) w) (select (th_cre T) w))) (not (= (select (th_cim S) w) (select (th_cim T) w)))
  (not (= (select (th_sname S) w) (select (th_sname T) w))) (not (= (select (th_str S) w) (select (th_str T) w)))
  (not (= (select (th_big S) w) (select (th_big T) w))) (not (= (select (th_bf S) w) (select (th_bf T) w)))))
(define-fun apart ((S TH) (T TH) (x Int)) Bool (let ((w (fwit S T x))) (and (< w (th_alloc S)) (thdiff S T w) (not (nr S x w)))))
(assert (forall ((S TH) (T TH) (x Int)) (! (=> (and (cl S) (cl T) (wf S x)) (or (apart S T x) (= (tv S x) (tv T x)))) :pattern ((tv S x) (tv T x)))))
(assert (forall ((S TH) (T TH) (x Int)) (! (=> (and (cl S) (cl T) (wf S x) (<= (th_alloc S) (th_alloc T))) (or (apart S T x) (wf T x))) :pattern ((wf S x) (wf T x)))))
(assert (forall ((S TH) (T TH) (x Int) (n Int) (m Int)) (! (=> (and (cl S) (cl T) (wf S x) (lo S x n) (<= m n)) (or (apart S T x) (lo T x m))) :pattern ((lo S x n) (lo T x m)))))
(assert (forall ((S TH) (T TH) (x Int) (r Int)) (! (=> (and (cl S) (cl T) (wf S x) (nr S x r)) (or (apart S T x) (nr T x r))) :pattern ((nr T x r) (wf S x)))))
}

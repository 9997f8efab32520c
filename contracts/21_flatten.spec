# C16: splicing, threading, flattening.
# c16_pos(q,h,i): where part i of q lands once the parts 1.. with head h are spliced
package github.com/corywalker/expreduce/expreduce
logic c16_pos(TSeq,Str,Int) Int
logic c16_cnt(TSeq,Int) Int
smt c16_pos c16_pos {
(declare-fun c16_pos (TSeq Str Int) Int)
(define-fun c16_w ((t Tree) (h Str)) Int (ite (c06_hd t h) (- (tlen (tesq t)) 1) 1))
(assert (forall ((q TSeq) (h Str)) (! (= (c16_pos q h 1) 1) :pattern ((c16_pos q h 1)))))
; unfolded one step at a time (c16_pz is c16_pos, not unfolded)
(declare-fun c16_pz (TSeq Str Int) Int)
(assert (forall ((q TSeq) (h Str) (i Int)) (! (and (= (c16_pz q h i) (c16_pos q h i)) (=> (< 1 i) (= (c16_pos q h i) (+ (c16_pz q h (- i 1)) (c16_w (tat q (- i 1)) h))))) :pattern ((c16_pos q h i)))))
}
define c16_seq(x,i,h) = c06_hd(tat(tseq(x), i), h)
define c16_p(x,i) = at(x.Parts, off(x.Parts) + i)
define c16_e(e,p) = at(e.(*atoms.Expression).Parts, p)
define c16_o(e) = off(e.(*atoms.Expression).Parts)
define c16_l(e) = len(e.(*atoms.Expression).Parts)
func mergeSequences :: this, es, h, ev -> r
  props C16
  requires wf(this) && is(this, *atoms.Expression) && !ev
  pure
  ensures [none] (forall i:int :: {tat(old(tseq(this)), i)} 1 <= i && i < len(this.Parts) ==> !c06_hd(tat(old(tseq(this)), i), h)) ==> r == this
  ensures [head] r != nil && len(r.Parts) >= 1 && c16_p(r, 0) == old(c16_p(this, 0))
  ensures [length] len(r.Parts) == c16_pos(old(tseq(this)), h, len(this.Parts))
  ensures [others] forall i:int :: {c16_pos(old(tseq(this)), h, i)} 1 <= i && i < len(this.Parts) && !c06_hd(tat(old(tseq(this)), i), h) ==> c16_p(r, c16_pos(old(tseq(this)), h, i)) == old(c16_p(this, i))
  ensures [spliced] forall i:int, e:int, p:int :: {c16_pos(old(tseq(this)), h, i), old(c16_e(e, p))} 1 <= i && i < len(this.Parts) && c06_hd(tat(old(tseq(this)), i), h) && e == old(c16_p(this, i)) && old(c16_o(e)) < p && p < old(c16_o(e) + c16_l(e)) ==> c16_p(r, c16_pos(old(tseq(this)), h, i) + p - old(c16_o(e)) - 1) == old(c16_e(e, p))
  loop 1
    invariant forall i:int :: {c16_pos(old(tseq(this)), h, i)} 1 <= i && i <= $k + 1 ==> c16_pos(old(tseq(this)), h, i) == i
    invariant forall i:int :: {tat(old(tseq(this)), i)} 1 <= i && i <= $k ==> !c06_hd(tat(old(tseq(this)), i), h)
  loop 2 res:*atoms.Expression
    invariant [res] res != nil && fresh(res) && fresh(arr(res.Parts)) && len(res.Parts) == c16_pos(old(tseq(this)), h, $k + 1) && len(res.Parts) >= 1 && c16_p(res, 0) == old(c16_p(this, 0))
    invariant [bounds] forall i:int :: {c16_pos(old(tseq(this)), h, i)} 1 <= i && i <= $k ==> 1 <= c16_pos(old(tseq(this)), h, i) && c16_pos(old(tseq(this)), h, i) + ite(c06_hd(tat(old(tseq(this)), i), h), c06_len(tat(old(tseq(this)), i)) - 1, 1) <= len(res.Parts)
    invariant [others] forall i:int :: {c16_pos(old(tseq(this)), h, i)} 1 <= i && i <= $k && !c06_hd(tat(old(tseq(this)), i), h) ==> c16_p(res, c16_pos(old(tseq(this)), h, i)) == old(c16_p(this, i))
    invariant [spliced] forall i:int, e:int, p:int :: {c16_pos(old(tseq(this)), h, i), old(c16_e(e, p))} 1 <= i && i <= $k && c06_hd(tat(old(tseq(this)), i), h) && e == old(c16_p(this, i)) && old(c16_o(e)) < p && p < old(c16_o(e) + c16_l(e)) ==> c16_p(res, c16_pos(old(tseq(this)), h, i) + p - old(c16_o(e)) - 1) == old(c16_e(e, p))
  loop 3 res:*atoms.Expression
    invariant [res] res != nil && fresh(res) && fresh(arr(res.Parts)) && len(res.Parts) == c16_pos(old(tseq(this)), h, $k2 + 1) + $k && len(res.Parts) >= 1 && c16_p(res, 0) == old(c16_p(this, 0)) && 1 <= c16_pos(old(tseq(this)), h, $k2 + 1) && c06_hd(tat(old(tseq(this)), $k2 + 1), h)
    invariant [bounds] forall i:int :: {c16_pos(old(tseq(this)), h, i)} 1 <= i && i <= $k2 ==> 1 <= c16_pos(old(tseq(this)), h, i) && c16_pos(old(tseq(this)), h, i) + ite(c06_hd(tat(old(tseq(this)), i), h), c06_len(tat(old(tseq(this)), i)) - 1, 1) <= c16_pos(old(tseq(this)), h, $k2 + 1)
    invariant [others] forall i:int :: {c16_pos(old(tseq(this)), h, i)} 1 <= i && i <= $k2 && !c06_hd(tat(old(tseq(this)), i), h) ==> c16_p(res, c16_pos(old(tseq(this)), h, i)) == old(c16_p(this, i))
    invariant [spliced] forall i:int, e:int, p:int :: {c16_pos(old(tseq(this)), h, i), old(c16_e(e, p))} 1 <= i && i <= $k2 && c06_hd(tat(old(tseq(this)), i), h) && e == old(c16_p(this, i)) && old(c16_o(e)) < p && p < old(c16_o(e) + c16_l(e)) ==> c16_p(res, c16_pos(old(tseq(this)), h, i) + p - old(c16_o(e)) - 1) == old(c16_e(e, p))
    invariant [this] forall e:int, p:int :: {old(c16_e(e, p))} e == old(c16_p(this, $k2 + 1)) && old(c16_o(e)) < p && p <= old(c16_o(e)) + $k ==> c16_p(res, c16_pos(old(tseq(this)), h, $k2 + 1) + p - old(c16_o(e)) - 1) == old(c16_e(e, p))

# threading: c16_cnt counts the lists among the first arguments, c16_same says
# that all of them have the length L
logic c16_same(TSeq,Int,Int) Bool
logic c16_sz(TSeq,Int,Int) Bool
smt c16_cnt c16_cnt c16_same c16_sz {
(declare-fun c16_cnt (TSeq Int) Int)
(declare-fun c16_cz (TSeq Int) Int)
(declare-fun c16_same (TSeq Int Int) Bool)
(declare-fun c16_sz (TSeq Int Int) Bool)
(define-fun c16_li ((t Tree)) Bool (c06_hd t @str("System`List")))
(assert (forall ((q TSeq)) (! (= (c16_cnt q 1) 0) :pattern ((c16_cnt q 1)))))
(assert (forall ((q TSeq) (i Int)) (! (and (= (c16_cz q i) (c16_cnt q i)) (=> (< 1 i) (= (c16_cnt q i) (+ (c16_cz q (- i 1)) (ite (c16_li (tat q (- i 1))) 1 0))))) :pattern ((c16_cnt q i)))))
(assert (forall ((q TSeq) (L Int)) (! (c16_same q 1 L) :pattern ((c16_same q 1 L)))))
(assert (forall ((q TSeq) (i Int) (L Int)) (! (and (= (c16_sz q i L) (c16_same q i L)) (=> (< 1 i) (= (c16_same q i L) (and (c16_sz q (- i 1) L) (=> (c16_li (tat q (- i 1))) (= (tlen (tesq (tat q (- i 1)))) (+ L 1))))))) :pattern ((c16_same q i L)))))
}
define th_q(x) = old(tseq(x))
define th_li(x,i) = c06_hd(tat(old(tseq(x)), i), "System`List")
define th_n(x) = old(c16_l(x))
# c16_el: argument i of the application for position l
logic heap c16_el(Int,Int,Int) Int
smt c16_el c16_el {
(declare-fun c16_el (TH Int Int Int) Int)
(assert (forall ((S TH) (x Int) (i Int) (l Int)) (! (= (c16_el S x i l) (ite (c06_hd (tat (tseq S x) i) @str("System`List")) (ep S (ep S x i) l) (ep S x i))) :pattern ((c16_el S x i l)))))
}
# e is the application for position l, as far as its first m parts
define th_app(e,x,l,m) = is(e, *atoms.Expression) && e != nil && c16_l(e) == m && (forall i:int, k:int :: {old(c16_el(x, i, k))} k == l && 1 <= i && i < m ==> at(e.(*atoms.Expression).Parts, c16_o(e) + i) == old(c16_el(x, i, k)))
func threadExpr :: x -> r, ok
  props C16
  opt without:tree_ext
  requires wf(x) && is(x, *atoms.Expression)
  pure
  ensures [alone] !ok ==> r == x
  ensures [no-list] c16_cnt(old(tseq(x)), th_n(x)) == 0 ==> !ok
  ensures [threads] forall L:int :: {c16_same(old(tseq(x)), th_n(x), L)} c16_cnt(old(tseq(x)), th_n(x)) > 0 && c16_same(old(tseq(x)), th_n(x), L) ==> ok
  ensures [equal] ok ==> is(r, *atoms.Expression) && c16_l(r) >= 1 && (forall i:int :: {c16_cnt(old(tseq(x)), i)} 1 <= i && i < th_n(x) && th_li(x, i) ==> c06_len(tat(old(tseq(x)), i)) == c16_l(r))
  ensures [apps] ok ==> forall l:int :: {at(r.(*atoms.Expression).Parts, l)} c16_o(r) < l && l < c16_o(r) + c16_l(r) ==> th_app(at(r.(*atoms.Expression).Parts, l), x, l - c16_o(r), th_n(x))
  loop 1 i:int, lengths:[]int
    invariant 1 <= i && i <= th_n(x) && len(lengths) == c16_cnt(old(tseq(x)), i) && (arr(lengths) == 0 || fresh(arr(lengths)))
    invariant [bounds] forall j:int :: {c16_cnt(old(tseq(x)), j)} 1 <= j && j < i ==> 0 <= c16_cnt(old(tseq(x)), j) && (th_li(x, j) ==> c16_cnt(old(tseq(x)), j) < len(lengths))
    invariant [lengths] forall j:int :: {c16_cnt(old(tseq(x)), j)} 1 <= j && j < i && th_li(x, j) ==> at(lengths, off(lengths) + c16_cnt(old(tseq(x)), j)) == c06_len(tat(old(tseq(x)), j)) - 1
    invariant [nonneg] forall k:int :: {at(lengths, k)} off(lengths) <= k && k < off(lengths) + len(lengths) ==> at(lengths, k) >= 0
    invariant [uniform] forall L:int, k:int :: {c16_same(old(tseq(x)), i, L), at(lengths, k)} {c16_sz(old(tseq(x)), i, L), at(lengths, k)} c16_same(old(tseq(x)), i, L) && off(lengths) <= k && k < off(lengths) + len(lengths) ==> at(lengths, k) == L
  loop 2 allSame:bool
    invariant allSame <==> (forall k:int :: {at(lengths, k)} off(lengths) <= k && k < off(lengths) + $k ==> at(lengths, k) == at(lengths, off(lengths)))
  loop 3 listI:int, toReturn:*atoms.Expression, listLen:int
    invariant [equal] forall j:int :: {c16_cnt(old(tseq(x)), j)} 1 <= j && j < th_n(x) ==> 0 <= c16_cnt(old(tseq(x)), j) && (th_li(x, j) ==> c06_len(tat(old(tseq(x)), j)) == listLen + 1)
    invariant [list] toReturn != nil && fresh(toReturn) && fresh(arr(toReturn.Parts)) && len(toReturn.Parts) == listI + 1 && 0 <= listI && listI <= listLen
    invariant [apps-own] forall l:int :: {at(toReturn.Parts, l)} off(toReturn.Parts) < l && l <= off(toReturn.Parts) + listI ==> fresh(at(toReturn.Parts, l)) && at(toReturn.Parts, l) != toReturn && fresh(arr(at(toReturn.Parts, l).(*atoms.Expression).Parts)) && arr(at(toReturn.Parts, l).(*atoms.Expression).Parts) != arr(toReturn.Parts)
    invariant [apps] forall l:int :: {at(toReturn.Parts, l)} off(toReturn.Parts) < l && l <= off(toReturn.Parts) + listI ==> th_app(at(toReturn.Parts, l), x, l - off(toReturn.Parts), th_n(x))
  loop 4 i:int, thisExpr:*atoms.Expression
    invariant [equal] forall j:int :: {c16_cnt(old(tseq(x)), j)} 1 <= j && j < th_n(x) ==> 0 <= c16_cnt(old(tseq(x)), j) && (th_li(x, j) ==> c06_len(tat(old(tseq(x)), j)) == listLen + 1)
    invariant [list] toReturn != nil && fresh(toReturn) && fresh(arr(toReturn.Parts)) && len(toReturn.Parts) == listI + 1 && 0 <= listI && listI < listLen
    invariant [this] thisExpr != nil && fresh(thisExpr) && fresh(arr(thisExpr.Parts)) && thisExpr != toReturn && arr(thisExpr.Parts) != arr(toReturn.Parts) && 1 <= i && i <= th_n(x) && len(thisExpr.Parts) == i
    invariant [cnt] c16_cnt(old(tseq(x)), i) >= 0
    invariant [this-app] th_app(thisExpr, x, listI + 1, i)
    invariant [apps-own] forall l:int :: {at(toReturn.Parts, l)} off(toReturn.Parts) < l && l <= off(toReturn.Parts) + listI ==> fresh(at(toReturn.Parts, l)) && at(toReturn.Parts, l) != toReturn && at(toReturn.Parts, l) != thisExpr && fresh(arr(at(toReturn.Parts, l).(*atoms.Expression).Parts)) && arr(at(toReturn.Parts, l).(*atoms.Expression).Parts) != arr(toReturn.Parts) && arr(at(toReturn.Parts, l).(*atoms.Expression).Parts) != arr(thisExpr.Parts)
    invariant [apps] forall l:int :: {at(toReturn.Parts, l)} off(toReturn.Parts) < l && l <= off(toReturn.Parts) + listI ==> th_app(at(toReturn.Parts, l), x, l - off(toReturn.Parts), th_n(x))

# flattening: c16_fl counts the elements parts 1..i-1 give, c16_fp is the k-th
logic c16_fl(TSeq,Int,Int) Int
logic c16_fn(TSeq,Int) Int
logic heap c16_fp(Int,Int,Int) Int
logic c16_ok(Tree) Bool
smt c16_fl c16_fl c16_fn c16_fp c16_ok {
(declare-fun c16_fl (TSeq Int Int) Int)
; unfolded one step at a time (c16_fz is c16_fl, not unfolded)
(declare-fun c16_fz (TSeq Int Int) Int)
; c16_fn counts them all
(declare-fun c16_fn (TSeq Int) Int)
(assert (forall ((q TSeq) (l Int) (i Int)) (! (=> (= i (tlen q)) (= (c16_fn q l) (c16_fl q l i))) :pattern ((c16_fn q l) (c16_fl q l i)))))
(declare-fun c16_fp (TH Int Int Int) Int)
(declare-fun c16_gz (TH Int Int Int) Int)
(declare-fun c16_ok (Tree) Bool)
(define-fun c16_ne ((q TSeq) (l Int) (t Tree)) Bool (and (> l 0) (= (tkind t) 7) (= (c02_h (tat q 0)) (c02_h (tat (tesq t) 0)))))
(define-fun c16_fw ((q TSeq) (l Int) (t Tree)) Int (ite (c16_ne q l t) (c16_fn (tesq t) (- l 1)) 1))
(assert (forall ((q TSeq) (l Int)) (! (= (c16_fl q l 1) 0) :pattern ((c16_fl q l 1)))))
(assert (forall ((q TSeq) (l Int) (i Int)) (! (and (= (c16_fz q l i) (c16_fl q l i)) (=> (< 1 i) (= (c16_fl q l i) (+ (c16_fz q l (- i 1)) (c16_fw q l (tat q (- i 1))))))) :pattern ((c16_fl q l i)))))
(assert (forall ((S TH) (x Int) (l Int) (i Int) (k Int)) (! (let ((q (tseq S x)) (j i)) (let ((d (- k (c16_fl q l j)))) (=> (and (<= 1 j) (<= 0 d) (< d (c16_fw q l (tat q j)))) (= (c16_fp S x l k) (ite (c16_ne q l (tat q j)) (c16_gz S (ep S x j) (- l 1) d) (ep S x j)))))) :pattern ((c16_fp S x l k) (c16_fl (tseq S x) l i)))))
; reads only what x reaches (c16_gz is c16_fp, not unfolded)
(assert (forall ((S TH) (T TH) (x Int) (l Int) (k Int) (m Int)) (! (=> (and (= k m) (cl S) (cl T) (wf S x)) (or (apart S T x) (= (c16_gz S x l m) (c16_fp T x l k)))) :pattern ((c16_fp T x l k) (c16_gz S x l m)))))
; no head is a real
(assert (forall ((t Tree) (i Int)) (! (=> (and (c16_ok t) (= (tkind t) 7) (<= 0 i) (< i (tlen (tesq t)))) (and (not (= (tkind (tat (tesq t) 0)) 3)) (c16_ok (tat (tesq t) i)))) :pattern ((c16_ok t) (tat (tesq t) i)))))
}
# what a node within x reaches, x reaches
smt c16_reach c16_fl c16_fn {
(assert (forall ((S TH) (x Int) (w Int) (r Int)) (! (=> (and (cl S) (wf S x) (wf S w) (nr S x r) (not (nr S x w))) (nr S w r)) :pattern ((nr S x w) (nr S w r) (nr S x r) (wf S w)))))
}
define fl_n(x,l) = old(c16_fn(tseq(x), l))
func flattenExpr :: x, dst, level, cl
  props C16
  timeout 30
  opt without:tree_ext
  opt without:c02_encdef
  requires wf(x) && is(x, *atoms.Expression) && hc(x) && c16_ok(tv(x)) && level > 0 - 4611686018427387904
  requires is(dst, *atoms.Expression) && dst != nil && nr(x, dst) && nr(x, arr(dst.(*atoms.Expression).Parts)) && len(dst.(*atoms.Expression).Parts) >= 1 && allocated(dst) && allocated(arr(dst.(*atoms.Expression).Parts))
  modifies dst.(*atoms.Expression).Parts, elems(dst.(*atoms.Expression).Parts), any("F:atoms.Integer.cachedHash"), any("F:atoms.Symbol.cachedHash"), any("F:atoms.Expression.CachedHash")
  ensures [count] c16_l(dst) == old(c16_l(dst)) + fl_n(x, level) && fl_n(x, level) >= 0 && dst != nil
  ensures [own] arr(dst.(*atoms.Expression).Parts) == old(arr(dst.(*atoms.Expression).Parts)) || fresh(arr(dst.(*atoms.Expression).Parts))
  ensures [kept] forall k:int :: {c16_e(dst, k)} c16_o(dst) <= k && k < c16_o(dst) + old(c16_l(dst)) ==> c16_e(dst, k) == old(c16_e(dst, k - now(c16_o(dst)) + c16_o(dst)))
  ensures [added] forall k:int :: {c16_e(dst, k)} c16_o(dst) + old(c16_l(dst)) <= k && k < c16_o(dst) + c16_l(dst) ==> c16_e(dst, k) == old(c16_fp(x, level, k - now(c16_o(dst)) - c16_l(dst)))
  ensures [int-remembered] forall w:int :: {c02_sel(comp("F:atoms.Integer.cachedHash"), w)} old(wf(w) && nr(w, dst) && nr(w, arr(dst.(*atoms.Expression).Parts))) && is(w, *atoms.Integer) ==> c02_okx(old(comp("F:atoms.Integer.cachedHash")), comp("F:atoms.Integer.cachedHash"), w)
  ensures [sym-remembered] forall w:int :: {c02_sel(comp("F:atoms.Symbol.cachedHash"), w)} old(wf(w) && nr(w, dst) && nr(w, arr(dst.(*atoms.Expression).Parts))) && is(w, *atoms.Symbol) ==> c02_okx(old(comp("F:atoms.Symbol.cachedHash")), comp("F:atoms.Symbol.cachedHash"), w)
  ensures [expr-remembered] forall w:int :: {c02_sel(comp("F:atoms.Expression.CachedHash"), w)} old(wf(w) && nr(w, dst) && nr(w, arr(dst.(*atoms.Expression).Parts))) && is(w, *atoms.Expression) ==> c02_okx(old(comp("F:atoms.Expression.CachedHash")), comp("F:atoms.Expression.CachedHash"), w)
  loop 1 i:int
    invariant [src] wf(x) && tv(x) == old(tv(x)) && hc(x) && x.(*atoms.Expression).Parts == old(x.(*atoms.Expression).Parts) && 1 <= i && i <= old(c16_l(x)) && nr(x, dst) && nr(x, arr(dst.(*atoms.Expression).Parts))
    invariant [count] c16_l(dst) == old(c16_l(dst)) + c16_fl(old(tseq(x)), level, i) && c16_fl(old(tseq(x)), level, i) >= 0 && dst != nil
    invariant [own] arr(dst.(*atoms.Expression).Parts) == old(arr(dst.(*atoms.Expression).Parts)) || fresh(arr(dst.(*atoms.Expression).Parts))
    invariant [kept] forall k:int :: {c16_e(dst, k)} c16_o(dst) <= k && k < c16_o(dst) + old(c16_l(dst)) ==> c16_e(dst, k) == old(c16_e(dst, k - now(c16_o(dst)) + c16_o(dst)))
    invariant [added] forall k:int :: {c16_e(dst, k)} c16_o(dst) + old(c16_l(dst)) <= k && k < c16_o(dst) + c16_l(dst) ==> c16_e(dst, k) == old(c16_fp(x, level, k - now(c16_o(dst)) - c16_l(dst)))
    invariant [int-remembered] forall w:int :: {c02_sel(comp("F:atoms.Integer.cachedHash"), w)} old(wf(w) && nr(w, dst) && nr(w, arr(dst.(*atoms.Expression).Parts))) && is(w, *atoms.Integer) ==> c02_okx(old(comp("F:atoms.Integer.cachedHash")), comp("F:atoms.Integer.cachedHash"), w)
    invariant [sym-remembered] forall w:int :: {c02_sel(comp("F:atoms.Symbol.cachedHash"), w)} old(wf(w) && nr(w, dst) && nr(w, arr(dst.(*atoms.Expression).Parts))) && is(w, *atoms.Symbol) ==> c02_okx(old(comp("F:atoms.Symbol.cachedHash")), comp("F:atoms.Symbol.cachedHash"), w)
    invariant [expr-remembered] forall w:int :: {c02_sel(comp("F:atoms.Expression.CachedHash"), w)} old(wf(w) && nr(w, dst) && nr(w, arr(dst.(*atoms.Expression).Parts))) && is(w, *atoms.Expression) ==> c02_okx(old(comp("F:atoms.Expression.CachedHash")), comp("F:atoms.Expression.CachedHash"), w)

# C07: applying bindings.  A set of bindings is an environment (names -> trees);
# c07_sub is simultaneous substitution on trees, c07_occ occurrence of a symbol.
package github.com/corywalker/expreduce/expreduce/atoms
logic heap c07_env((Array Str Bool),(Array Str Int)) TEnv
logic c07_sub(TEnv,Tree) Tree
logic c07_occ(Tree,Str) Bool
logic c07_dec(TEnv,Tree) Bool
logic heap sep(Int,Int) Bool
logic c07_esel((Array Int (Array Int Int)),Int) (Array Int Int)
logic c07_isel((Array Int Int),Int) Int

smt c07_sel c07_esel c07_isel {
(define-fun c07_esel ((a (Array Int (Array Int Int))) (x Int)) (Array Int Int) (select a x))
(define-fun c07_isel ((a (Array Int Int)) (x Int)) Int (select a x))
}
smt c07_sub c07_env c07_sub c07_occ {
(declare-sort TEnv 0)
(declare-fun c07_eh (TEnv Str) Bool)
(declare-fun c07_ev (TEnv Str) Tree)
(declare-fun c07_env (TH (Array Str Bool) (Array Str Int)) TEnv)
(declare-fun c07_ewit (TEnv TEnv) Str)
(assert (forall ((S TH) (d (Array Str Bool)) (v (Array Str Int)) (k Str)) (! (= (c07_eh (c07_env S d v) k) (select d k)) :pattern ((c07_eh (c07_env S d v) k)))))
(assert (forall ((S TH) (d (Array Str Bool)) (v (Array Str Int)) (k Str)) (! (=> (select d k) (= (c07_ev (c07_env S d v) k) (tv S (select v k)))) :pattern ((c07_ev (c07_env S d v) k)))))
; an environment is what it binds, and to what
(assert (forall ((S TH) (d (Array Str Bool)) (v (Array Str Int)) (T TH) (d2 (Array Str Bool)) (v2 (Array Str Int))) (! (let ((a (c07_env S d v)) (b (c07_env T d2 v2))) (let ((k (c07_ewit a b))) (or (= a b) (not (= (c07_eh a k) (c07_eh b k))) (and (c07_eh a k) (not (= (c07_ev a k) (c07_ev b k))))))) :pattern ((c07_env S d v) (c07_env T d2 v2)))))
(declare-fun c07_sub (TEnv Tree) Tree)
(declare-fun c07_subq (TEnv TSeq) TSeq)
(assert (forall ((e TEnv) (s Str)) (! (= (c07_sub e (TY s)) (ite (c07_eh e s) (c07_ev e s) (TY s))) :pattern ((c07_sub e (TY s))))))
(assert (forall ((e TEnv) (q TSeq)) (! (= (c07_sub e (TE q)) (TE (c07_subq e q))) :pattern ((c07_sub e (TE q))))))
(assert (forall ((e TEnv) (q TSeq)) (! (= (tlen (c07_subq e q)) (tlen q)) :pattern ((c07_subq e q)))))
(assert (forall ((e TEnv) (q TSeq) (i Int)) (! (=> (and (<= 0 i) (< i (tlen q))) (= (tat (c07_subq e q) i) (c07_sub e (tat q i)))) :pattern ((tat (c07_subq e q) i)))))
(assert (forall ((e TEnv) (t Tree)) (! (=> (and (not (= (tkind t) 5)) (not (= (tkind t) 7))) (= (c07_sub e t) t)) :pattern ((c07_sub e t)))))
(declare-fun c07_occ (Tree Str) Bool)
(declare-fun c07_ow (TSeq Str) Int)
(assert (forall ((s Str) (k Str)) (! (= (c07_occ (TY s) k) (= s k)) :pattern ((c07_occ (TY s) k)))))
(assert (forall ((q TSeq) (k Str)) (! (let ((w (c07_ow q k))) (=> (c07_occ (TE q) k) (and (<= 0 w) (< w (tlen q)) (c07_occ (tat q w) k)))) :pattern ((c07_occ (TE q) k)))))
(assert (forall ((q TSeq) (k Str) (i Int)) (! (=> (and (<= 0 i) (< i (tlen q)) (c07_occ (tat q i) k)) (c07_occ (TE q) k)) :pattern ((c07_occ (TE q) k) (tat q i)))))
(assert (forall ((t Tree) (k Str)) (! (=> (and (not (= (tkind t) 5)) (not (= (tkind t) 7))) (not (c07_occ t k))) :pattern ((c07_occ t k)))))
}
# no bound name occurs: substitution does nothing
lemma c07_id props C07 {
(declare-const e TEnv) (declare-const q TSeq)
(declare-fun w (Int) Str)
(assert (<= 0 (tlen q)))
(assert (forall ((i Int)) (! (or (= (c07_sub e (tat q i)) (tat q i)) (and (c07_eh e (w i)) (c07_occ (tat q i) (w i)))) :pattern ((tat q i)))))
(assert (forall ((k Str)) (! (not (and (c07_eh e k) (c07_occ (TE q) k))) :pattern ((c07_occ (TE q) k)))))
(assert (forall ((k Str) (i Int)) (! (=> (and (<= 0 i) (< i (tlen q)) (c07_occ (tat q i) k)) (c07_occ (TE q) k)) :pattern ((c07_occ (tat q i) k)))))
(assert (not (= (c07_sub e (TE q)) (TE q))))
(assert (not (= (c07_subq e q) q)))
---
(declare-const e TEnv) (declare-const t Tree)
(declare-const s Str)
(assert (or (= t (TY s)) (and (not (= (tkind t) 5)) (not (= (tkind t) 7)))))
(assert (forall ((k Str)) (not (and (c07_eh e k) (c07_occ t k)))))
(assert (not (= (c07_sub e t) t)))
}
smt c07_id c07_sub {
(declare-fun c07_iw (TEnv Tree) Str)
(assert (forall ((e TEnv) (t Tree)) (! (let ((k (c07_iw e t))) (or (= (c07_sub e t) t) (and (c07_eh e k) (c07_occ t k)))) :pattern ((c07_sub e t)))))
}
# sep(x, n): every expression node and part list of x was allocated at or after n, and
# no storage allocated at or after n is reached from two parts
smt tree_sep sep {
(declare-fun sep (TH Int Int) Bool)
(declare-fun sw1 (TH Int Int) Int)
(declare-fun sw2 (TH Int Int) Int)
(declare-fun sw3 (TH Int Int) Int)
(declare-fun swr (TH Int Int) Int)
(define-fun isx ((x Int)) Bool (= (typeof x) @tag(*atoms.Expression)))
(define-fun inp ((S TH) (x Int) (i Int)) Bool (and (<= (s_off (select (th_parts S) x)) i) (< i (+ (s_off (select (th_parts S) x)) (s_len (select (th_parts S) x))))))
(define-fun epa ((S TH) (x Int) (i Int)) Int (select (select (th_ex S) (s_arr (select (th_parts S) x))) i))
(assert (forall ((S TH) (x Int) (n Int)) (! (=> (and (sep S x n) (isx x)) (and (<= n x) (<= n (s_arr (select (th_parts S) x))))) :pattern ((sep S x n)))))
(assert (forall ((S TH) (x Int) (n Int) (i Int)) (! (=> (and (sep S x n) (isx x) (inp S x i)) (and (sep S (epa S x i) n) (nr S (epa S x i) (s_arr (select (th_parts S) x))) (nr S (epa S x i) x))) :pattern ((sep S x n) (select (select (th_ex S) (s_arr (select (th_parts S) x))) i)))))
(assert (forall ((S TH) (x Int) (n Int) (i Int) (j Int) (r Int)) (! (=> (and (sep S x n) (isx x) (inp S x i) (inp S x j) (not (= i j)) (<= n r)) (or (nr S (epa S x i) r) (nr S (epa S x j) r))) :pattern ((sep S x n) (nr S (select (select (th_ex S) (s_arr (select (th_parts S) x))) i) r) (nr S (select (select (th_ex S) (s_arr (select (th_parts S) x))) j) r)))))
(assert (forall ((S TH) (x Int) (n Int)) (! (let ((i (sw1 S x n)) (j (sw2 S x n)) (l (sw3 S x n)) (r (swr S x n))) (=> (and (wf S x) (=> (isx x) (and (<= n x) (<= n (s_arr (select (th_parts S) x)))
   (=> (inp S x i) (and (sep S (epa S x i) n) (nr S (epa S x i) (s_arr (select (th_parts S) x))) (nr S (epa S x i) x)))
   (=> (and (inp S x j) (inp S x l) (< j l) (<= n r)) (or (nr S (epa S x j) r) (nr S (epa S x l) r)))))) (sep S x n))) :pattern ((sep S x n)))))
(declare-fun smw (TH Int Int Int) Int)
(assert (forall ((S TH) (T TH) (x Int) (a Int) (n Int)) (! (let ((r (smw S x a n))) (=> (and (cl S) (cl T) (wf S x) (sep S x a) (<= n a)) (or (apart S T x) (sep T x n) (and (<= n r) (< r a) (not (nr S x r)))))) :pattern ((sep S x a) (sep T x n)))))
}

func ContainsSymbol :: e, name -> r
  props C07
  requires wf(e)
  pure
  ensures [occurs] r <==> c07_occ(tv(e), name)
  loop 1
    invariant forall j:int :: {tat(tseq(e), j)} 0 <= j && j < $k ==> !c07_occ(tat(tseq(e), j), name)

package github.com/corywalker/expreduce/expreduce/matcher
define c07_e(pm) = c07_env(mdom(pm.patternDefined), mvals(pm.patternDefined))

func replacePDInternal :: e, pm -> r, dirty
  props C07
  gparam n:int
  requires pm != nil && wf(e) && sep(e, n) && n <= alloc_entry
  requires forall k:string :: {pm.patternDefined[k]} has(pm.patternDefined, k) ==> wf(pm.patternDefined[k])
  requires forall k:string, q:int :: {nr(pm.patternDefined[k], q)} has(pm.patternDefined, k) && q >= n ==> nr(pm.patternDefined[k], q)
  modifies any("E:expreduceapi.Ex"), any("F:atoms.Expression.EvaledHash"), any("F:atoms.Expression.CachedHash")
  ensures [value] tv(r) == old(c07_sub(c07_e(pm), tv(e)))
  ensures [well-formed] wf(r)
  ensures [reach] forall q:int :: {nr(r, q)} q >= n && old(nr(e, q)) ==> nr(r, q)
  ensures [frame] forall q:int :: {c07_esel(comp("E:expreduceapi.Ex"), q)} q < alloc_entry && (q < n || old(nr(e, q))) ==> c07_esel(comp("E:expreduceapi.Ex"), q) == old(c07_esel(comp("E:expreduceapi.Ex"), q))
  ensures [frame-hash] forall q:int :: {c07_isel(comp("F:atoms.Expression.CachedHash"), q)} q < n ==> c07_isel(comp("F:atoms.Expression.CachedHash"), q) == old(c07_isel(comp("F:atoms.Expression.CachedHash"), q))
  ensures [frame-evaled] forall q:int :: {c07_isel(comp("F:atoms.Expression.EvaledHash"), q)} q < n ==> c07_isel(comp("F:atoms.Expression.EvaledHash"), q) == old(c07_isel(comp("F:atoms.Expression.EvaledHash"), q))
  loop 1
    invariant forall k:string :: {visited(k)} visited(k) ==> k != e.(*atoms.Symbol).Name
  loop 2
    invariant [done] forall j:int :: {at(e.(*atoms.Expression).Parts, j)} off(e.(*atoms.Expression).Parts) <= j && j < off(e.(*atoms.Expression).Parts) + $k ==> tv(at(e.(*atoms.Expression).Parts, j)) == c07_sub(old(c07_e(pm)), tat(old(tseq(e)), j - off(e.(*atoms.Expression).Parts)))
    invariant [done-wf] forall j:int :: {at(e.(*atoms.Expression).Parts, j)} off(e.(*atoms.Expression).Parts) <= j && j < off(e.(*atoms.Expression).Parts) + len(e.(*atoms.Expression).Parts) ==> wf(at(e.(*atoms.Expression).Parts, j))
    invariant [rest] forall j:int :: {at(e.(*atoms.Expression).Parts, j)} off(e.(*atoms.Expression).Parts) + $k <= j && j < off(e.(*atoms.Expression).Parts) + len(e.(*atoms.Expression).Parts) ==> at(e.(*atoms.Expression).Parts, j) == old(at(e.(*atoms.Expression).Parts, j)) && tv(at(e.(*atoms.Expression).Parts, j)) == tat(old(tseq(e)), j - off(e.(*atoms.Expression).Parts)) && sep(at(e.(*atoms.Expression).Parts, j), n)
    invariant [reach] forall j:int, q:int :: {nr(at(e.(*atoms.Expression).Parts, j), q)} off(e.(*atoms.Expression).Parts) <= j && j < off(e.(*atoms.Expression).Parts) + len(e.(*atoms.Expression).Parts) && q >= n && old(nr(at(e.(*atoms.Expression).Parts, j), q)) ==> nr(at(e.(*atoms.Expression).Parts, j), q)
    invariant [frame] forall q:int :: {c07_esel(comp("E:expreduceapi.Ex"), q)} q < alloc_entry && (q < n || old(nr(e, q))) ==> c07_esel(comp("E:expreduceapi.Ex"), q) == old(c07_esel(comp("E:expreduceapi.Ex"), q))
    invariant [frame-hash] forall q:int :: {c07_isel(comp("F:atoms.Expression.CachedHash"), q)} q < n ==> c07_isel(comp("F:atoms.Expression.CachedHash"), q) == old(c07_isel(comp("F:atoms.Expression.CachedHash"), q))
    invariant [frame-evaled] forall q:int :: {c07_isel(comp("F:atoms.Expression.EvaledHash"), q)} q < n ==> c07_isel(comp("F:atoms.Expression.EvaledHash"), q) == old(c07_isel(comp("F:atoms.Expression.EvaledHash"), q))
    invariant [bindings] forall k:string :: {pm.patternDefined[k]} has(pm.patternDefined, k) ==> wf(pm.patternDefined[k]) && tv(pm.patternDefined[k]) == old(tv(pm.patternDefined[k]))
    invariant [bindings-reach] forall k:string, q:int :: {nr(pm.patternDefined[k], q)} has(pm.patternDefined, k) && q >= n ==> nr(pm.patternDefined[k], q)

func ReplacePD :: expr, es, pm -> r
  props C07
  requires wf(expr)
  requires pm != nil ==> (forall k:string :: {pm.patternDefined[k]} has(pm.patternDefined, k) ==> wf(pm.patternDefined[k]))
  gcall replacePDInternal n = alloc_entry
  ensures [no-bindings] pm == nil ==> r == expr
  ensures [value] pm != nil ==> tv(r) == old(c07_sub(c07_e(pm), tv(expr)))
  ensures [well-formed] wf(r)
  loop 1
    invariant forall k:string :: {visited(k)} visited(k) ==> !c07_occ(tv(expr), k)

# ---- orderless deals: c05_D(j) is the element an arbitrary deal puts at position j
logic c05_D(Int) Int
logic c05_nf((Array Int |St:matcher.assnIterState|),Int,Int) Int
smt c05_D c05_D {
(declare-fun c05_D (Int) Int)
}
# number of "free this element again" marks among the first k stack entries
smt c05_nf c05_nf {
(declare-fun c05_nf ((Array Int |St:matcher.assnIterState|) Int Int) Int)
(assert (forall ((a (Array Int |St:matcher.assnIterState|)) (o Int) (k Int)) (! (=> (<= k 0) (= (c05_nf a o k) 0)) :pattern ((c05_nf a o k)))))
(assert (forall ((a (Array Int |St:matcher.assnIterState|)) (o Int) (k Int) (m Int)) (! (=> (and (<= 0 k) (= m (+ k 1))) (= (c05_nf a o m) (+ (c05_nf a o k) (ite (>= (|sel:matcher.assnIterState.toFree| (select a (+ o k))) 0) 1 0)))) :pattern ((c05_nf a o k) (c05_nf a o m)))))
}
smt c05_nf_agree c05_nf {
(assert (forall ((a (Array Int |St:matcher.assnIterState|)) (o Int) (k Int) (b (Array Int |St:matcher.assnIterState|)) (p Int) (m Int)) (! (=> (and (= k m) (forall ((i Int)) (! (=> (and (<= 0 i) (< i k)) (= (select a (+ o i)) (select b (+ p i)))) :pattern ((select b (+ p i)))))) (= (c05_nf a o k) (c05_nf b p m))) :pattern ((c05_nf a o k) (c05_nf b p m)))))
}
lemma c05_nf_agree props C05 {
(declare-const a (Array Int |St:matcher.assnIterState|))
(declare-const b (Array Int |St:matcher.assnIterState|))
(declare-const x Slice)
(define-fun o () Int (s_off x))
(declare-const y Slice)
(define-fun p () Int (s_off y))
(declare-const k Int)
(assert (<= k 0))
(assert (not (= (c05_nf a o k) (c05_nf b p k))))
---
(declare-const a (Array Int |St:matcher.assnIterState|))
(declare-const b (Array Int |St:matcher.assnIterState|))
(declare-const x Slice)
(define-fun o () Int (s_off x))
(declare-const y Slice)
(define-fun p () Int (s_off y))
(declare-const k Int)
(assert (> k 0))
(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i k)) (= (select a (+ o i)) (select b (+ p i)))) :pattern ((select b (+ p i))))))
(assert (=> (forall ((i Int)) (! (=> (and (<= 0 i) (< i (- k 1))) (= (select a (+ o i)) (select b (+ p i)))) :pattern ((select b (+ p i))))) (= (c05_nf a o (- k 1)) (c05_nf b p (- k 1)))))
(assert (= (select a (+ o (- k 1))) (select b (+ p (- k 1)))))
(assert (not (= (c05_nf a o k) (c05_nf b p k))))
}

define c05_L(asi) = len(asi.assnData)
define c05_lev(asi, k) = c05_nf(data(asi.stack), off(asi.stack), k)
define c05_dist(asi) = forall i:int, j:int :: {c05_D(i), c05_D(j)} 0 <= i && i < j && j < len(asi.assnData) ==> c05_D(i) != c05_D(j)
define c05_dsuf(asi, d) = (forall j:int :: {c05_D(j)} d <= j && j < len(asi.assnData) ==> 0 <= c05_D(j) && c05_D(j) < len(asi.assnData) && asi.formMatches[asi.assnIndices[j]][c05_D(j)]) && (forall i:int, j:int :: {c05_D(i), c05_D(j)} d <= j && j < len(asi.assnData) && 0 <= i && j == i + 1 && asi.assnIndices[i] == asi.assnIndices[j] ==> c05_D(i) < c05_D(j))
define c05_dpre(asi, n) = forall j:int :: {c05_D(j)} 0 <= j && j < n ==> c05_D(j) == asi.assnData[j]
define c05_dm(asi, s) = s.toFree < 0 && c05_dpre(asi, s.assnDataI - 1) && (s.assnDataI > 0 ==> c05_D(s.assnDataI - 1) == s.lastTaken) && c05_dsuf(asi, s.assnDataI) && c05_dist(asi)
define c05_dpend(asi) = exists k:int :: {c05_k(k)} c05_k(k) && 0 <= k && k < len(asi.stack) && c05_dm(asi, asi.stack[k])
define c05_dis(asi) = c05_dpre(asi, len(asi.assnData))

define c05_dshape(asi) = asi != nil && len(asi.assnIndices) == len(asi.assnData) && len(asi.taken) == len(asi.assnData) && arr(asi.assnIndices) != arr(asi.assnData) && (forall j:int :: {asi.assnIndices[j]} 0 <= j && j < len(asi.assnIndices) ==> 0 <= asi.assnIndices[j] && asi.assnIndices[j] < len(asi.formMatches)) && (forall f:int :: {asi.formMatches[f]} 0 <= f && f < len(asi.formMatches) ==> len(asi.formMatches[f]) == len(asi.assnData) && arr(asi.formMatches[f]) != arr(asi.taken))
define c05_crossed(asi, s) = s.assnDataI < len(asi.assnData) ==> (s.crossedBoundary <==> s.assnDataI == 0 || asi.assnIndices[s.assnDataI - 1] != asi.assnIndices[s.assnDataI])
define c05_dbranch(asi, s, lev, n) = 0 <= s.assnDataI && s.assnDataI <= len(asi.assnData) && (s.assnDataI == 0 ==> n == 1 && s.lastTaken == 0 - 1) && (s.assnDataI > 0 ==> lev == s.assnDataI - 1 && 0 <= s.lastTaken && s.lastTaken < len(asi.assnData)) && c05_crossed(asi, s)
define c05_dentries(asi) = forall k:int :: {asi.stack[k]} 0 <= k && k < len(asi.stack) ==> (0 <= asi.stack[k].toFree ==> asi.stack[k].toFree < len(asi.assnData) && asi.assnData[c05_lev(asi, k)] == asi.stack[k].toFree && 0 <= c05_lev(asi, k) && c05_lev(asi, k) < len(asi.assnData)) && (asi.stack[k].toFree < 0 ==> c05_dbranch(asi, asi.stack[k], c05_lev(asi, k), len(asi.stack)))
define c05_dfree(asi) = forall k:int, j:int :: {asi.stack[k], asi.assnData[j]} 0 <= k && k < len(asi.stack) && asi.stack[k].toFree < 0 && 0 <= j && j < asi.stack[k].assnDataI - 1 ==> asi.assnData[j] != asi.stack[k].lastTaken
define c05_dpairs(asi) = forall k:int, l:int :: {asi.stack[k], asi.stack[l]} 0 <= k && k < l && l < len(asi.stack) && asi.stack[k].toFree < 0 && asi.stack[l].toFree < 0 ==> asi.stack[k].assnDataI <= asi.stack[l].assnDataI && (asi.stack[k].assnDataI == asi.stack[l].assnDataI ==> asi.stack[k].lastTaken != asi.stack[l].lastTaken) && (asi.stack[k].assnDataI < asi.stack[l].assnDataI ==> asi.assnData[asi.stack[k].assnDataI - 1] != asi.stack[k].lastTaken)
define c05_dtaken(asi) = 0 <= c05_lev(asi, len(asi.stack)) && c05_lev(asi, len(asi.stack)) <= len(asi.assnData) && (len(asi.stack) > 0 ==> c05_lev(asi, len(asi.stack) - 1) <= c05_lev(asi, len(asi.stack))) && (forall j:int :: {asi.assnData[j]} 0 <= j && j < c05_lev(asi, len(asi.stack)) ==> 0 <= asi.assnData[j] && asi.assnData[j] < len(asi.taken) && asi.taken[asi.assnData[j]]) && (forall x:int :: {asi.taken[x]} 0 <= x && x < len(asi.taken) && asi.taken[x] ==> (exists j:int :: {c05_k(j)} c05_k(j) && 0 <= j && j < c05_lev(asi, len(asi.stack)) && asi.assnData[j] == x)) && (forall i:int, j:int :: {asi.assnData[i], asi.assnData[j]} 0 <= i && i < j && j < c05_lev(asi, len(asi.stack)) ==> asi.assnData[i] != asi.assnData[j])
define c05_dwf(asi) = c05_dshape(asi) && c05_dentries(asi) && c05_dfree(asi) && c05_dpairs(asi) && c05_dtaken(asi)

define c05_dq(asi, p) = c05_dpre(asi, p.assnDataI) && c05_dsuf(asi, p.assnDataI) && c05_dist(asi)
define c05_dbelow(asi, p, i) = forall k:int :: {asi.stack[k]} 0 <= k && k < len(asi.stack) && asi.stack[k].toFree < 0 ==> 1 <= asi.stack[k].assnDataI && asi.stack[k].assnDataI <= p.assnDataI + 1 && (asi.stack[k].assnDataI == p.assnDataI + 1 ==> i < asi.stack[k].lastTaken) && (asi.stack[k].assnDataI <= p.assnDataI ==> asi.assnData[asi.stack[k].assnDataI - 1] != asi.stack[k].lastTaken)

func (*assnIter).nextOrderless :: asi -> r
  props C05
  requires c05_dwf(asi)
  modifies asi.stack, elems(asi.stack), elems(asi.assnData), elems(asi.taken)
  ensures [shape] c05_dshape(asi)
  ensures [entries] c05_dentries(asi)
  ensures [free] c05_dfree(asi)
  ensures [pairs] c05_dpairs(asi)
  ensures [taken] c05_dtaken(asi)
  ensures [end] !r ==> !old(c05_dpend(asi)) && len(asi.stack) == 0
  ensures [yields-pending] r && c05_dis(asi) ==> old(c05_dpend(asi))
  ensures [once] r && c05_dis(asi) ==> !c05_dpend(asi)
  ensures [keeps] r && !c05_dis(asi) ==> (c05_dpend(asi) <==> old(c05_dpend(asi)))
  loop 1
    invariant c05_dshape(asi)
    invariant c05_dentries(asi)
    invariant c05_dfree(asi)
    invariant c05_dpairs(asi)
    invariant c05_dtaken(asi)
    invariant arr(asi.stack) == old(arr(asi.stack)) || fresh(arr(asi.stack))
    invariant c05_dpend(asi) <==> old(c05_dpend(asi))
  loop 2 p:assnIterState, i:int, startI:int, willCrossBoundary:bool
    invariant c05_dshape(asi)
    invariant c05_dentries(asi)
    invariant c05_dfree(asi)
    invariant c05_dpairs(asi)
    invariant c05_dtaken(asi)
    invariant arr(asi.stack) == old(arr(asi.stack)) || fresh(arr(asi.stack))
    invariant 0 <= p.assnDataI && p.assnDataI < len(asi.assnData) && p.toFree < 0 && i < len(asi.taken) && c05_lev(asi, len(asi.stack)) == p.assnDataI && (p.assnDataI > 0 ==> asi.assnData[p.assnDataI - 1] == p.lastTaken)
    invariant c05_dbelow(asi, p, i)
    invariant c05_k(len(asi.stack) - 1) ==> (old(c05_dpend(asi)) <==> c05_dpend(asi) || (c05_dq(asi, p) && c05_D(p.assnDataI) <= i))

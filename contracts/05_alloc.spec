# C05: enumeration of slot sizes.
#
# c05_T is an arbitrary tuple of integers (no axiom constrains it): what is
# proved for it is proved for every tuple.
logic c05_T(Int) Int
logic c05_sum(Int,Int) Int
logic c05_k(Int) Bool
smt c05_T c05_T {
(declare-fun c05_T (Int) Int)
}
# sum of the tuple over the slots c..n-1
smt c05_sum c05_sum {
(declare-fun c05_sum (Int Int) Int)
(assert (forall ((c Int) (n Int)) (! (=> (>= c n) (= (c05_sum c n) 0)) :pattern ((c05_sum c n)))))
(assert (forall ((c Int) (n Int)) (! (=> (< c n) (= (c05_sum c n) (+ (c05_T c) (c05_sum (+ c 1) n)))) :pattern ((c05_sum c n) (c05_T c)))))
}
# a sum of non-negative slots is not negative
smt c05_nonneg c05_sum {
(assert (forall ((c Int) (n Int)) (! (=> (forall ((i Int)) (! (=> (and (<= c i) (< i n)) (<= 0 (c05_T i))) :pattern ((c05_T i)))) (<= 0 (c05_sum c n))) :pattern ((c05_sum c n)))))
}
lemma c05_nonneg props C05 {
(declare-const c Int)
(declare-const n Int)
(assert (>= c n))
(assert (< (c05_sum c n) 0))
---
(declare-const c Int)
(declare-const n Int)
(assert (< c n))
(assert (forall ((i Int)) (! (=> (and (<= c i) (< i n)) (<= 0 (c05_T i))) :pattern ((c05_T i)))))
(assert (=> (forall ((i Int)) (! (=> (and (<= (+ c 1) i) (< i n)) (<= 0 (c05_T i))) :pattern ((c05_T i)))) (<= 0 (c05_sum (+ c 1) n))))
(assert (<= 0 (c05_T c)))
(assert (< (c05_sum c n) 0))
}
# always true; marks the indices a quantifier over stack entries is tried with
smt c05_k c05_k {
(declare-fun c05_k (Int) Bool)
(assert (forall ((k Int)) (! (c05_k k) :pattern ((c05_k k)))))
}
package github.com/corywalker/expreduce/expreduce/matcher

define c05_sv(ai, c) = forall i:int :: {c05_T(i)} c <= i && i < len(ai.forms) ==> ai.forms[i].startI <= c05_T(i) && c05_T(i) <= ai.forms[i].endI
define c05_m(ai, s) = (forall i:int :: {c05_T(i)} 0 <= i && i < s.currForm - 1 ==> c05_T(i) == ai.alloc[i]) && (s.currForm > 0 ==> c05_T(s.currForm - 1) == s.currFormI) && c05_sv(ai, s.currForm) && c05_sum(s.currForm, len(ai.forms)) == s.remaining
define c05_pend(ai) = exists k:int :: {c05_k(k)} c05_k(k) && 0 <= k && k < len(ai.stack) && c05_m(ai, ai.stack[k])
define c05_shape(ai) = ai != nil && len(ai.alloc) == len(ai.forms) && (forall i:int :: {ai.forms[i]} 0 <= i && i < len(ai.forms) ==> 0 <= ai.forms[i].startI)
define c05_entries(ai) = forall k:int :: {ai.stack[k]} 0 <= k && k < len(ai.stack) ==> 0 <= ai.stack[k].currForm && ai.stack[k].currForm <= len(ai.forms) && 0 <= ai.stack[k].remaining && ai.stack[k].remaining < 9223372036854775807 && 0 <= ai.stack[k].currFormI && (ai.stack[k].currForm == 0 ==> len(ai.stack) == 1)
define c05_pairs(ai) = forall k:int, l:int :: {ai.stack[k], ai.stack[l]} 0 <= k && k < l && l < len(ai.stack) ==> ai.stack[k].currForm <= ai.stack[l].currForm && (ai.stack[k].currForm == ai.stack[l].currForm ==> ai.stack[k].currFormI != ai.stack[l].currFormI) && (ai.stack[k].currForm < ai.stack[l].currForm ==> ai.alloc[ai.stack[k].currForm - 1] != ai.stack[k].currFormI)
define c05_wf(ai) = c05_shape(ai) && c05_entries(ai) && c05_pairs(ai)
define c05_is(ai) = forall i:int :: {c05_T(i)} 0 <= i && i < len(ai.forms) ==> c05_T(i) == ai.alloc[i]

# while the sizes of slot p.currForm are pushed: b bounds those still to come
define c05_q(ai, p) = (forall i:int :: {c05_T(i)} 0 <= i && i < p.currForm ==> c05_T(i) == ai.alloc[i]) && c05_sv(ai, p.currForm) && c05_sum(p.currForm, len(ai.forms)) == p.remaining
define c05_below(ai, p) = forall k:int :: {ai.stack[k]} 0 <= k && k < len(ai.stack) ==> 1 <= ai.stack[k].currForm && ai.stack[k].currForm <= p.currForm + 1 && (ai.stack[k].currForm <= p.currForm ==> ai.alloc[ai.stack[k].currForm - 1] != ai.stack[k].currFormI)

func newAllocIter :: l, forms -> r
  props C05
  requires 0 <= l && l < 9223372036854775807
  requires forall i:int :: {forms[i]} 0 <= i && i < len(forms) ==> 0 <= forms[i].startI
  ensures [slots] r.forms == forms && len(r.alloc) == len(forms) && fresh(arr(r.alloc)) && fresh(arr(r.stack))
  ensures [pending] c05_k(0) ==> (c05_sv(r, 0) && c05_sum(0, len(forms)) == l <==> c05_pend(r))
  ensures [wf] c05_entries(r) && c05_pairs(r)
  ensures [start] len(r.stack) == 1 && r.stack[0].currForm == 0 && r.stack[0].remaining == l && r.stack[0].currFormI == 0

func (*allocIter).next :: ai -> r
  props C05
  requires c05_wf(ai)
  modifies ai.stack, elems(ai.alloc), elems(ai.stack)
  ensures [wf] c05_wf(ai)
  ensures [forms] ai.forms == old(ai.forms) && ai.alloc == old(ai.alloc)
  ensures [end] !r ==> !old(c05_pend(ai)) && len(ai.stack) == 0
  ensures [yields-pending] r && c05_is(ai) ==> old(c05_pend(ai))
  ensures [once] r && c05_is(ai) ==> !c05_pend(ai)
  ensures [keeps] r && !c05_is(ai) ==> (c05_pend(ai) <==> old(c05_pend(ai)))
  loop 1
    invariant c05_wf(ai)
    invariant ai.forms == old(ai.forms) && ai.alloc == old(ai.alloc) && (arr(ai.stack) == old(arr(ai.stack)) || fresh(arr(ai.stack)))
    invariant c05_k(len(ai.stack) - 1) ==> (c05_pend(ai) <==> old(c05_pend(ai)))
  loop 2 p:allocIterState, i:int
    invariant c05_wf(ai) && c05_below(ai, p)
    invariant ai.forms == old(ai.forms) && ai.alloc == old(ai.alloc) && (arr(ai.stack) == old(arr(ai.stack)) || fresh(arr(ai.stack)))
    invariant 0 <= p.remaining && p.remaining < 9223372036854775807 && 0 <= p.currForm && p.currForm + 1 < len(ai.forms) && ai.forms[p.currForm].startI <= i
    invariant forall k:int :: {ai.stack[k]} 0 <= k && k < len(ai.stack) && ai.stack[k].currForm == p.currForm + 1 ==> ai.stack[k].currFormI < i
    invariant c05_k(len(ai.stack) - 1) ==> (old(c05_pend(ai)) ==> c05_pend(ai) || (c05_q(ai, p) && i <= c05_T(p.currForm)))
    invariant c05_k(len(ai.stack) - 1) ==> (c05_pend(ai) || (c05_q(ai, p) && i <= c05_T(p.currForm)) ==> old(c05_pend(ai)))
  loop 3 p:allocIterState, i:int
    invariant c05_wf(ai) && c05_below(ai, p)
    invariant ai.forms == old(ai.forms) && ai.alloc == old(ai.alloc) && (arr(ai.stack) == old(arr(ai.stack)) || fresh(arr(ai.stack)))
    invariant 0 <= p.remaining && p.remaining < 9223372036854775807 && 0 <= p.currForm && p.currForm + 1 < len(ai.forms)
    invariant forall k:int :: {ai.stack[k]} 0 <= k && k < len(ai.stack) && ai.stack[k].currForm == p.currForm + 1 ==> i < ai.stack[k].currFormI
    invariant c05_k(len(ai.stack) - 1) ==> (old(c05_pend(ai)) ==> c05_pend(ai) || (c05_q(ai, p) && c05_T(p.currForm) <= i))
    invariant c05_k(len(ai.stack) - 1) ==> (c05_pend(ai) || (c05_q(ai, p) && c05_T(p.currForm) <= i) ==> old(c05_pend(ai)))


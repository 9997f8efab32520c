# C12: time accounting.
package github.com/corywalker/expreduce/expreduce/timecounter

define c12_wf(tc) = tc.times != nil && tc.counts != nil
# everything recorded for k after adding (t, n) to what was recorded before
define c12_other_keys(tc, key) = forall k:string :: {tc.times[k]} {has(tc.times, k)} {tc.counts[k]} {has(tc.counts, k)} k != key ==> tc.times[k] == old(tc.times[k]) && tc.counts[k] == old(tc.counts[k]) && (has(tc.times, k) <==> old(has(tc.times, k))) && (has(tc.counts, k) <==> old(has(tc.counts, k)))

func (*timeCounter).init :: tc
  props C12
  requires tc != nil
  modifies tc.times, tc.counts
  opt helper
  ensures tc.times != nil && tc.counts != nil && fresh(tc.times) && fresh(tc.counts)
  ensures [empty] forall k:string :: {has(tc.times, k)} {has(tc.counts, k)} !has(tc.times, k) && !has(tc.counts, k)

func (*timeCounter).addTime :: tc, key, elapsed
  props C12
  requires tc != nil && tc.times != nil && tc.counts != nil
  requires get(tc.counts, key) < 9223372036854775807
  modifies map(tc.times), map(tc.counts)
  opt helper noalloc
  ensures [total] has(tc.times, key) && get(tc.times, key) == old(get(tc.times, key)) + elapsed
  ensures [count] has(tc.counts, key) && get(tc.counts, key) == old(get(tc.counts, key)) + 1
  ensures [others] c12_other_keys(tc, key)

func (*timeCounter).update :: tc, other
  props C12
  requires tc != nil && other != nil && tc.times != nil && tc.counts != nil
  requires tc.times != other.times && tc.counts != other.counts
  requires forall k:string :: {other.counts[k]} {tc.counts[k]} get(tc.counts, k) + get(other.counts, k) <= 9223372036854775807 && 0 <= get(other.counts, k) && 0 <= get(tc.counts, k)
  modifies map(tc.times), map(tc.counts)
  opt helper noalloc
  ensures [totals] forall k:string :: {tc.times[k]} get(tc.times, k) == ite(has(other.times, k), old(get(tc.times, k)) + get(other.times, k), old(get(tc.times, k)))
  ensures [counts] forall k:string :: {tc.counts[k]} get(tc.counts, k) == ite(has(other.times, k), old(get(tc.counts, k)) + get(other.counts, k), old(get(tc.counts, k)))
  ensures [names] forall k:string :: {has(tc.times, k)} has(tc.times, k) <==> old(has(tc.times, k)) || has(other.times, k)
  ensures [names-counted] forall k:string :: {has(tc.counts, k)} has(tc.counts, k) <==> old(has(tc.counts, k)) || has(other.times, k)
  loop 1
    invariant forall k:string :: {visited(k)} visited(k) ==> has(other.times, k)
    invariant forall k:string :: {tc.times[k]} get(tc.times, k) == ite(visited(k), old(get(tc.times, k)) + get(other.times, k), old(get(tc.times, k)))
    invariant forall k:string :: {tc.counts[k]} get(tc.counts, k) == ite(visited(k), old(get(tc.counts, k)) + get(other.counts, k), old(get(tc.counts, k)))
    invariant forall k:string :: {has(tc.times, k)} has(tc.times, k) <==> old(has(tc.times, k)) || visited(k)
    invariant forall k:string :: {has(tc.counts, k)} has(tc.counts, k) <==> old(has(tc.counts, k)) || visited(k)

# the four accountings of a group, selected by number 1..4
define c12_g(tcg, c) = ite(c == 1, tcg.defTimeCounter, ite(c == 2, tcg.lhsDefTimeCounter, ite(c == 3, tcg.evalTimeCounter, tcg.headEvalTimeCounter)))
define c12_same(a) = forall k:string :: {a.times[k]} {has(a.times, k)} {a.counts[k]} {has(a.counts, k)} a.times[k] == old(a.times[k]) && a.counts[k] == old(a.counts[k]) && (has(a.times, k) <==> old(has(a.times, k))) && (has(a.counts, k) <==> old(has(a.counts, k)))

func (*Group).AddTime :: tcg, c, key, elapsed
  props C12
  requires tcg != nil
  requires c12_wf(tcg.defTimeCounter) && c12_wf(tcg.lhsDefTimeCounter) && c12_wf(tcg.evalTimeCounter) && c12_wf(tcg.headEvalTimeCounter)
  requires get(c12_g(tcg, c).counts, key) < 9223372036854775807
  modifies map(c12_g(tcg, c).times), map(c12_g(tcg, c).counts)
  opt inline:(*timeCounter).addTime
  ensures [total] 1 <= c <= 4 ==> has(c12_g(tcg, c).times, key) && get(c12_g(tcg, c).times, key) == old(get(c12_g(tcg, c).times, key)) + elapsed
  ensures [count] 1 <= c <= 4 ==> has(c12_g(tcg, c).counts, key) && get(c12_g(tcg, c).counts, key) == old(get(c12_g(tcg, c).counts, key)) + 1
  ensures [others] 1 <= c <= 4 ==> c12_other_keys(c12_g(tcg, c), key)

func (*Group).Init :: tcg
  props C12
  requires tcg != nil
  modifies tcg.defTimeCounter, tcg.lhsDefTimeCounter, tcg.evalTimeCounter, tcg.headEvalTimeCounter
  ensures [ready] c12_wf(tcg.defTimeCounter) && c12_wf(tcg.lhsDefTimeCounter) && c12_wf(tcg.evalTimeCounter) && c12_wf(tcg.headEvalTimeCounter)
  ensures [distinct] forall c:int, d:int :: 1 <= c && c < d && d <= 4 ==> c12_g(tcg, c).times != c12_g(tcg, d).times && c12_g(tcg, c).counts != c12_g(tcg, d).counts
  ensures [empty] forall c:int, k:string :: {has(c12_g(tcg, c).times, k)} {has(c12_g(tcg, c).counts, k)} 1 <= c && c <= 4 ==> !has(c12_g(tcg, c).times, k) && !has(c12_g(tcg, c).counts, k)

# merging: the eight maps involved are pairwise different where it matters
define c12_sep(a, b) = a.times != b.times && a.counts != b.counts
define c12_room(a, b) = forall k:string :: {b.counts[k]} {a.counts[k]} get(a.counts, k) + get(b.counts, k) <= 9223372036854775807 && 0 <= get(b.counts, k) && 0 <= get(a.counts, k)
define c12_merged(a, b) = forall k:string :: {a.times[k]} {a.counts[k]} {has(a.times, k)} get(a.times, k) == ite(old(has(b.times, k)), old(get(a.times, k)) + old(get(b.times, k)), old(get(a.times, k))) && get(a.counts, k) == ite(old(has(b.times, k)), old(get(a.counts, k)) + old(get(b.counts, k)), old(get(a.counts, k))) && (has(a.times, k) <==> old(has(a.times, k)) || old(has(b.times, k)))

func (*Group).Update :: tcg, other
  props C12
  requires tcg != nil && other != nil && tcg != other
  requires c12_wf(tcg.defTimeCounter) && c12_wf(tcg.lhsDefTimeCounter) && c12_wf(tcg.evalTimeCounter) && c12_wf(tcg.headEvalTimeCounter) && c12_wf(other.defTimeCounter) && c12_wf(other.lhsDefTimeCounter) && c12_wf(other.evalTimeCounter) && c12_wf(other.headEvalTimeCounter)
  requires c12_sep(tcg.defTimeCounter, other.defTimeCounter) && c12_sep(tcg.defTimeCounter, other.lhsDefTimeCounter) && c12_sep(tcg.defTimeCounter, other.evalTimeCounter) && c12_sep(tcg.defTimeCounter, other.headEvalTimeCounter) && c12_sep(tcg.lhsDefTimeCounter, other.defTimeCounter) && c12_sep(tcg.lhsDefTimeCounter, other.lhsDefTimeCounter) && c12_sep(tcg.lhsDefTimeCounter, other.evalTimeCounter) && c12_sep(tcg.lhsDefTimeCounter, other.headEvalTimeCounter) && c12_sep(tcg.evalTimeCounter, other.defTimeCounter) && c12_sep(tcg.evalTimeCounter, other.lhsDefTimeCounter) && c12_sep(tcg.evalTimeCounter, other.evalTimeCounter) && c12_sep(tcg.evalTimeCounter, other.headEvalTimeCounter) && c12_sep(tcg.headEvalTimeCounter, other.defTimeCounter) && c12_sep(tcg.headEvalTimeCounter, other.lhsDefTimeCounter) && c12_sep(tcg.headEvalTimeCounter, other.evalTimeCounter) && c12_sep(tcg.headEvalTimeCounter, other.headEvalTimeCounter)
  requires c12_sep(tcg.defTimeCounter, tcg.lhsDefTimeCounter) && c12_sep(tcg.defTimeCounter, tcg.evalTimeCounter) && c12_sep(tcg.defTimeCounter, tcg.headEvalTimeCounter) && c12_sep(tcg.lhsDefTimeCounter, tcg.evalTimeCounter) && c12_sep(tcg.lhsDefTimeCounter, tcg.headEvalTimeCounter) && c12_sep(tcg.evalTimeCounter, tcg.headEvalTimeCounter)
  requires c12_room(tcg.defTimeCounter, other.defTimeCounter) && c12_room(tcg.lhsDefTimeCounter, other.lhsDefTimeCounter) && c12_room(tcg.evalTimeCounter, other.evalTimeCounter) && c12_room(tcg.headEvalTimeCounter, other.headEvalTimeCounter)
  modifies map(tcg.defTimeCounter.times), map(tcg.defTimeCounter.counts), map(tcg.lhsDefTimeCounter.times), map(tcg.lhsDefTimeCounter.counts), map(tcg.evalTimeCounter.times), map(tcg.evalTimeCounter.counts), map(tcg.headEvalTimeCounter.times), map(tcg.headEvalTimeCounter.counts)
  ensures [def] c12_merged(tcg.defTimeCounter, other.defTimeCounter)
  ensures [lhsdef] c12_merged(tcg.lhsDefTimeCounter, other.lhsDefTimeCounter)
  ensures [eval] c12_merged(tcg.evalTimeCounter, other.evalTimeCounter)
  ensures [headeval] c12_merged(tcg.headEvalTimeCounter, other.headEvalTimeCounter)

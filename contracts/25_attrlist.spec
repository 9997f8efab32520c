# C10: the list Attributes[s] shows, and reading it back.
smt c10_prefix hasprefix c10_q {
(assert (forall ((p Str) (s Str)) (! (and (hasprefix (scat p s) p) (= (ssub (scat p s) (slen p) (slen (scat p s))) s)) :pattern ((scat p s)))))
}
package github.com/corywalker/expreduce/expreduce/atoms
define c10_pt(x,i) = at(x.Parts, off(x.Parts) + i)
func AttrsToSymList :: a -> r
  props C10
  requires a != nil
  ensures [wf] wf(r)
  ensures [list] is(r, *Expression) && fresh(r) && tlen(tseq(r)) >= 1 && tat(tseq(r), 0) == TY("System`List")
  ensures [symbols] forall i:int :: {tat(tseq(r), i)} 1 <= i && i < tlen(tseq(r)) ==> c10_q(tseq(r), i)
  ensures [Orderless] c10_at(tseq(r), tlen(tseq(r)), "Orderless") <==> a.Orderless
  ensures [Flat] c10_at(tseq(r), tlen(tseq(r)), "Flat") <==> a.Flat
  ensures [OneIdentity] c10_at(tseq(r), tlen(tseq(r)), "OneIdentity") <==> a.OneIdentity
  ensures [Listable] c10_at(tseq(r), tlen(tseq(r)), "Listable") <==> a.Listable
  ensures [Constant] c10_at(tseq(r), tlen(tseq(r)), "Constant") <==> a.Constant
  ensures [NumericFunction] c10_at(tseq(r), tlen(tseq(r)), "NumericFunction") <==> a.NumericFunction
  ensures [Protected] c10_at(tseq(r), tlen(tseq(r)), "Protected") <==> a.Protected
  ensures [Locked] c10_at(tseq(r), tlen(tseq(r)), "Locked") <==> a.Locked
  ensures [ReadProtected] c10_at(tseq(r), tlen(tseq(r)), "ReadProtected") <==> a.ReadProtected
  ensures [HoldFirst] c10_at(tseq(r), tlen(tseq(r)), "HoldFirst") <==> a.HoldFirst
  ensures [HoldRest] c10_at(tseq(r), tlen(tseq(r)), "HoldRest") <==> a.HoldRest
  ensures [HoldAll] c10_at(tseq(r), tlen(tseq(r)), "HoldAll") <==> a.HoldAll
  ensures [HoldAllComplete] c10_at(tseq(r), tlen(tseq(r)), "HoldAllComplete") <==> a.HoldAllComplete
  ensures [NHoldFirst] c10_at(tseq(r), tlen(tseq(r)), "NHoldFirst") <==> a.NHoldFirst
  ensures [NHoldRest] c10_at(tseq(r), tlen(tseq(r)), "NHoldRest") <==> a.NHoldRest
  ensures [NHoldAll] c10_at(tseq(r), tlen(tseq(r)), "NHoldAll") <==> a.NHoldAll
  ensures [SequenceHold] c10_at(tseq(r), tlen(tseq(r)), "SequenceHold") <==> a.SequenceHold
  ensures [Temporary] c10_at(tseq(r), tlen(tseq(r)), "Temporary") <==> a.Temporary
  ensures [Stub] c10_at(tseq(r), tlen(tseq(r)), "Stub") <==> a.Stub
  loop 1 toReturn:*Expression
    invariant len(toReturn.Parts) == $k + 1 && fresh(toReturn) && fresh(arr(toReturn.Parts)) && is(c10_pt(toReturn, 0), *Symbol) && c10_pt(toReturn, 0).(*Symbol).Name == "System`List"
    invariant [parts] forall i:int :: {at($r, i)} off($r) <= i && i < off($r) + $k ==> is(at(toReturn.Parts, off(toReturn.Parts) + 1 + i - off($r)), *Symbol) && at(toReturn.Parts, off(toReturn.Parts) + 1 + i - off($r)).(*Symbol).Name == scat("System`", at($r, i))
    invariant [each] forall j:int :: {at(toReturn.Parts, j)} off(toReturn.Parts) <= j && j <= off(toReturn.Parts) + $k ==> is(at(toReturn.Parts, j), *Symbol) && allocated(at(toReturn.Parts, j)) && (j > off(toReturn.Parts) ==> at(toReturn.Parts, j).(*Symbol).Name == scat("System`", at($r, off($r) + j - off(toReturn.Parts) - 1)))
# what the evaluator asks for: the recorded attributes and default of a symbol
func (*Symbol).Attrs :: sym, dm -> r
  props C10 C06
  requires sym != nil && dm != nil
  pure
  ensures [recorded] d_has(dm.$d, sym.Name) ==> r == d_d(dm.$d, sym.Name).Attributes
  ensures [none] !d_has(dm.$d, sym.Name) ==> !r.Orderless && !r.Flat && !r.OneIdentity && !r.Listable && !r.Protected && !r.HoldFirst && !r.HoldRest && !r.HoldAll && !r.HoldAllComplete && !r.SequenceHold && !r.NumericFunction
func (*Symbol).Default :: sym, dm -> r
  props C10 C06
  requires sym != nil && dm != nil
  pure
  ensures [recorded] d_has(dm.$d, sym.Name) ==> r == d_d(dm.$d, sym.Name).DefaultExpr
  ensures [none] !d_has(dm.$d, sym.Name) ==> r == nil

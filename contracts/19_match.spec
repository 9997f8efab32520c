# C06: blanks, their capture, sequence slots.  c06_hd: a compound with the given symbol as head.
package github.com/corywalker/expreduce/expreduce/atoms
logic c06_hd(Tree,Str) Bool
logic c06_part(Tree,Int) Tree
logic c06_len(Tree) Int
logic c06_bl(Tree) Bool
logic c06_pb(Tree) Bool
smt c06_hd c06_hd c06_part c06_len c06_bl c06_pb {
(define-fun c06_hd ((t Tree) (s Str)) Bool (and (= (tkind t) 7) (= (tat (tesq t) 0) (TY s))))
(define-fun c06_part ((t Tree) (i Int)) Tree (tat (tesq t) i))
(define-fun c06_len ((t Tree)) Int (tlen (tesq t)))
(define-fun c06_bl ((t Tree)) Bool (or (c06_hd t @str("System`Blank")) (c06_hd t @str("System`BlankSequence")) (c06_hd t @str("System`BlankNullSequence"))))
(define-fun c06_pb ((t Tree)) Bool (and (c06_hd t @str("System`Pattern")) (<= 3 (c06_len t)) (c06_bl (c06_part t 2))))
}
func HeadAssertion :: ex, head -> r, ok
  props C06
  requires wf(ex)
  pure
  ensures [head] ok <==> c06_hd(tv(ex), head)
  ensures [same] ok ==> r == ex && is(ex, *Expression)
  ensures !ok ==> r == nil

package github.com/corywalker/expreduce/expreduce/matcher
func isBlankTypeOnly :: e -> r
  props C06
  requires wf(e)
  pure
  opt typednil
  ensures [blank] r <==> c06_pb(tv(e)) || c06_bl(tv(e))

define c06_b(t) = ite(c06_hd(t, "System`Pattern") && c06_len(t) >= 3, c06_part(t, 2), t)
define c06_x(e) = c06_hd(tv(e), "System`Pattern") && c06_len(tv(e)) >= 3 && tkind(c06_part(tv(e), 1)) == 5
define c06_n(e) = tstr(c06_part(tv(e), 1))
define c06_hdok(e,head) = c06_len(c06_b(tv(e))) < 2 || c02_h(tv(head)) == c02_h(c06_part(c06_b(tv(e)), 1))
# e is a blank or a named blank: it matches target exactly when target's head is
# the requested one and the name is free or already stands for the same value
func isBlankTypeCapturing :: e, target, head, pm, cl -> ok, rpm
  props C06
  requires wf(e) && wf(target) && wf(head) && pm != nil && cl != nil && hc(e) && hc(target) && hc(head) && !is(head, *atoms.Flt)
  requires forall k:string :: {pd_get(pm, k)} pd_has(pm, k) ==> wf(pd_get(pm, k)) && hc(pd_get(pm, k))
  modifies pm.patternDefined, map(pm.patternDefined), any("F:atoms.Integer.cachedHash"), any("F:atoms.Symbol.cachedHash"), any("F:atoms.Expression.CachedHash")
  opt typednil
  ensures [bindings] rpm == pm
  ensures [only-blanks] ok ==> c06_pb(old(tv(e))) || c06_bl(old(tv(e)))
  ensures [head] ok ==> old(c06_hdok(e, head))
  ensures [named] ok && old(c06_x(e)) ==> pd_has(pm, old(c06_n(e)))
  ensures [bound] ok && old(c06_x(e)) && !old(pd_has(pm, c06_n(e))) ==> pd_get(pm, old(c06_n(e))) == target
  ensures [same-value] ok && old(c06_x(e)) && old(pd_has(pm, c06_n(e))) && !is(target, *atoms.Flt) ==> old(c02_h(tv(pd_get(pm, c06_n(e)))) == c02_h(tv(target)))
  ensures [kept] forall k:string :: {pd_get(pm, k)} old(pd_has(pm, k)) ==> pd_has(pm, k) && pd_get(pm, k) == old(pd_get(pm, k))
  ensures [nothing-else] forall k:string :: {pd_has(pm, k)} pd_has(pm, k) ==> old(pd_has(pm, k)) || ok && old(c06_x(e)) && k == old(c06_n(e))
  ensures [matches-free] old((c06_pb(tv(e)) || c06_bl(tv(e))) && c06_hdok(e, head)) && !(old(c06_x(e)) && old(pd_has(pm, c06_n(e)))) ==> ok
  ensures [matches-same] old((c06_pb(tv(e)) || c06_bl(tv(e))) && c06_hdok(e, head)) && old(c06_x(e)) && old(pd_has(pm, c06_n(e))) && old(tv(pd_get(pm, c06_n(e))) == tv(target)) ==> ok

# read-only look-ups (assumed)
package github.com/corywalker/expreduce/pkg/expreduceapi
extern EvalStateInterface.GetDefinedMap :: this -> r
  pure
  ensures r != nil
extern EvalStateInterface.GetLogger :: this -> r
  pure
extern EvalStateInterface.IsFrozen :: this -> r
  pure

package github.com/corywalker/expreduce/expreduce/atoms

package github.com/corywalker/expreduce/expreduce/matcher
define sq_el(s,i) = s[i]
define sq_real(s) = len(s) == 1 && is(s[0], *atoms.Flt)
# 
# the value is head[elements], for the head a sequence of the slot has
define sq_wrap(x,h,s) = is(x, *atoms.Expression) && wf(x) && len(x.(*atoms.Expression).Parts) == len(s) + 1 && is(at(x.(*atoms.Expression).Parts, off(x.(*atoms.Expression).Parts)), *atoms.Symbol) && at(x.(*atoms.Expression).Parts, off(x.(*atoms.Expression).Parts)).(*atoms.Symbol).Name == h && (forall i:int :: {at(x.(*atoms.Expression).Parts, i)} off(x.(*atoms.Expression).Parts) < i && i <= off(x.(*atoms.Expression).Parts) + len(s) ==> at(x.(*atoms.Expression).Parts, i) == at(s, off(s) + (i - off(x.(*atoms.Expression).Parts) - 1)))
func defineSequence :: lhs, sequence, pm, sequenceHead, es -> ok
  props C06
  requires pm != nil && es != nil && (lhs.hasPat ==> lhs.patSym != nil)
  requires forall i:int :: {at(sequence, i)} off(sequence) <= i && i < off(sequence) + len(sequence) ==> wf(at(sequence, i)) && hc(at(sequence, i))
  requires lhs.defaultExpr != nil ==> wf(lhs.defaultExpr) && hc(lhs.defaultExpr)
  requires forall k:string :: {pd_get(pm, k)} pd_has(pm, k) ==> wf(pd_get(pm, k)) && hc(pd_get(pm, k))
  modifies pm.patternDefined, map(pm.patternDefined), any("F:atoms.Integer.cachedHash"), any("F:atoms.Symbol.cachedHash"), any("F:atoms.Expression.CachedHash")
  ensures [no-name] !lhs.hasPat ==> ok
  ensures [named] ok && lhs.hasPat ==> pd_has(pm, lhs.patSym.Name)
  ensures [one] ok && lhs.hasPat && len(sequence) == 1 && (lhs.isBlank || lhs.isOptional) ==> pd_get(pm, lhs.patSym.Name) == sequence[0]
  ensures [default] ok && lhs.hasPat && len(sequence) == 0 && lhs.isOptional && lhs.defaultExpr != nil ==> pd_get(pm, lhs.patSym.Name) == lhs.defaultExpr
  ensures [flat] ok && lhs.hasPat && lhs.isImpliedBs && len(sequence) != 1 && !(len(sequence) == 0 && lhs.isOptional) ==> sq_wrap(pd_get(pm, lhs.patSym.Name), sequenceHead, sequence)
  ensures [sequence] ok && lhs.hasPat && !lhs.isImpliedBs && len(sequence) != 1 && !(len(sequence) == 0 && lhs.isOptional && lhs.defaultExpr != nil) ==> sq_wrap(pd_get(pm, lhs.patSym.Name), "System`Sequence", sequence)
  ensures [one-of] ok && lhs.hasPat && len(sequence) == 1 ==> pd_get(pm, lhs.patSym.Name) == sequence[0] || sq_wrap(pd_get(pm, lhs.patSym.Name), sequenceHead, sequence) || sq_wrap(pd_get(pm, lhs.patSym.Name), "System`Sequence", sequence)
  ensures [same-value] ok && lhs.hasPat && old(pd_has(pm, lhs.patSym.Name)) && !old(is(pd_get(pm, lhs.patSym.Name), *atoms.Flt)) ==> old(c02_h(tv(pd_get(pm, lhs.patSym.Name)))) == c02_h(tv(pd_get(pm, lhs.patSym.Name)))
  ensures [others] forall k:string :: {pd_get(pm, k)} {pd_has(pm, k)} !(ok && lhs.hasPat && k == lhs.patSym.Name) ==> (pd_has(pm, k) <==> old(pd_has(pm, k))) && (pd_has(pm, k) ==> pd_get(pm, k) == old(pd_get(pm, k)))
  ensures [free] lhs.hasPat && !old(pd_has(pm, lhs.patSym.Name)) ==> ok

# the blank that a sequence of blanks repeats: same head, if any
define c06_blank_of(r, b) = wf(r) && is(r, *atoms.Expression) && c06_hd(tv(r), "System`Blank") && c06_len(tv(r)) == ite(c06_len(old(tv(b))) < 2, 1, 2) && (c06_len(old(tv(b))) >= 2 ==> c06_part(tv(r), 1) == c06_part(old(tv(b)), 1))
func blankSequenceToBlank :: bs -> r
  props C06
  requires wf(bs) && is(bs, *atoms.Expression)
  pure
  ensures [blank] c06_blank_of(r, bs)
func blankNullSequenceToBlank :: bns -> r
  props C06
  requires wf(bns) && is(bns, *atoms.Expression)
  pure
  ensures [blank] c06_blank_of(r, bns)

func parseRepeated :: e -> form, lo, hi, ok
  props C06
  requires wf(e) && is(e, *atoms.Expression)
  pure
  ensures [ok] ok <==> (c06_len(tv(e)) == 2 || c06_len(tv(e)) >= 3 && c06_hd(c06_part(tv(e), 2), "System`List") && c06_len(c06_part(tv(e), 2)) == 2 && tkind(c06_part(c06_part(tv(e), 2), 1)) == 1)
  ensures [form] ok ==> wf(form) && tv(form) == c06_part(tv(e), 1)
  ensures [any] ok && c06_len(tv(e)) == 2 ==> lo == 0 - 1 && hi == 0 - 1
  ensures [count] ok && c06_len(tv(e)) >= 3 && targ(c06_part(c06_part(tv(e), 2), 1)) >= 0 && targ(c06_part(c06_part(tv(e), 2), 1)) < 1000000000 ==> lo == targ(c06_part(c06_part(tv(e), 2), 1)) && hi == lo

# what a slot of a pattern demands: layers Optional, PatternTest, name, then the form
define c06_opt(t) = c06_hd(t, "System`Optional") && c06_len(t) >= 2
define c06_tst(t) = c06_hd(c06_o(t), "System`PatternTest") && c06_len(c06_o(t)) >= 3
define c06_o(t) = ite(c06_opt(t), c06_part(t, 1), t)
define c06_t(t) = ite(c06_tst(t), c06_part(c06_o(t), 1), c06_o(t))
define c06_nm(t) = c06_hd(c06_t(t), "System`Pattern") && c06_len(c06_t(t)) >= 3 && tkind(c06_part(c06_t(t), 1)) == 5
define c06_u(t) = ite(c06_nm(t), c06_part(c06_t(t), 2), c06_t(t))
define c06_plain(t) = !c06_bl(t) && !c06_hd(t, "System`Repeated") && !c06_hd(t, "System`RepeatedNull")
define c06_inner(r,x) = ite(c06_tst(old(tv(x))), c06_part(tv(r.form), 1), tv(r.form))
func parseForm :: x, isFlat, sequenceHead, headDefault, cl -> r
  props C06
  requires wf(x) && (headDefault != nil ==> wf(headDefault))
  pure
  ensures [same] r.origForm == x && wf(r.form)
  ensures [name] r.hasPat <==> old(c06_nm(tv(x)))
  ensures [name-is] r.hasPat ==> r.patSym != nil && r.patSym.Name == old(tstr(c06_part(c06_t(tv(x)), 1)))
  ensures [optional] r.isOptional <==> old(c06_opt(tv(x)))
  ensures [implied] r.isImpliedBs <==> isFlat && old(c06_hd(c06_u(tv(x)), "System`Blank"))
  ensures [is-blank] r.isBlank <==> !isFlat && old(c06_hd(c06_u(tv(x)), "System`Blank"))
  ensures [exactly-one] !old(c06_opt(tv(x))) && old(c06_plain(c06_u(tv(x)))) ==> r.startI == 1 && r.endI == 1 && c06_inner(r,x) == old(c06_u(tv(x)))
  ensures [blank] !isFlat && !old(c06_opt(tv(x))) && old(c06_hd(c06_u(tv(x)), "System`Blank")) ==> r.startI == 1 && r.endI == 1 && c06_inner(r,x) == old(c06_u(tv(x)))
  ensures [one-or-more] !old(c06_opt(tv(x))) && old(c06_hd(c06_u(tv(x)), "System`BlankSequence")) ==> r.startI == 1 && r.endI == 9223372036854775807
  ensures [any-number] !old(c06_opt(tv(x))) && old(c06_hd(c06_u(tv(x)), "System`BlankNullSequence")) ==> r.startI == 0 && r.endI == 9223372036854775807
  ensures [sequence-form] !old(c06_opt(tv(x))) && old(c06_hd(c06_u(tv(x)), "System`BlankSequence") || c06_hd(c06_u(tv(x)), "System`BlankNullSequence")) ==> c06_hd(c06_inner(r,x), "System`Blank") && c06_len(c06_inner(r,x)) == ite(old(c06_len(c06_u(tv(x)))) < 2, 1, 2) && (old(c06_len(c06_u(tv(x)))) >= 2 ==> c06_part(c06_inner(r,x), 1) == old(c06_part(c06_u(tv(x)), 1)))
  ensures [repeated] !old(c06_opt(tv(x))) && old(c06_hd(c06_u(tv(x)), "System`Repeated")) && old(c06_len(c06_u(tv(x)))) == 2 ==> r.startI == 1 && r.endI == 9223372036854775807 && c06_inner(r,x) == old(c06_part(c06_u(tv(x)), 1))
  ensures [repeated-null] !old(c06_opt(tv(x))) && old(c06_hd(c06_u(tv(x)), "System`RepeatedNull")) && old(c06_len(c06_u(tv(x)))) == 2 ==> r.startI == 0 && r.endI == 9223372036854775807 && c06_inner(r,x) == old(c06_part(c06_u(tv(x)), 1))
  ensures [flat-any] isFlat && !old(c06_opt(tv(x))) && old(c06_hd(c06_u(tv(x)), "System`Blank")) && old(c06_len(c06_u(tv(x)))) < 2 ==> r.startI == 1 && r.endI == 9223372036854775807 && c06_inner(r,x) == old(c06_u(tv(x)))
  ensures [flat-head] isFlat && !old(c06_opt(tv(x))) && old(c06_hd(c06_u(tv(x)), "System`Blank")) && old(c06_len(c06_u(tv(x)))) >= 2 && old(c06_part(c06_u(tv(x)), 1) != TY(sequenceHead)) ==> r.startI == 1 && r.endI == 1 && c06_inner(r,x) == old(c06_u(tv(x)))
  ensures [flat-own] isFlat && !old(c06_opt(tv(x))) && old(c06_hd(c06_u(tv(x)), "System`Blank")) && old(c06_len(c06_u(tv(x)))) >= 2 && old(c06_part(c06_u(tv(x)), 1) == TY(sequenceHead)) ==> r.startI == 2 && r.endI == 9223372036854775807
  ensures [test] old(c06_tst(tv(x))) ==> tkind(tv(r.form)) == 7 && c06_len(tv(r.form)) == 3 && c06_part(tv(r.form), 0) == TY("System`PatternTest") && c06_part(tv(r.form), 2) == old(c06_part(c06_o(tv(x)), 2))

# C15: the definition store.  A definition map is a map from names to
# definitions: d_has, d_dv (the rules), d_at (the attributes), d_df (the rest).
package github.com/corywalker/expreduce/pkg/expreduceapi
logic d_has(DS,Str) Bool
logic d_def(DS,Str) |St:expreduceapi.Def|
logic d_put(DS,Str,|St:expreduceapi.Def|) DS
smt c15_map d_has d_def d_put {
(declare-fun d_has (DS Str) Bool)
(declare-fun d_def (DS Str) |St:expreduceapi.Def|)
(declare-fun d_put (DS Str |St:expreduceapi.Def|) DS)
(assert (forall ((d DS) (n Str) (v |St:expreduceapi.Def|) (m Str)) (! (= (d_has (d_put d n v) m) (or (= m n) (d_has d m))) :pattern ((d_has (d_put d n v) m)))))
(assert (forall ((d DS) (n Str) (v |St:expreduceapi.Def|) (m Str)) (! (= (d_def (d_put d n v) m) (ite (= m n) v (d_def d m))) :pattern ((d_def (d_put d n v) m)))))
}
define d_d(d,n) = d_def(d, n).(expreduceapi.Def)
extern DefinitionMap.Set :: this, key, value
  modifies this.$d
  ensures this.$d == d_put(old(this.$d), key, value)
extern DefinitionMap.Get :: this, key -> r, ok
  pure
  ensures ok <==> d_has(this.$d, key)
  ensures ok ==> r == d_d(this.$d, key)
extern DefinitionMap.GetDef :: this, key -> r
  requires d_has(this.$d, key)
  pure
  ensures r == d_d(this.$d, key)
extern DefinitionMap.LockKey :: this, key
  pure
extern DefinitionMap.UnlockKey :: this, key
  pure

package github.com/corywalker/expreduce/expreduce
define es_d(es) = es.defined.$d
func (*EvalState).GetDefinedMap :: es -> r
  props C15
  pure
  ensures r == es.defined
func (*EvalState).IsDef :: es, name -> r
  props C15
  requires es.defined != nil
  pure
  ensures r <==> d_has(es_d(es), name)
func (*EvalState).GetDefined :: es, name -> r, ok
  props C15
  requires es.defined != nil
  pure
  ensures ok <==> d_has(es_d(es), name)
  ensures ok ==> r == d_d(es_d(es), name)
func (*EvalState).SetDefined :: es, name, def
  props C15
  requires es.defined != nil
  modifies es.defined.$d
  ensures es_d(es) == d_put(old(es_d(es)), name, def)
func (*EvalState).MarkSeen :: es, name
  props C15
  requires es.defined != nil
  modifies es.defined.$d
  ensures [known] d_has(es_d(es), name)
  ensures [kept] old(d_has(es_d(es), name)) ==> es_d(es) == old(es_d(es))
  ensures [empty] !old(d_has(es_d(es), name)) ==> len(d_d(es_d(es), name).Downvalues) == 0
  ensures [others] forall m:string :: {d_has(es_d(es), m)} {d_def(es_d(es), m)} m != name ==> d_has(es_d(es), m) == old(d_has(es_d(es), m)) && d_d(es_d(es), m) == old(d_d(es_d(es), m))
func (*EvalState).Clear :: es, name
  props C15
  requires es.defined != nil
  modifies es.defined.$d
  ensures [cleared] d_has(es_d(es), name) ==> len(d_d(es_d(es), name).Downvalues) == 0
  ensures [known] forall m:string :: {d_has(es_d(es), m)} d_has(es_d(es), m) <==> old(d_has(es_d(es), m))
  ensures [others] forall m:string :: {d_def(es_d(es), m)} m != name ==> d_d(es_d(es), m) == old(d_d(es_d(es), m))

# no effect on the store (assumed): logging, printing
package log
extern Fatalf :: f, v
  ensures false
package github.com/corywalker/expreduce/expreduce/logging
extern (*CASLogger).Debugf :: this, f, a
  pure

package github.com/corywalker/expreduce/expreduce/atoms
func OperatorAssertion :: ex, head -> r, h, ok
  props C15
  requires wf(ex)
  pure
  ensures [head] ok <==> tkind(tv(ex)) == 7 && c06_hd(c06_part(tv(ex), 0), head)
  ensures [same] ok ==> r == ex && is(ex, *Expression) && h == at(r.Parts, off(r.Parts)) && is(at(r.Parts, off(r.Parts)), *Expression)

package github.com/corywalker/expreduce/expreduce
# c15_mask: what is left of a right side when two rules with the same left side are told apart
logic c15_hq(Tree) TSeq
logic c15_mask(Tree) Tree
logic c15_spec(Tree,Tree,Str) Int
smt c15_hq c15_hq {
(declare-fun c15_hq (Tree) TSeq)
(assert (forall ((t Tree)) (! (and (= (tlen (c15_hq t)) 2) (= (tat (c15_hq t) 0) (TY @str("System`HoldPattern"))) (= (tat (c15_hq t) 1) t)) :pattern ((c15_hq t)))))
}
logic c15_q3(Tree,Tree,Tree) TSeq
logic c15_len(Tree,Str) Int
smt c15_q3 c15_q3 {
(declare-fun c15_q3 (Tree Tree Tree) TSeq)
(assert (forall ((a Tree) (b Tree) (c Tree)) (! (and (= (tlen (c15_q3 a b c)) 3) (= (tat (c15_q3 a b c) 0) a) (= (tat (c15_q3 a b c) 1) b) (= (tat (c15_q3 a b c) 2) c)) :pattern ((c15_q3 a b c)))))
}
logic c15_mk(Tree) Bool
smt c15_mask c15_mask {
(declare-fun c15_mask (Tree) Tree)
}
# what the mask is: only tests are kept, whatever they stand in
smt c15_mk c15_mk {
(declare-fun c15_mk (Tree) Bool)
(define-fun c15_mC ((t Tree)) Bool (and (c06_hd t @str("System`Condition")) (> (c06_len t) 2)))
(define-fun c15_mW ((t Tree) (h Str)) Bool (and (c06_hd t h) (= (c06_len t) 3) (c06_hd (c06_part t 2) @str("System`Condition"))))
(assert (forall ((t Tree)) (! (and (c15_mk t)
  (=> (c15_mC t) (= (c15_mask t) (TE (c15_q3 (TY @str("System`Condition")) (c15_mask (c06_part t 1)) (c06_part t 2)))))
  (=> (c15_mW t @str("System`With")) (= (c15_mask t) (TE (c15_q3 (TY @str("System`With")) (c06_part t 1) (c15_mask (c06_part t 2))))))
  (=> (c15_mW t @str("System`Module")) (= (c15_mask t) (TE (c15_q3 (TY @str("System`Module")) (c06_part t 1) (c15_mask (c06_part t 2))))))
  (=> (not (or (c15_mC t) (c15_mW t @str("System`With")) (c15_mW t @str("System`Module")))) (= (c15_mask t) (TY @str("System`ExpreduceNonConditional"))))) :pattern ((c15_mk t)))))
}
smt c15_len c15_len c15_spec {
(declare-fun c15_len (Tree Str) Int)
}
smt c15_spec c15_spec {
(define-fun c15_spec ((l Tree) (r Tree) (n Str)) Int
  (ite (= n @str("Rubi`Int")) 100
  (ite (and (= (tkind (c06_part l 1)) 7) (= (c06_len (c06_part l 1)) 2) (= (tkind (c06_part (c06_part l 1) 1)) 1)) 110
  (ite (c06_hd r @str("System`Condition")) 100
  (c15_len l @str("InputForm"))))))
}
define c15_dv(es,n) = d_d(es_d(es), n).Downvalues
define c15_el(es,n,i) = at(d_d(es_d(es), n).Downvalues, i)
define c15_l(r) = len(r.(*atoms.Expression).Parts)
define c15_pt(r,i) = at(r.(*atoms.Expression).Parts, off(r.(*atoms.Expression).Parts) + i)
define c15_held(t) = TE(c15_hq(t))
# rules whose left side is a bare symbol: own values
define c15_lh(r) = tat(tseq(r), 1)
define c15_own(r) = c06_hd(c15_lh(r), "System`HoldPattern") && c06_len(c15_lh(r)) == 2 && tkind(c06_part(c15_lh(r), 1)) == 5
define c15_ok(r) = wf(r) && is(r, *atoms.Expression) && tlen(tseq(r)) == 3 && tkind(c15_lh(r)) == 7 && c06_len(c15_lh(r)) >= 2
func (*EvalState).GetDef :: es, name, lhs -> r, ok, rule
  props C15
  requires es.defined != nil && wf(lhs) && is(lhs, *atoms.Symbol)
  requires forall i:int :: {c15_el(es, name, i)} d_has(es_d(es), name) && off(c15_dv(es, name)) <= i && i < off(c15_dv(es, name)) + len(c15_dv(es, name)) ==> c15_ok(c15_el(es, name, i).Rule)
  pure
  ensures [unknown] !d_has(es_d(es), name) ==> !ok
  ensures [none] !ok ==> forall i:int :: {c15_el(es, name, i)} d_has(es_d(es), name) && off(c15_dv(es, name)) <= i && i < off(c15_dv(es, name)) + len(c15_dv(es, name)) ==> !c15_own(c15_el(es, name, i).Rule)
  ensures [first] ok ==> exists i:int :: {c15_el(es, name, i)} off(c15_dv(es, name)) <= i && i < off(c15_dv(es, name)) + len(c15_dv(es, name)) && rule == c15_el(es, name, i).Rule && c15_own(rule) && tv(r) == tat(tseq(rule), 2) && (forall j:int :: {c15_el(es, name, j)} off(c15_dv(es, name)) <= j && j < i ==> !c15_own(c15_el(es, name, j).Rule))
  loop 1
    invariant forall i:int :: {c15_el(es, name, i)} off(c15_dv(es, name)) <= i && i < off(c15_dv(es, name)) + $k ==> !c15_own(c15_el(es, name, i).Rule)

# printing changes nothing (assumed); trying a rule may do anything (no contract)
package github.com/corywalker/expreduce/pkg/expreduceapi
extern Ex.StringForm :: this, p -> r
  pure
  ensures len(r) == c15_len(tv(this), p.Form)
extern ExpressionInterface.StringForm :: this, p -> r
  pure
  ensures len(r) == c15_len(tv(this), p.Form)
package github.com/corywalker/expreduce/expreduce
extern replace :: e, r, es -> res, ok
  modifies *
func (*EvalState).GetSymDef :: es, name -> r, ok
  props C15
  requires es.defined != nil
  requires forall i:int :: {c15_el(es, name, i)} d_has(es_d(es), name) && off(c15_dv(es, name)) <= i && i < off(c15_dv(es, name)) + len(c15_dv(es, name)) ==> c15_ok(c15_el(es, name, i).Rule)
  pure
  ensures [none] !ok ==> forall i:int :: {c15_el(es, name, i)} d_has(es_d(es), name) && off(c15_dv(es, name)) <= i && i < off(c15_dv(es, name)) + len(c15_dv(es, name)) ==> !c15_own(c15_el(es, name, i).Rule)
  ensures [first] ok ==> d_has(es_d(es), name) && exists i:int :: {c15_el(es, name, i)} off(c15_dv(es, name)) <= i && i < off(c15_dv(es, name)) + len(c15_dv(es, name)) && c15_own(c15_el(es, name, i).Rule) && tv(r) == tat(tseq(c15_el(es, name, i).Rule), 2) && (forall j:int :: {c15_el(es, name, j)} off(c15_dv(es, name)) <= j && j < i ==> !c15_own(c15_el(es, name, j).Rule))
func (*EvalState).IsFrozen :: es -> r
  props C15
  pure
  ensures r == es.freeze
func (*EvalState).SetFrozen :: es, frozen
  props C15
  modifies es.freeze
  ensures es.freeze == frozen
define c15_others(es,n) = forall m:string :: {d_has(es_d(es), m)} {d_def(es_d(es), m)} m != n ==> d_has(es_d(es), m) == old(d_has(es_d(es), m)) && d_d(es_d(es), m) == old(d_d(es_d(es), m))
define c15_rule(t) = (c06_hd(t, "System`Rule") || c06_hd(t, "System`RuleDelayed")) && c06_len(t) == 3
# the names a list of attributes spells: the symbols of System` in it; c10_at: the
# list's first n parts spell s; c10_cnt: how many names there are before part n
logic c10_q(TSeq,Int) Bool
logic c10_nm(TSeq,Int) Str
logic c10_cnt(TSeq,Int) Int
logic c10_at(TSeq,Int,Str) Bool
smt c10_names c10_q c10_nm c10_cnt c10_at {
(define-fun c10_q ((q TSeq) (i Int)) Bool (and (= (tkind (tat q i)) 5) (hasprefix (tstr (tat q i)) @str("System`"))))
(define-fun c10_nm ((q TSeq) (i Int)) Str (ssub (tstr (tat q i)) 7 (slen (tstr (tat q i)))))
(declare-fun c10_cnt (TSeq Int) Int)
(assert (forall ((q TSeq)) (! (= (c10_cnt q 1) 0) :pattern ((c10_cnt q 1)))))
(assert (forall ((q TSeq) (n Int) (m Int)) (! (=> (and (<= 1 n) (= m (+ n 1))) (= (c10_cnt q m) (ite (c10_q q n) (+ (c10_cnt q n) 1) (c10_cnt q n)))) :pattern ((c10_cnt q n) (c10_cnt q m)))))
(declare-fun c10_at (TSeq Int Str) Bool)
(declare-fun c10_ix (TSeq Int Str) Int)
(assert (forall ((q TSeq) (n Int) (s Str)) (! (=> (c10_at q n s) (and (<= 1 (c10_ix q n s)) (< (c10_ix q n s) n) (c10_q q (c10_ix q n s)) (= (c10_nm q (c10_ix q n s)) s))) :pattern ((c10_at q n s)))))
(assert (forall ((q TSeq) (n Int) (s Str) (i Int)) (! (=> (and (<= 1 i) (< i n) (c10_q q i) (= (c10_nm q i) s)) (c10_at q n s)) :pattern ((c10_at q n s) (tat q i)))))
(declare-fun c10_sx ((Array Int Str) Int Int Str) Int)
(assert (forall ((a (Array Int Str)) (o Int) (n Int) (s Str)) (! (=> (smem a o n s) (and (<= o (c10_sx a o n s)) (< (c10_sx a o n s) (+ o n)) (= (select a (c10_sx a o n s)) s))) :pattern ((smem a o n s)))))
(assert (forall ((a (Array Int Str)) (o Int) (n Int) (s Str) (i Int)) (! (=> (and (<= o i) (< i (+ o n)) (= (select a i) s)) (smem a o n s)) :pattern ((smem a o n s) (select a i)))))
}
func (*EvalState).defineAttrs :: es, sym, rhs
  props C15 C10
  requires es.defined != nil && sym != nil && wf(rhs)
  opt typednil
  modifies es.defined.$d
  ensures [not-a-list] !c06_hd(tv(rhs), "System`List") ==> es_d(es) == old(es_d(es))
  ensures [rules-kept] d_d(es_d(es), sym.Name).Downvalues == old(c15_dv(es, sym.Name)) || !old(d_has(es_d(es), sym.Name))
  ensures [known] old(d_has(es_d(es), sym.Name)) ==> d_has(es_d(es), sym.Name)
  ensures [others] c15_others(es, sym.Name)
  ensures [not-symbols] !(c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5)) ==> es_d(es) == old(es_d(es))
  ensures [Orderless] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.Orderless <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "Orderless"))
  ensures [Flat] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.Flat <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "Flat"))
  ensures [OneIdentity] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.OneIdentity <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "OneIdentity"))
  ensures [Listable] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.Listable <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "Listable"))
  ensures [Constant] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.Constant <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "Constant"))
  ensures [NumericFunction] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.NumericFunction <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "NumericFunction"))
  ensures [Protected] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.Protected <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "Protected"))
  ensures [Locked] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.Locked <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "Locked"))
  ensures [ReadProtected] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.ReadProtected <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "ReadProtected"))
  ensures [HoldFirst] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.HoldFirst <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "HoldFirst"))
  ensures [HoldRest] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.HoldRest <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "HoldRest"))
  ensures [HoldAll] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.HoldAll <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "HoldAll"))
  ensures [HoldAllComplete] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.HoldAllComplete <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "HoldAllComplete"))
  ensures [NHoldFirst] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.NHoldFirst <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "NHoldFirst"))
  ensures [NHoldRest] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.NHoldRest <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "NHoldRest"))
  ensures [NHoldAll] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.NHoldAll <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "NHoldAll"))
  ensures [SequenceHold] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.SequenceHold <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "SequenceHold"))
  ensures [Temporary] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.Temporary <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "Temporary"))
  ensures [Stub] c06_hd(old(tv(rhs)), "System`List") && (forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> tkind(tat(old(tseq(rhs)), i)) == 5) ==> (d_d(es_d(es), sym.Name).Attributes.Stub <==> c10_at(old(tseq(rhs)), tlen(old(tseq(rhs))), "Stub"))
  loop 1 stringAttrs:[]string
    invariant forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i <= $k ==> tkind(tat(old(tseq(rhs)), i)) == 5
    invariant len(stringAttrs) == c10_cnt(old(tseq(rhs)), $k + 1) && (cap(stringAttrs) == 0 || fresh(arr(stringAttrs)))
    invariant [spelled] forall i:int :: {at(stringAttrs, i)} off(stringAttrs) <= i && i < off(stringAttrs) + len(stringAttrs) ==> c10_at(old(tseq(rhs)), $k + 1, at(stringAttrs, i))
    invariant [each] forall j:int :: {tat(old(tseq(rhs)), j)} {c10_cnt(old(tseq(rhs)), j)} 1 <= j && j <= $k && c10_q(old(tseq(rhs)), j) ==> 0 <= c10_cnt(old(tseq(rhs)), j) && c10_cnt(old(tseq(rhs)), j) < len(stringAttrs) && at(stringAttrs, off(stringAttrs) + c10_cnt(old(tseq(rhs)), j)) == c10_nm(old(tseq(rhs)), j)
define c15_allr(rhs) = forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i < tlen(old(tseq(rhs))) ==> c15_rule(tat(old(tseq(rhs)), i))
func (*EvalState).defineDownValues :: es, sym, rhs
  props C15
  requires es.defined != nil && sym != nil && wf(rhs)
  modifies es.defined.$d
  opt typednil
  ensures [not-rules] !(c06_hd(old(tv(rhs)), "System`List") && c15_allr(rhs)) ==> es_d(es) == old(es_d(es))
  ensures [rules] c06_hd(tv(rhs), "System`List") && c15_allr(rhs) ==> d_has(es_d(es), sym.Name) && len(c15_dv(es, sym.Name)) == len(rhs.(*atoms.Expression).Parts) - 1
  ensures [each] c06_hd(tv(rhs), "System`List") && c15_allr(rhs) ==> forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i <= len(c15_dv(es, sym.Name)) && c15_rule(tat(old(tseq(rhs)), i)) ==> c15_el(es, sym.Name, off(c15_dv(es, sym.Name)) + i - 1).Rule == old(c16_e(rhs, c16_o(rhs) + i)) && c15_el(es, sym.Name, off(c15_dv(es, sym.Name)) + i - 1).Specificity == 0
  ensures [attributes-kept] old(d_has(es_d(es), sym.Name)) ==> d_d(es_d(es), sym.Name).Attributes == old(d_d(es_d(es), sym.Name).Attributes)
  ensures [others] c15_others(es, sym.Name)
  loop 1 dvs:[]expreduceapi.DownValue
    invariant len(dvs) == $k && fresh(arr(dvs))
    invariant forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i <= $k ==> c15_rule(tat(old(tseq(rhs)), i))
    invariant forall i:int :: {tat(old(tseq(rhs)), i)} 1 <= i && i <= $k && c15_rule(tat(old(tseq(rhs)), i)) ==> at(dvs, off(dvs) + i - 1).Rule == old(c16_e(rhs, c16_o(rhs) + i)) && at(dvs, off(dvs) + i - 1).Specificity == 0
# what is left of a right side when rules with the same left side are told apart
define c15_mc(t) = c06_hd(t, "System`Condition") && c06_len(t) > 2
define c15_mw(t,h) = c06_hd(t, h) && c06_len(t) == 3 && c06_hd(c06_part(t, 2), "System`Condition")
func maskNonConditional :: e -> r
  props C15
  requires wf(e)
  pure
  ensures [mask] wf(r) && tv(r) == c15_mask(old(tv(e))) && fresh(r) && !is(r, *atoms.Flt)
  assert c15_mk(tv(e))
  loop 1 res:expreduceapi.Ex, heads:[]string
    invariant len(heads) == 2 && heads[0] == "System`With" && heads[1] == "System`Module"
    invariant wf(res) && fresh(res) && (is(res, *atoms.Symbol) || is(res, *atoms.Expression))
    invariant tv(res) == ite(c15_mc(tv(e)) || $k >= 1 && c15_mw(tv(e), "System`With") || $k >= 2 && c15_mw(tv(e), "System`Module"), c15_mask(tv(e)), TY("System`ExpreduceNonConditional"))
    invariant tv(e) == old(tv(e)) && wf(e)
func ruleSpecificity :: lhs, rhs, name, es -> r
  props C15
  requires es != nil && wf(lhs) && wf(rhs) && is(lhs, *atoms.Expression) && tlen(tseq(lhs)) >= 2
  pure
  ensures [measure] r == c15_spec(tv(lhs), tv(rhs), name)
define c15_sp(t) = tkind(t) == 7 && tkind(c06_part(t, 0)) == 5 && (tstr(c06_part(t, 0)) == "System`Attributes" || tstr(c06_part(t, 0)) == "System`DownValues")
define c15_tgt(t) = ite(tkind(t) == 5, tstr(t), ite(tkind(c06_part(t, 0)) == 5, ite(c15_sp(t), tstr(c06_part(t, 1)), tstr(c06_part(t, 0))), tstr(c06_part(c06_part(t, 0), 1))))
define c15_n0(es,n) = old(ite(d_has(es_d(es), n), len(c15_dv(es, n)), 0))
# the left side defines something: it is a name, or its head is one, or names one literally
define c15_nmd(t) = tkind(t) == 5 && tstr(t) != ""
define c15_vb(t) = c06_hd(t, "System`Verbatim") && c06_len(t) > 1 && c15_nmd(c06_part(t, 1))
define c15_def(t) = c15_nmd(t) || tkind(t) == 7 && !c15_sp(t) && (c15_nmd(c06_part(t, 0)) || c15_vb(c06_part(t, 0)))
define c15_spok(t) = c15_sp(t) && c06_len(t) == 2 && tkind(c06_part(t, 1)) == 5
define c15_T(lhs) = c15_tgt(old(tv(lhs)))
define c15_o1(es,lhs) = off(c15_dv(es, c15_T(lhs)))
define c15_o0(es,lhs) = old(off(c15_dv(es, c15_T(lhs))))
define c15_in(es,n,k) = d_has(es_d(es), n) && off(c15_dv(es, n)) <= k && k < off(c15_dv(es, n)) + len(c15_dv(es, n))
define c15_new(es,n,p,rhs) = is(c15_el(es, n, p).Rule, *atoms.Expression) && c15_l(c15_el(es, n, p).Rule) == 3 && c15_pt(c15_el(es, n, p).Rule, 2) == rhs
define c15_more(es,lhs) = len(c15_dv(es, c15_T(lhs))) > c15_n0(es, c15_T(lhs))
define c15_at(es,lhs,k,m) = ite(c15_n0(es, c15_T(lhs)) == 0, 0, ite(c15_more(es, lhs), m, k))
define c15_lhs(r,lhs) = is(c15_pt(r, 1), *atoms.Expression) && c15_l(c15_pt(r, 1)) == 2 && c15_pt(c15_pt(r, 1), 1) == lhs
define c15_rk(d,n) = ite(d.Specificity == 0, c15_spec(tat(tseq(d.Rule), 1), tat(tseq(d.Rule), 2), n), d.Specificity)
define c15_same(d,l,r) = c02_h(tat(tseq(d.Rule), 1)) == c02_h(c15_held(l)) && c02_h(c15_mask(tat(tseq(d.Rule), 2))) == c02_h(c15_mask(r))
func (*EvalState).Define :: es, lhs, rhs
  props C15
  requires es.defined != nil && wf(lhs) && wf(rhs)
  requires forall n:string, i:int :: {c15_el(es, n, i)} d_has(es_d(es), n) && off(c15_dv(es, n)) <= i && i < off(c15_dv(es, n)) + len(c15_dv(es, n)) ==> c15_ok(c15_el(es, n, i).Rule)
  requires [stored] forall n:string :: {d_def(es_d(es), n)} d_has(es_d(es), n) ==> typeok(c15_dv(es, n)) && allocated(arr(c15_dv(es, n)))
  requires [own-arrays] forall n:string :: {d_def(es_d(es), n)} n != c15_tgt(tv(lhs)) && d_has(es_d(es), n) && len(c15_dv(es, n)) > 0 ==> arr(c15_dv(es, n)) != arr(c15_dv(es, c15_tgt(tv(lhs))))
  modifies es.defined.$d, elems(c15_dv(es, c15_tgt(tv(lhs)))), any("F:atoms.Integer.cachedHash"), any("F:atoms.Symbol.cachedHash"), any("F:atoms.Expression.CachedHash")
  opt typednil
  opt assume:IsSameQ
  ensures [frozen] old(es.freeze) ==> es_d(es) == old(es_d(es))
  ensures [others] c15_others(es, c15_tgt(old(tv(lhs))))
  ensures [malformed] !c15_def(old(tv(lhs))) && !c15_spok(old(tv(lhs))) ==> es_d(es) == old(es_d(es))
  ensures [rules-kept] forall n:string, i:int :: {now(at(old(c15_dv(es, n)), i))} old(d_has(es_d(es), n) && off(c15_dv(es, n)) <= i && i < off(c15_dv(es, n)) + len(c15_dv(es, n))) ==> at(old(c15_dv(es, n)), i) == old(c15_el(es, n, i))
  ensures [one-more] !old(es.freeze) && c15_def(old(tv(lhs))) ==> d_has(es_d(es), c15_tgt(old(tv(lhs)))) && (len(c15_dv(es, c15_tgt(old(tv(lhs))))) == c15_n0(es, c15_tgt(old(tv(lhs)))) || len(c15_dv(es, c15_tgt(old(tv(lhs))))) == c15_n0(es, c15_tgt(old(tv(lhs)))) + 1)
  assert [stored] !old(es.freeze) && c15_def(old(tv(lhs))) ==> c15_new(es, c15_T(lhs), c15_o1(es, lhs) + c15_at(es, lhs, $k1, $k2), rhs)
  assert [before] !old(es.freeze) && c15_def(old(tv(lhs))) ==> forall j:int :: {old(c15_el(es, c15_T(lhs), j))} c15_o0(es, lhs) <= j && j < c15_o0(es, lhs) + c15_at(es, lhs, $k1, $k2) ==> c15_el(es, c15_T(lhs), j - c15_o0(es, lhs) + c15_o1(es, lhs)) == old(c15_el(es, c15_T(lhs), j))
  assert [after-replaced] !old(es.freeze) && c15_def(old(tv(lhs))) && !c15_more(es, lhs) ==> forall j:int :: {old(c15_el(es, c15_T(lhs), j))} c15_o0(es, lhs) + $k1 < j && j < c15_o0(es, lhs) + c15_n0(es, c15_T(lhs)) ==> c15_el(es, c15_T(lhs), j - c15_o0(es, lhs) + c15_o1(es, lhs)) == old(c15_el(es, c15_T(lhs), j))
  assert [after-inserted] !old(es.freeze) && c15_def(old(tv(lhs))) && c15_more(es, lhs) ==> forall j:int :: {old(c15_el(es, c15_T(lhs), j))} c15_o0(es, lhs) + $k2 <= j && j < c15_o0(es, lhs) + c15_n0(es, c15_T(lhs)) ==> c15_el(es, c15_T(lhs), j - c15_o0(es, lhs) + c15_o1(es, lhs) + 1) == old(c15_el(es, c15_T(lhs), j))
  assert [left-side] !old(es.freeze) && c15_def(old(tv(lhs))) && c15_more(es, lhs) ==> c15_lhs(c15_el(es, c15_T(lhs), c15_o1(es, lhs) + c15_at(es, lhs, $k1, $k2)).Rule, lhs)
  assert [left-side-kept] !old(es.freeze) && c15_def(old(tv(lhs))) && !c15_more(es, lhs) ==> c15_pt(c15_el(es, c15_T(lhs), c15_o1(es, lhs) + $k1).Rule, 1) == old(c15_pt(c15_el(es, c15_T(lhs), off(c15_dv(es, c15_T(lhs))) + now($k1)).Rule, 1))
  assert [same-rule] !old(es.freeze) && c15_def(old(tv(lhs))) && !c15_more(es, lhs) ==> old(c15_same(c15_el(es, c15_T(lhs), off(c15_dv(es, c15_T(lhs))) + now($k1)), tv(lhs), tv(rhs)))
  assert [new-rule] !old(es.freeze) && c15_def(old(tv(lhs))) && c15_more(es, lhs) ==> forall j:int :: {old(c15_el(es, c15_T(lhs), j))} old(c15_in(es, c15_T(lhs), j)) ==> !old(c15_same(c15_el(es, c15_T(lhs), j), tv(lhs), tv(rhs)))
  assert [by-specificity] !old(es.freeze) && c15_def(old(tv(lhs))) && c15_more(es, lhs) && c15_n0(es, c15_T(lhs)) > 0 ==> (forall j:int :: {old(c15_el(es, c15_T(lhs), j))} old(c15_in(es, c15_T(lhs), j)) && j < c15_o0(es, lhs) + $k2 ==> old(c15_rk(c15_el(es, c15_T(lhs), j), c15_T(lhs))) >= old(c15_spec(c15_held(tv(lhs)), tv(rhs), c15_T(lhs)))) && ($k2 < c15_n0(es, c15_T(lhs)) ==> old(c15_rk(c15_el(es, c15_T(lhs), off(c15_dv(es, c15_T(lhs))) + now($k2)), c15_T(lhs)) < c15_spec(c15_held(tv(lhs)), tv(rhs), c15_T(lhs))))
  loop 1
    invariant [differ] forall j:int :: {old(c15_el(es, c15_T(lhs), j))} old(c15_in(es, c15_T(lhs), j)) && j < c15_o0(es, lhs) + $k ==> !old(c15_same(c15_el(es, c15_T(lhs), j), tv(lhs), tv(rhs)))
    invariant [args] wf(lhs) && wf(rhs) && tv(lhs) == old(tv(lhs)) && tv(rhs) == old(tv(rhs))
  loop 2
    invariant [args] wf(lhs) && wf(rhs) && tv(lhs) == old(tv(lhs)) && tv(rhs) == old(tv(rhs))
    invariant [rank] newSpecificity == old(c15_spec(c15_held(tv(lhs)), tv(rhs), c15_T(lhs)))
    invariant [ranked] forall j:int :: {old(c15_el(es, c15_T(lhs), j))} old(c15_in(es, c15_T(lhs), j)) && j < c15_o0(es, lhs) + $k ==> old(c15_rk(c15_el(es, c15_T(lhs), j), c15_T(lhs))) >= newSpecificity

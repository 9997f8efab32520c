# C08: iterators.
logic c04_q(Tree) Real
logic c04_exact(Tree) Bool
logic tkind(Tree) Int
logic c08_num(Tree) Bool
logic c08_ar(Tree) Bool
logic c08_val(Tree) Real
logic ds_has(DS,Str) Bool
logic ds_val(DS,Str) Tree
logic ds_put(DS,Str,Tree) DS
logic ds_del(DS,Str) DS
logic c08_fin(Tree) Bool
logic tesq(Tree) TSeq
logic tstr(Tree) Str
smt c08_num c08_num c08_ar c08_val c08_fin {
; a number within the range of machine reals' exponents (any that fits in memory)
(define-fun c08_fin ((t Tree)) Bool (not (bf_inf (c04_rd t))))
(assert (not (bf_inf (bf_int (bf_of f64_zero) 0))))
; in lowest terms: a fraction is not a whole number
(declare-fun c08_low (Tree) Bool)
(assert (forall ((s Tree) (t Tree)) (! (=> (and (= (tkind s) 1) (= (tkind t) 2) (c08_low t)) (not (= (c04_q s) (c04_q t)))) :pattern ((c04_u s t)) :pattern ((c04_u t s)))))
(define-fun c08_num ((t Tree)) Bool (and (c04_exact t) (c04_ok t) (c08_fin t) (=> (= (tkind t) 2) (c08_low t))))
(define-fun c08_is2 ((t Tree) (n Str)) Bool (and (= (tkind t) 7) (= (tlen (tesq t)) 3) (= (tat (tesq t) 0) (TY n))))
(define-fun c08_zero ((t Tree)) Bool (and (c08_is2 t @str("System`Times")) (= (tat (tesq t) 1) (TI 0)) (c08_num (tat (tesq t) 2))))
; a sum of two exact numbers, or of an exact number and 0 times an exact number
(define-fun c08_ar ((t Tree)) Bool (and (c08_is2 t @str("System`Plus")) (c08_num (tat (tesq t) 1)) (or (c08_num (tat (tesq t) 2)) (c08_zero (tat (tesq t) 2)))))
(define-fun c08_val ((t Tree)) Real (+ (c04_q (tat (tesq t) 1)) (ite (c08_zero (tat (tesq t) 2)) 0.0 (c04_q (tat (tesq t) 2)))))
}
# exact numbers compare by their exact value
lemma c08_order props C08 {
(assert (= bf_mono bf_mono))
(declare-const s Tree) (declare-const t Tree)
(assert (c04_u s t)) (assert (c08_num s)) (assert (c08_num t))
(assert (< (c04_q s) (c04_q t)))
(assert (not (= (c04_ord s t) 1)))
---
(assert (= bf_mono bf_mono))
(declare-const s Tree) (declare-const t Tree)
(assert (c04_u s t)) (assert (c08_num s)) (assert (c08_num t))
(assert (> (c04_q s) (c04_q t)))
(assert (not (= (c04_ord s t) (- 1))))
---
(assert (= bf_mono bf_mono))
(declare-const s Tree) (declare-const t Tree)
(assert (c04_u s t)) (assert (c08_num s)) (assert (c08_num t))
(assert (= (c04_q s) (c04_q t)))
(assert (= (tkind s) 1)) (assert (= (tkind t) 1))
(assert (not (= (c04_ord s t) 0)))
---
(assert (= bf_mono bf_mono))
(declare-const s Tree) (declare-const t Tree)
(assert (c04_u s t)) (assert (c08_num s)) (assert (c08_num t))
(assert (= (c04_q s) (c04_q t)))
(assert (= (tkind s) 2)) (assert (= (tkind t) 2))
(assert (= (c04_rd s) (c04_rd t)))
(assert (not (= (c04_ord s t) 0)))
---
(assert (= bf_mono bf_mono))
(declare-const s Tree) (declare-const t Tree)
(assert (c04_u s t)) (assert (c08_num s)) (assert (c08_num t))
(assert (= (c04_q s) (c04_q t)))
(assert (= (tkind s) 2)) (assert (= (tkind t) 2))
(assert (not (= (c04_rd s) (c04_rd t))))
---
(declare-const s Tree) (declare-const t Tree)
(assert (c04_u s t)) (assert (c08_num s)) (assert (c08_num t))
(assert (= (c04_q s) (c04_q t))) (assert (not (= (tkind s) (tkind t))))
}
smt c08_order propC08 {
(assert (forall ((s Tree) (t Tree)) (! (=> (and (c08_num s) (c08_num t) ) (= (c04_ord s t) (ite (< (c04_q s) (c04_q t)) 1 (ite (> (c04_q s) (c04_q t)) (- 1) 0)))) :pattern ((c04_ord s t)))))
}
smt c08_ds ds_has ds_val ds_put ds_del {
(declare-fun ds_has (DS Str) Bool)
(declare-fun ds_val (DS Str) Tree)
(declare-fun ds_put (DS Str Tree) DS)
(declare-fun ds_del (DS Str) DS)
(assert (forall ((d DS) (n Str) (t Tree) (m Str)) (! (= (ds_has (ds_put d n t) m) (or (= m n) (ds_has d m))) :pattern ((ds_has (ds_put d n t) m)))))
(assert (forall ((d DS) (n Str) (t Tree) (m Str)) (! (= (ds_val (ds_put d n t) m) (ite (= m n) t (ds_val d m))) :pattern ((ds_val (ds_put d n t) m)))))
(assert (forall ((d DS) (n Str) (m Str)) (! (= (ds_has (ds_del d n) m) (and (not (= m n)) (ds_has d m))) :pattern ((ds_has (ds_del d n) m)))))
(assert (forall ((d DS) (n Str) (m Str)) (! (=> (not (= m n)) (= (ds_val (ds_del d n) m) (ds_val d m))) :pattern ((ds_val (ds_del d n) m)))))
}

# The evaluator, as iteration uses it (assumed): it changes definitions and
# remembered hashes, and computes sums of exact numbers.
package github.com/corywalker/expreduce/pkg/expreduceapi
extern EvalStateInterface.Eval :: this, ex -> r
  modifies when(!c08_ar(tv(ex)), this.$defs), when(!c08_ar(tv(ex)), this.$thrown), any("F:atoms.Expression.CachedHash"), any("F:atoms.Expression.EvaledHash"), any("F:atoms.Expression.needsEval"), any("F:atoms.Expression.correctlyInstantiated"), any("F:atoms.Integer.cachedHash"), any("F:atoms.Rational.cachedHash"), any("F:atoms.Symbol.cachedHash")
  ensures r != nil && wf(r) && c04_ok(tv(r))
  ensures !this.$thrown && old(c08_ar(tv(ex))) ==> c08_num(tv(r)) && c04_q(tv(r)) == old(c08_val(tv(ex)))
extern EvalStateInterface.GetDef :: this, name, lhs -> r, ok, d
  ensures ok <==> ds_has(this.$defs, name)
  ensures ok ==> r != nil && wf(r) && tv(r) == ds_val(this.$defs, name)
  # a stored value does not share the storage in which an iteration keeps the values it found
  ensures forall m:*iterspec.MultiIterSpec :: {m.origDefs} ok ==> nr(r, arr(m.origDefs))
extern EvalStateInterface.Define :: this, lhs, rhs
  requires wf(rhs)
  modifies this.$defs
  ensures is(lhs, *atoms.Symbol) ==> this.$defs == ds_put(old(this.$defs), lhs.(*atoms.Symbol).Name, old(tv(rhs)))
extern EvalStateInterface.Clear :: this, name
  modifies this.$defs
  ensures this.$defs == ds_del(old(this.$defs), name)

package github.com/corywalker/expreduce/expreduce/iterspec
define it_r(x) = x.(*iterSpecRange)
define it_l(x) = x.(*iterSpecList)
define it_n(x) = len(it_l(x).list.(*atoms.Expression).Parts)
define it_wf(x) = x != nil && (is(x, *iterSpecRange) || is(x, *iterSpecList)) && (is(x, *iterSpecRange) ==> it_r(x).es != nil && wf(it_r(x).iMin) && wf(it_r(x).iMax) && wf(it_r(x).step) && wf(it_r(x).curr) && c04_ok(tv(it_r(x).iMin)) && c04_ok(tv(it_r(x).iMax)) && c04_ok(tv(it_r(x).step)) && c04_ok(tv(it_r(x).curr))) && (is(x, *iterSpecList) ==> 1 <= it_l(x).pos && it_l(x).list != nil && is(it_l(x).list, *atoms.Expression) && wf(it_l(x).list) && it_l(x).pos <= it_n(x))
define it_name(x) = ite(is(x, *iterSpecRange), it_r(x).iName, it_l(x).iName)
# what an iterator is made of, before its first reset
define it_wf0(x) = x != nil && (is(x, *iterSpecRange) || is(x, *iterSpecList)) && (is(x, *iterSpecRange) ==> it_r(x).es != nil && wf(it_r(x).iMin) && wf(it_r(x).iMax) && wf(it_r(x).step) && c04_ok(tv(it_r(x).iMin)) && c04_ok(tv(it_r(x).iMax)) && c04_ok(tv(it_r(x).step))) && (is(x, *iterSpecList) ==> it_l(x).list != nil && is(it_l(x).list, *atoms.Expression) && wf(it_l(x).list))
define it_ex0(x) = is(x, *iterSpecRange) ==> c08_num(tv(it_r(x).iMin)) && c08_num(tv(it_r(x).iMax)) && c08_num(tv(it_r(x).step)) && !it_r(x).es.$thrown
# an iterator over exact numbers, or over a list
define it_ex(x) = is(x, *iterSpecRange) ==> c08_num(tv(it_r(x).iMin)) && c08_num(tv(it_r(x).iMax)) && c08_num(tv(it_r(x).step)) && c08_num(tv(it_r(x).curr)) && !it_r(x).es.$thrown
# the current value lies within the bounds; so does the value after the next step; so does the first value
define it_q(x) = c04_q(tv(x))
define it_bound(x,v) = (it_q(it_r(x).step) < toreal(0) ==> v >= it_q(it_r(x).iMax)) && (it_q(it_r(x).step) >= toreal(0) ==> v <= it_q(it_r(x).iMax))
define it_in(x) = (is(x, *iterSpecList) ==> it_l(x).pos < it_n(x)) && (is(x, *iterSpecRange) ==> it_bound(x, it_q(it_r(x).curr)))
define it_more(x) = (is(x, *iterSpecList) ==> it_l(x).pos + 1 < it_n(x)) && (is(x, *iterSpecRange) ==> it_bound(x, it_q(it_r(x).curr) + it_q(it_r(x).step)))
define it_some(x) = (is(x, *iterSpecList) ==> 1 < it_n(x)) && (is(x, *iterSpecRange) ==> it_bound(x, it_q(it_r(x).iMin)))
define it_first(x) = (is(x, *iterSpecList) ==> it_l(x).pos == 1) && (is(x, *iterSpecRange) ==> it_q(it_r(x).curr) == it_q(it_r(x).iMin))
define it_step(x) = (is(x, *iterSpecList) ==> it_l(x).pos == old(it_l(x).pos) + 1) && (is(x, *iterSpecRange) ==> it_q(it_r(x).curr) == old(it_q(it_r(x).curr)) + old(it_q(it_r(x).step)))
define it_same(x) = it_l(x).pos == old(it_l(x).pos) && it_r(x).curr == old(it_r(x).curr)

iface IterSpec.reset :: this
  props C08
  requires it_wf0(this)
  modifies when(is(this, *iterSpecRange), it_r(this).curr), when(is(this, *iterSpecList), it_l(this).pos), any("F:atoms.Expression.CachedHash"), any("F:atoms.Expression.EvaledHash"), any("F:atoms.Expression.needsEval"), any("F:atoms.Expression.correctlyInstantiated"), any("F:atoms.Integer.cachedHash"), any("F:atoms.Rational.cachedHash"), any("F:atoms.Symbol.cachedHash"), when(is(this, *iterSpecRange) && !(it_ex0(this)), it_r(this).es.$defs), when(is(this, *iterSpecRange) && !(it_ex0(this)), it_r(this).es.$thrown)
  ensures [well-formed] it_wf(this)
  ensures [start] old(it_ex0(this)) ==> it_ex(this) && it_first(this)

iface IterSpec.Next :: this
  props C08
  requires it_wf(this)
  requires is(this, *iterSpecList) ==> it_in(this)
  modifies when(is(this, *iterSpecRange), it_r(this).curr), when(is(this, *iterSpecList), it_l(this).pos), any("F:atoms.Expression.CachedHash"), any("F:atoms.Expression.EvaledHash"), any("F:atoms.Expression.needsEval"), any("F:atoms.Expression.correctlyInstantiated"), any("F:atoms.Integer.cachedHash"), any("F:atoms.Rational.cachedHash"), any("F:atoms.Symbol.cachedHash"), when(is(this, *iterSpecRange) && !(it_ex(this)), it_r(this).es.$defs), when(is(this, *iterSpecRange) && !(it_ex(this)), it_r(this).es.$thrown)
  ensures [well-formed] it_wf(this)
  ensures [exact] old(it_ex(this)) ==> it_ex(this)
  ensures [one-step] old(it_ex(this)) ==> it_step(this)

iface IterSpec.Cont :: this -> r
  props C08
  requires it_wf(this)
  ensures [within-bounds] it_ex(this) ==> (r <==> it_in(this))

iface IterSpec.GetCurr :: this -> r
  props C08
  requires it_wf(this)
  requires is(this, *iterSpecList) ==> it_in(this)
  ensures [list-element] is(this, *iterSpecList) ==> r == it_l(this).list.(*atoms.Expression).Parts[it_l(this).pos]
  ensures [range-value] is(this, *iterSpecRange) ==> r == it_r(this).curr

iface IterSpec.getI :: this -> r
  props C08
  requires it_wf(this)
  ensures [variable] (is(this, *iterSpecRange) ==> r == it_r(this).i) && (is(this, *iterSpecList) ==> r == it_l(this).i)

iface IterSpec.getIName :: this -> r
  props C08
  requires it_wf(this)
  ensures [variable-name] (is(this, *iterSpecRange) ==> r == it_r(this).iName) && (is(this, *iterSpecList) ==> r == it_l(this).iName)

# a bound or a step is taken over as it is when it is a number of any kind, and refused otherwise
func tryIterParam :: e -> r, ok
  props C08
  ensures [numbers-only] ok <==> is(e, *atoms.Integer) || is(e, *atoms.Flt) || is(e, *atoms.Rational) || is(e, *atoms.Complex)
  ensures [unchanged] ok ==> r == e

# The candidate with its bounds evaluated (assumed here, replayed): what it is afterwards is named by $cand.
extern evalIterSpecCandidate :: es, cand -> r
  modifies es.$defs, es.$thrown, es.$cand, any("F:atoms.Expression.CachedHash"), any("F:atoms.Expression.EvaledHash"), any("F:atoms.Expression.needsEval"), any("F:atoms.Expression.correctlyInstantiated"), any("F:atoms.Integer.cachedHash"), any("F:atoms.Rational.cachedHash"), any("F:atoms.Symbol.cachedHash")
  ensures r != nil && wf(r) && c04_ok(tv(r)) && tv(r) == es.$cand

# An iterator is what its list says: {i, n}, {i, a, b}, {i, a, b, s} or {i, list}, set to its first value.
define c08_kd(k) = 1 <= k && k <= 4
define c08_nm(t) = tstr(t)
define it_list(t) = tkind(t) == 7 && tat(tesq(t), 0) == TY("System`List")
func SpecFromList :: es, listEx -> r, ok
  props C08
  opt typednil
  requires es != nil && wf(listEx)
  modifies es.$defs, es.$thrown, es.$cand, any("F:atoms.Expression.CachedHash"), any("F:atoms.Expression.EvaledHash"), any("F:atoms.Expression.needsEval"), any("F:atoms.Expression.correctlyInstantiated"), any("F:atoms.Integer.cachedHash"), any("F:atoms.Rational.cachedHash"), any("F:atoms.Symbol.cachedHash")
  ensures [well-formed] ok ==> it_wf(r)
  ensures [at-its-start] ok && it_ex(r) ==> it_first(r)
  ensures [from-a-list] ok ==> 3 <= tlen(tesq(es.$cand)) && tlen(tesq(es.$cand)) <= 5
  ensures [start] ok && is(r, *iterSpecRange) ==> tv(it_r(r).iMin) == ite(tlen(tesq(es.$cand)) == 3, TI(1), tat(tesq(es.$cand), 2))
  ensures [end] ok && is(r, *iterSpecRange) ==> tv(it_r(r).iMax) == ite(tlen(tesq(es.$cand)) == 3, tat(tesq(es.$cand), 2), tat(tesq(es.$cand), 3))
  ensures [step] ok && is(r, *iterSpecRange) ==> tv(it_r(r).step) == ite(tlen(tesq(es.$cand)) == 5, tat(tesq(es.$cand), 4), TI(1))
  ensures [elements] ok && is(r, *iterSpecList) ==> tlen(tesq(es.$cand)) == 3 && tv(it_l(r).list) == tat(tesq(es.$cand), 2)
  ensures [only-lists] ok ==> it_list(es.$cand)
  ensures [variable] ok && tkind(tat(tesq(es.$cand), 1)) == 5 ==> it_name(r) == c08_nm(tat(tesq(es.$cand), 1))
  ensures [every-range] it_list(es.$cand) && 3 <= tlen(tesq(es.$cand)) && tlen(tesq(es.$cand)) <= 5 && tkind(tat(tesq(es.$cand), 1)) == 5 && (forall k:int :: {tat(tesq(es.$cand), k)} 2 <= k && k < tlen(tesq(es.$cand)) ==> c08_kd(tkind(tat(tesq(es.$cand), k)))) ==> ok && is(r, *iterSpecRange)
  ensures [every-list] it_list(es.$cand) && tlen(tesq(es.$cand)) == 3 && tkind(tat(tesq(es.$cand), 1)) == 5 && it_list(tat(tesq(es.$cand), 2)) ==> ok && is(r, *iterSpecList)

# several iterators advance like the wheels of a counter, the last one fastest
func (*MultiIterSpec).Next :: mis
  props C08
  requires forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_wf(mis.iSpecs[k]) && it_ex(mis.iSpecs[k]) && it_in(mis.iSpecs[k]) && it_some(mis.iSpecs[k])
  requires forall k:int, m:int :: {mis.iSpecs[k], mis.iSpecs[m]} 0 <= k && k < m && m < len(mis.iSpecs) ==> mis.iSpecs[k] != mis.iSpecs[m]
  modifies mis.shouldCont, any("F:iterspec.iterSpecRange.curr"), any("F:iterspec.iterSpecList.pos"), any("F:atoms.Expression.CachedHash"), any("F:atoms.Expression.EvaledHash"), any("F:atoms.Expression.needsEval"), any("F:atoms.Expression.correctlyInstantiated"), any("F:atoms.Integer.cachedHash"), any("F:atoms.Rational.cachedHash"), any("F:atoms.Symbol.cachedHash")
  ensures [still-well-formed] forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_wf(mis.iSpecs[k])
  ensures [still-well-formed] forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_ex(mis.iSpecs[k])
  ensures [still-well-formed] forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_in(mis.iSpecs[k])
  ensures [still-well-formed] forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_some(mis.iSpecs[k])
  ensures [wheel-turns] forall j:int :: {mis.iSpecs[j]} 0 <= j && j < len(mis.iSpecs) && old(it_more(mis.iSpecs[j])) && (forall m:int :: {mis.iSpecs[m]} j < m && m < len(mis.iSpecs) ==> !old(it_more(mis.iSpecs[m]))) ==> it_step(mis.iSpecs[j]) && mis.shouldCont == old(mis.shouldCont)
  ensures [wheels-after-it-restart] forall j:int, k:int :: {mis.iSpecs[j], mis.iSpecs[k]} 0 <= j && j < k && k < len(mis.iSpecs) && old(it_more(mis.iSpecs[j])) && (forall m:int :: {mis.iSpecs[m]} j < m && m < len(mis.iSpecs) ==> !old(it_more(mis.iSpecs[m]))) ==> it_first(mis.iSpecs[k])
  ensures [wheels-before-it-stay] forall j:int, k:int :: {mis.iSpecs[j], mis.iSpecs[k]} 0 <= k && k < j && j < len(mis.iSpecs) && old(it_more(mis.iSpecs[j])) && (forall m:int :: {mis.iSpecs[m]} j < m && m < len(mis.iSpecs) ==> !old(it_more(mis.iSpecs[m]))) ==> it_same(mis.iSpecs[k])
  ensures [ends-after-last] (forall m:int :: {mis.iSpecs[m]} 0 <= m && m < len(mis.iSpecs) ==> !old(it_more(mis.iSpecs[m]))) ==> !mis.shouldCont
  loop 1 i:int
    invariant 0-1 <= i && i < len(mis.iSpecs) && mis.shouldCont == old(mis.shouldCont)
    invariant forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_wf(mis.iSpecs[k])
    invariant forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_ex(mis.iSpecs[k])
    invariant forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_in(mis.iSpecs[k])
    invariant forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_some(mis.iSpecs[k])
    invariant forall k:int :: {mis.iSpecs[k]} i < k && k < len(mis.iSpecs) ==> !old(it_more(mis.iSpecs[k])) && it_first(mis.iSpecs[k])
    invariant forall k:int :: {mis.iSpecs[k]} 0 <= k && k <= i ==> it_same(mis.iSpecs[k])

# the variables of iteration, before and after
define it_var(x) = (is(x, *iterSpecRange) ==> it_r(x).i != nil && is(it_r(x).i, *atoms.Symbol) && it_r(x).i.(*atoms.Symbol).Name == it_r(x).iName) && (is(x, *iterSpecList) ==> it_l(x).i != nil && is(it_l(x).i, *atoms.Symbol) && it_l(x).i.(*atoms.Symbol).Name == it_l(x).iName)
func (*MultiIterSpec).TakeVarSnapshot :: mis, es
  props C08
  requires es != nil && (forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_wf(mis.iSpecs[k]))
  modifies mis.origDefs, mis.isOrigDefs
  ensures [one-entry-per-variable] len(mis.origDefs) == len(mis.iSpecs) && len(mis.isOrigDefs) == len(mis.iSpecs)
  ensures [was-defined] forall k:int :: {mis.isOrigDefs[k]} 0 <= k && k < len(mis.iSpecs) ==> (mis.isOrigDefs[k] <==> ds_has(es.$defs, it_name(mis.iSpecs[k])))
  ensures [value-kept] forall k:int :: {mis.origDefs[k]} 0 <= k && k < len(mis.iSpecs) && mis.isOrigDefs[k] ==> mis.origDefs[k] != nil && wf(mis.origDefs[k]) && tv(mis.origDefs[k]) == ds_val(es.$defs, it_name(mis.iSpecs[k]))
  loop 1
    invariant len(mis.origDefs) == len(mis.iSpecs) && len(mis.isOrigDefs) == len(mis.iSpecs)
    invariant forall k:int :: {mis.isOrigDefs[k]} 0 <= k && k < $k ==> (mis.isOrigDefs[k] <==> ds_has(es.$defs, it_name(mis.iSpecs[k])))
    invariant forall k:int :: {mis.origDefs[k]} 0 <= k && k < $k && mis.isOrigDefs[k] ==> mis.origDefs[k] != nil && wf(mis.origDefs[k]) && tv(mis.origDefs[k]) == ds_val(es.$defs, it_name(mis.iSpecs[k]))
    invariant forall k:int :: {mis.origDefs[k]} 0 <= k && k < $k && mis.isOrigDefs[k] ==> nr(mis.origDefs[k], arr(mis.origDefs))

func (*MultiIterSpec).RestoreVarSnapshot :: mis, es
  props C08
  requires es != nil && (forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_wf(mis.iSpecs[k]) && it_var(mis.iSpecs[k]))
  requires len(mis.origDefs) == len(mis.iSpecs) && len(mis.isOrigDefs) == len(mis.iSpecs)
  requires forall k:int :: {mis.origDefs[k]} 0 <= k && k < len(mis.iSpecs) && mis.isOrigDefs[k] ==> mis.origDefs[k] != nil && wf(mis.origDefs[k])
  # the same variable was recorded with the same value
  requires forall k:int, m:int :: {mis.isOrigDefs[k], mis.isOrigDefs[m]} 0 <= k && k < m && m < len(mis.iSpecs) && it_name(mis.iSpecs[k]) == it_name(mis.iSpecs[m]) ==> (mis.isOrigDefs[k] <==> mis.isOrigDefs[m]) && (mis.isOrigDefs[k] ==> tv(mis.origDefs[k]) == tv(mis.origDefs[m]))
  modifies es.$defs
  ensures [defined-as-before] forall k:int :: {mis.isOrigDefs[k]} 0 <= k && k < len(mis.iSpecs) ==> (mis.isOrigDefs[k] <==> ds_has(es.$defs, it_name(mis.iSpecs[k])))
  ensures [value-as-before] forall k:int :: {mis.origDefs[k]} 0 <= k && k < len(mis.iSpecs) && mis.isOrigDefs[k] ==> ds_val(es.$defs, it_name(mis.iSpecs[k])) == old(tv(mis.origDefs[k]))
  ensures [others-untouched] forall n:string :: {ds_has(es.$defs, n)} (forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_name(mis.iSpecs[k]) != n) ==> (ds_has(es.$defs, n) <==> ds_has(old(es.$defs), n)) && ds_val(es.$defs, n) == ds_val(old(es.$defs), n)
  loop 1
    invariant forall k:int :: {mis.isOrigDefs[k]} 0 <= k && k < $k ==> (mis.isOrigDefs[k] <==> ds_has(es.$defs, it_name(mis.iSpecs[k])))
    invariant forall k:int :: {mis.origDefs[k]} 0 <= k && k < $k && mis.isOrigDefs[k] ==> ds_val(es.$defs, it_name(mis.iSpecs[k])) == old(tv(mis.origDefs[k]))
    invariant forall n:string :: {ds_has(es.$defs, n)} {ds_val(es.$defs, n)} (forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_name(mis.iSpecs[k]) != n) ==> (ds_has(es.$defs, n) <==> ds_has(old(es.$defs), n)) && ds_val(es.$defs, n) == ds_val(old(es.$defs), n)

func (*MultiIterSpec).DefineCurrent :: mis, es
  props C08
  requires es != nil && (forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) ==> it_wf(mis.iSpecs[k]) && it_var(mis.iSpecs[k]) && (is(mis.iSpecs[k], *iterSpecList) ==> it_in(mis.iSpecs[k])))
  requires forall k:int, m:int :: {mis.iSpecs[k], mis.iSpecs[m]} 0 <= k && k < m && m < len(mis.iSpecs) ==> it_name(mis.iSpecs[k]) != it_name(mis.iSpecs[m])
  modifies es.$defs
  ensures [list-variable] forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) && is(mis.iSpecs[k], *iterSpecList) ==> ds_has(es.$defs, it_l(mis.iSpecs[k]).iName) && ds_val(es.$defs, it_l(mis.iSpecs[k]).iName) == tat(tseq(it_l(mis.iSpecs[k]).list), it_l(mis.iSpecs[k]).pos)
  ensures [range-variable] forall k:int :: {mis.iSpecs[k]} 0 <= k && k < len(mis.iSpecs) && is(mis.iSpecs[k], *iterSpecRange) ==> ds_has(es.$defs, it_r(mis.iSpecs[k]).iName) && ds_val(es.$defs, it_r(mis.iSpecs[k]).iName) == tv(it_r(mis.iSpecs[k]).curr)
  loop 1
    invariant forall k:int :: {mis.iSpecs[k]} 0 <= k && k < $k && is(mis.iSpecs[k], *iterSpecList) ==> ds_has(es.$defs, it_l(mis.iSpecs[k]).iName) && ds_val(es.$defs, it_l(mis.iSpecs[k]).iName) == tat(tseq(it_l(mis.iSpecs[k]).list), it_l(mis.iSpecs[k]).pos)
    invariant forall k:int :: {mis.iSpecs[k]} 0 <= k && k < $k && is(mis.iSpecs[k], *iterSpecRange) ==> ds_has(es.$defs, it_r(mis.iSpecs[k]).iName) && ds_val(es.$defs, it_r(mis.iSpecs[k]).iName) == tv(it_r(mis.iSpecs[k]).curr)

# A range stays within its bounds from the first value up to the last one, and never repeats a value.
lemma c08_range props C08 {
(declare-const v Real) (declare-const s Real) (declare-const m Real)
(define-fun inb ((x Real)) Bool (ite (< s 0.0) (>= x m) (<= x m)))
(assert (inb (+ v s))) (assert (not (inb v)))
---
(declare-const v Real) (declare-const s Real)
(assert (not (= s 0.0))) (assert (= (+ v s) v))
}
smt c08_range c08_range_fact {
(declare-const c08_range_fact Bool)
}
# The position of a counter: wheel k has N[k] places, the last wheel turns fastest.
# One turn (wheel j advances, those after it go from their last place to the first)
# adds one; the state before the end is the highest position.
smt c08_rk c08_rk {
(declare-fun c08_rk ((Array Int Int) (Array Int Int) Int) Int)
(declare-fun c08_prod ((Array Int Int) Int) Int)
(assert (forall ((d (Array Int Int)) (n (Array Int Int))) (! (= (c08_rk d n 0) 0) :pattern ((c08_rk d n 0)))))
(assert (forall ((d (Array Int Int)) (n (Array Int Int)) (k Int) (l Int)) (! (=> (and (<= 0 k) (= l (+ k 1))) (= (c08_rk d n l) (+ (* (c08_rk d n k) (select n k)) (select d k)))) :pattern ((c08_rk d n k) (c08_rk d n l)))))
(assert (forall ((n (Array Int Int))) (! (= (c08_prod n 0) 1) :pattern ((c08_prod n 0)))))
(assert (forall ((n (Array Int Int)) (k Int) (l Int)) (! (=> (and (<= 0 k) (= l (+ k 1))) (= (c08_prod n l) (* (c08_prod n k) (select n k)))) :pattern ((c08_prod n k) (c08_prod n l)))))
}
lemma c08_counter props C08 {
(declare-const d (Array Int Int)) (declare-const e (Array Int Int)) (declare-const n (Array Int Int)) (declare-const k Int)
(assert (<= 0 k)) (assert (= (c08_rk e n k) (c08_rk d n k))) (assert (= (select e k) (select d k)))
(assert (not (= (c08_rk e n (+ k 1)) (c08_rk d n (+ k 1)))))
---
(declare-const d (Array Int Int)) (declare-const e (Array Int Int)) (declare-const n (Array Int Int)) (declare-const k Int)
(assert (<= 0 k)) (assert (= (c08_rk e n k) (c08_rk d n k))) (assert (= (select e k) (+ (select d k) 1)))
(assert (not (= (c08_rk e n (+ k 1)) (+ (c08_rk d n (+ k 1)) 1))))
---
(declare-const d (Array Int Int)) (declare-const e (Array Int Int)) (declare-const n (Array Int Int)) (declare-const k Int) (declare-const x Int) (declare-const m Int)
(assert (<= 0 k)) (assert (= x (c08_rk d n k))) (assert (= m (select n k))) (assert (= (c08_rk e n k) (+ x 1))) (assert (= (select d k) (- m 1))) (assert (= (select e k) 0))
(assert (= (* (+ x 1) m) (+ (* x m) m)))
(assert (not (= (c08_rk e n (+ k 1)) (+ (c08_rk d n (+ k 1)) 1))))
---
(declare-const d (Array Int Int)) (declare-const n (Array Int Int)) (declare-const k Int) (declare-const x Int) (declare-const m Int)
(assert (<= 0 k)) (assert (= x (c08_prod n k))) (assert (= m (select n k))) (assert (= (c08_rk d n k) (- x 1))) (assert (= (select d k) (- m 1)))
(assert (= (* (- x 1) m) (- (* x m) m)))
(assert (not (= (c08_rk d n (+ k 1)) (- (c08_prod n (+ k 1)) 1))))
}
smt c08_counter c08_counter_fact {
(declare-const c08_counter_fact Bool)
}

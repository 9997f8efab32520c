# C09: the structure of parsed operators.
package github.com/corywalker/expreduce/expreduce/parser
define c09_p(x,i) = at(x.(*atoms.Expression).Parts, off(x.(*atoms.Expression).Parts) + i)
define c09_e(x,p) = at(x.(*atoms.Expression).Parts, p)
define c09_o(x) = off(x.(*atoms.Expression).Parts)
define c09_o0(x) = old(c09_o(x))
define c09_l(x) = len(x.(*atoms.Expression).Parts)
define c09_sym(x,n) = is(x, *atoms.Symbol) && x.(*atoms.Symbol).Name == n
func convertToInequality :: expr -> r
  props C09
  requires wf(expr) && is(expr, *atoms.Expression)
  pure
  ensures [fresh] r != nil && fresh(r) && is(r, *atoms.Expression) && fresh(arr(r.(*atoms.Expression).Parts))
  ensures [head] c09_sym(c09_p(r, 0), "System`Inequality")
  ensures [length] c09_l(r) == ite(c09_l(expr) == 1, 1, 2 * c09_l(expr) - 2)
  ensures [operands] forall p:int :: {old(c09_e(expr, p))} c09_o0(expr) + 1 <= p && p < c09_o0(expr) + old(c09_l(expr)) ==> c09_p(r, 2 * (p - c09_o0(expr)) - 1) == old(c09_e(expr, p))
  ensures [operators] forall p:int :: {old(c09_e(expr, p))} c09_o0(expr) + 2 <= p && p < c09_o0(expr) + old(c09_l(expr)) ==> c09_p(r, 2 * (p - c09_o0(expr)) - 2) == old(c09_p(expr, 0))
  loop 1 res:*atoms.Expression
    invariant [res] res != nil && fresh(res) && fresh(arr(res.Parts)) && c09_sym(c09_p(res, 0), "System`Inequality") && len(res.Parts) == ite($k == 0, 1, 2 * $k)
    invariant [operands] forall p:int :: {old(c09_e(expr, p))} c09_o0(expr) + 1 <= p && p <= c09_o0(expr) + $k ==> c09_p(res, 2 * (p - c09_o0(expr)) - 1) == old(c09_e(expr, p))
    invariant [operators] forall p:int :: {old(c09_e(expr, p))} c09_o0(expr) + 2 <= p && p <= c09_o0(expr) + $k ==> c09_p(res, 2 * (p - c09_o0(expr)) - 2) == old(c09_p(expr, 0))
define c09_iq(s) = has(inequalityOps, s)
define c09_is6(s) = s == "System`Equal" || s == "System`Unequal" || s == "System`Less" || s == "System`LessEqual" || s == "System`Greater" || s == "System`GreaterEqual"
define c09_nm(t) = ite(tkind(t) == 7 && tkind(c06_part(t, 0)) == 5, tstr(c06_part(t, 0)), "")
define c09_mix(op,t) = c09_is6(op) && op != c09_nm(t) && (c09_is6(c09_nm(t)) || c09_nm(t) == "System`Inequality")
func fullyAssoc :: op, lhs, rhs -> r
  props C09
  requires wf(lhs) && wf(rhs)
  requires [table] forall s:string :: {c09_iq(s)} c09_iq(s) <==> c09_is6(s)
  modifies when(is(lhs, *atoms.Expression), lhs.(*atoms.Expression).Parts), when(is(lhs, *atoms.Expression), lhs.(*atoms.Expression).CachedHash), when(is(lhs, *atoms.Expression), lhs.(*atoms.Expression).EvaledHash), when(is(lhs, *atoms.Expression), elems(lhs.(*atoms.Expression).Parts))
  opt typednil
  ensures [operand] !c09_mix(op, old(tv(lhs))) && !c06_hd(old(tv(lhs)), op) ==> is(r, *atoms.Expression) && fresh(r) && c09_l(r) == 3 && c09_sym(c09_p(r, 0), op) && c09_p(r, 1) == lhs && c09_p(r, 2) == rhs
  ensures [chain] c06_hd(old(tv(lhs)), op) ==> r == lhs && c09_l(r) == old(c09_l(lhs)) + 1 && c09_p(r, c09_l(r) - 1) == rhs && (forall p:int :: {old(c09_e(lhs, p))} old(c09_o(lhs)) <= p && p < old(c09_o(lhs) + c09_l(lhs)) ==> c09_p(r, p - old(c09_o(lhs))) == old(c09_e(lhs, p)))
  ensures [inequality] c09_mix(op, old(tv(lhs))) && c06_hd(old(tv(lhs)), "System`Inequality") ==> r == lhs && c09_l(r) == old(c09_l(lhs)) + 2 && c09_sym(c09_p(r, c09_l(r) - 2), op) && c09_p(r, c09_l(r) - 1) == rhs && (forall p:int :: {old(c09_e(lhs, p))} old(c09_o(lhs)) <= p && p < old(c09_o(lhs) + c09_l(lhs)) ==> c09_p(r, p - old(c09_o(lhs))) == old(c09_e(lhs, p)))
  ensures [mixed] c09_mix(op, old(tv(lhs))) && !c06_hd(old(tv(lhs)), "System`Inequality") && old(c09_l(lhs)) > 1 ==> is(r, *atoms.Expression) && fresh(r) && c09_l(r) == 2 * old(c09_l(lhs)) && c09_sym(c09_p(r, 0), "System`Inequality") && c09_sym(c09_p(r, c09_l(r) - 2), op) && c09_p(r, c09_l(r) - 1) == rhs
  ensures [mixed-operands] c09_mix(op, old(tv(lhs))) && !c06_hd(old(tv(lhs)), "System`Inequality") && old(c09_l(lhs)) > 1 ==> (forall p:int :: {old(c09_e(lhs, p))} old(c09_o(lhs)) + 1 <= p && p < old(c09_o(lhs) + c09_l(lhs)) ==> c09_p(r, 2 * (p - old(c09_o(lhs))) - 1) == old(c09_e(lhs, p))) && (forall p:int :: {old(c09_e(lhs, p))} old(c09_o(lhs)) + 2 <= p && p < old(c09_o(lhs) + c09_l(lhs)) ==> c09_p(r, 2 * (p - old(c09_o(lhs))) - 2) == old(c09_p(lhs, 0)))
# names: c09_has: the first string contains the second (strings.Contains); what strings.Split gives (assumed)
package strings
logic c09_has(Str,Str) Bool
logic c09_n(Str,Str) Int
logic c09_s(Str,Str,Int) Str
smt c09_str c09_has c09_n c09_s {
(declare-fun c09_has (Str Str) Bool)
(declare-fun c09_n (Str Str) Int)
(declare-fun c09_s (Str Str Int) Str)
}
logic hasprefix(Str,Str) Bool
extern HasPrefix :: s, t -> r
  pure
  ensures r <==> hasprefix(s, t)
extern Contains :: s, t -> r
  pure
  ensures r <==> c09_has(s, t)
extern Split :: s, d -> r
  ensures fresh(arr(r)) && len(r) == c09_n(s, d) && len(r) >= 1
  ensures forall i:int :: {at(r, i)} off(r) <= i && i < off(r) + len(r) ==> at(r, i) == c09_s(s, d, i - off(r))

package github.com/corywalker/expreduce/expreduce/parser
logic c09_kn(DS,Str) Bool
smt c09_kn c09_kn {
(declare-fun c09_kn (DS Str) Bool)
}
extern evalStateForParser.IsDef :: this, n -> r
  pure
  ensures r <==> c09_kn(this.$d, n)
extern evalStateForParser.MarkSeen :: this, n
  modifies this.$d
  ensures forall m:string :: {c09_kn(this.$d, m)} c09_kn(this.$d, m) <==> m == n || c09_kn(old(this.$d), m)
define c09_on(s,p,i,n) = c09_kn(s.$d, scat(at(p, i), n))
define c09_qn(n) = c09_has(n, "`")
func addContextAndDefine :: e, context, path, s
  props C09
  requires wf(e) && is(e, *atoms.Symbol) && s != nil
  modifies e.(*atoms.Symbol).Name, s.$d
  ensures [qualified] old(c09_qn(e.(*atoms.Symbol).Name)) ==> e.(*atoms.Symbol).Name == old(e.(*atoms.Symbol).Name) && c09_kn(s.$d, e.(*atoms.Symbol).Name)
  ensures [first-on-the-path] !old(c09_qn(e.(*atoms.Symbol).Name)) ==> forall i:int :: {at(path, i)} off(path) <= i && i < off(path) + len(path) && old(c09_on(s, path, i, e.(*atoms.Symbol).Name)) && (forall j:int :: {at(path, j)} off(path) <= j && j < i ==> !old(c09_on(s, path, j, e.(*atoms.Symbol).Name))) ==> e.(*atoms.Symbol).Name == scat(at(path, i), old(e.(*atoms.Symbol).Name))
  ensures [current] !old(c09_qn(e.(*atoms.Symbol).Name)) && (forall j:int :: {at(path, j)} off(path) <= j && j < off(path) + len(path) ==> !old(c09_on(s, path, j, e.(*atoms.Symbol).Name))) ==> e.(*atoms.Symbol).Name == scat(context, old(e.(*atoms.Symbol).Name)) && c09_kn(s.$d, e.(*atoms.Symbol).Name)
  ensures [nothing-else] forall m:string :: {c09_kn(s.$d, m)} c09_kn(s.$d, m) ==> m == e.(*atoms.Symbol).Name || old(c09_kn(s.$d, m))
  loop 1
    invariant forall j:int :: {at(path, j)} off(path) <= j && j < off(path) + $k ==> !old(c09_on(s, path, j, e.(*atoms.Symbol).Name))
    invariant e.(*atoms.Symbol).Name == old(e.(*atoms.Symbol).Name) && s.$d == old(s.$d)
define c09_dl(b) = ite(c09_has(b, "___"), "___", ite(c09_has(b, "__"), "__", "_"))
define c09_bt(b) = ite(c09_has(b, "___"), "System`BlankNullSequence", ite(c09_has(b, "__"), "System`BlankSequence", "System`Blank"))
define c09_cnt(b) = c09_n(b, c09_dl(b))
define c09_s0(b) = c09_s(b, c09_dl(b), 0)
define c09_s1(b) = c09_s(b, c09_dl(b), 1)
define c09_opt(b) = c09_dl(b) == "_" && c09_s1(b) == "."
define c09_b0(x,b) = is(x, *atoms.Expression) && c09_l(x) == 1 && c09_sym(c09_p(x, 0), c09_bt(b))
define c09_b1(x,b) = is(x, *atoms.Expression) && c09_l(x) == 2 && c09_sym(c09_p(x, 0), c09_bt(b)) && c09_sym(c09_p(x, 1), c09_s1(b))
define c09_nb(x,b) = is(x, *atoms.Expression) && c09_l(x) == 3 && c09_sym(c09_p(x, 0), "System`Pattern") && c09_sym(c09_p(x, 1), c09_s0(b))
func parsePattern :: buf -> r
  props C09
  pure
  ensures [blank] c09_cnt(buf) == 2 && c09_s0(buf) == "" && c09_s1(buf) == "" ==> c09_b0(r, buf)
  ensures [head] c09_cnt(buf) == 2 && c09_s0(buf) == "" && c09_s1(buf) != "" && !c09_opt(buf) ==> c09_b1(r, buf)
  ensures [optional] c09_cnt(buf) == 2 && c09_s0(buf) == "" && c09_opt(buf) ==> is(r, *atoms.Expression) && c09_l(r) == 2 && c09_sym(c09_p(r, 0), "System`Optional") && c09_b0(c09_p(r, 1), buf)
  ensures [named] c09_cnt(buf) == 2 && c09_s0(buf) != "" && c09_s1(buf) == "" ==> c09_nb(r, buf) && c09_b0(c09_p(r, 2), buf)
  ensures [named-head] c09_cnt(buf) == 2 && c09_s0(buf) != "" && c09_s1(buf) != "" && !c09_opt(buf) ==> c09_nb(r, buf) && c09_b1(c09_p(r, 2), buf)
  ensures [named-optional] c09_cnt(buf) == 2 && c09_s0(buf) != "" && c09_opt(buf) ==> is(r, *atoms.Expression) && c09_l(r) == 2 && c09_sym(c09_p(r, 0), "System`Optional") && c09_nb(c09_p(r, 1), buf) && c09_b0(c09_p(c09_p(r, 1), 2), buf)

# removing the marks of parentheses: c09_peel takes the marks off a part, c09_strip off every part at every depth;
# c09_pok: every mark holds something (as the grammar builds it); c09_un(t) lets a proof unfold c09_peel at t
logic c09_peel(Tree) Tree
logic c09_strip(Tree) Tree
logic c09_pok(Tree) Bool
logic c09_un(Tree) Bool
smt c09_strip c09_peel c09_strip c09_pok c09_un {
(declare-fun c09_peel (Tree) Tree)
(declare-fun c09_strip (Tree) Tree)
(declare-fun c09_stripq (TSeq) TSeq)
(declare-fun c09_pok (Tree) Bool)
(declare-fun c09_un (Tree) Bool)
(assert (forall ((t Tree)) (! (and (c09_un t) (= (c09_peel t) (ite (c06_hd t @str("Internal`Parens")) (c09_peel (c06_part t 1)) t))) :pattern ((c09_un t)))))
(assert (forall ((q TSeq)) (! (= (c09_strip (TE q)) (TE (c09_stripq q))) :pattern ((c09_strip (TE q))))))
(assert (forall ((q TSeq)) (! (= (tlen (c09_stripq q)) (tlen q)) :pattern ((c09_stripq q)))))
(assert (forall ((q TSeq) (i Int)) (! (=> (and (<= 0 i) (< i (tlen q))) (= (tat (c09_stripq q) i) (c09_strip (c09_peel (tat q i))))) :pattern ((tat (c09_stripq q) i)))))
(assert (forall ((t Tree)) (! (=> (not (= (tkind t) 7)) (= (c09_strip t) t)) :pattern ((c09_strip t)))))
(assert (forall ((q TSeq)) (! (=> (and (c09_pok (TE q)) (= (tat q 0) (TY @str("Internal`Parens")))) (<= 2 (tlen q))) :pattern ((c09_pok (TE q))))))
(assert (forall ((q TSeq) (i Int)) (! (=> (and (c09_pok (TE q)) (<= 0 i) (< i (tlen q))) (c09_pok (tat q i))) :pattern ((c09_pok (TE q)) (tat q i)))))
}
define c09_P(x) = x.(*atoms.Expression).Parts
define c09_I(x,k) = at(c09_P(x), off(c09_P(x)) + k)
define c09_fr(ex,n) = forall q:int :: {c07_esel(comp("E:expreduceapi.Ex"), q)} q < alloc_entry && (q < n || old(nr(ex, q))) ==> c07_esel(comp("E:expreduceapi.Ex"), q) == old(c07_esel(comp("E:expreduceapi.Ex"), q))
define c09_done(ex,k) = forall j:int :: {at(c09_P(ex), j)} off(c09_P(ex)) <= j && j < off(c09_P(ex)) + k ==> tv(at(c09_P(ex), j)) == c09_strip(c09_peel(tat(old(tseq(ex)), j - off(c09_P(ex)))))
define c09_dwf(ex) = forall j:int :: {at(c09_P(ex), j)} off(c09_P(ex)) <= j && j < off(c09_P(ex)) + len(c09_P(ex)) ==> wf(at(c09_P(ex), j))
define c09_rest(ex,n,k) = forall j:int :: {at(c09_P(ex), j)} off(c09_P(ex)) + k <= j && j < off(c09_P(ex)) + len(c09_P(ex)) ==> at(c09_P(ex), j) == old(at(c09_P(ex), j)) && tv(at(c09_P(ex), j)) == tat(old(tseq(ex)), j - off(c09_P(ex))) && sep(at(c09_P(ex), j), n)
define c09_rch(ex,n) = forall j:int, q:int :: {nr(at(c09_P(ex), j), q)} off(c09_P(ex)) <= j && j < off(c09_P(ex)) + len(c09_P(ex)) && q >= n && old(nr(at(c09_P(ex), j), q)) ==> nr(at(c09_P(ex), j), q)
func removeParens :: ex
  props C09
  opt typednil
  gparam n:int
  requires wf(ex) && sep(ex, n) && n <= alloc_entry && c09_pok(tv(ex))
  modifies any("E:expreduceapi.Ex")
  ensures [value] tv(ex) == c09_strip(old(tv(ex)))
  ensures [well-formed] wf(ex)
  ensures [reach] forall q:int :: {nr(ex, q)} q >= n && old(nr(ex, q)) ==> nr(ex, q)
  ensures [frame] c09_fr(ex, n)
  loop 1
    invariant [done] c09_done(ex, $k)
    invariant [done-wf] c09_dwf(ex)
    invariant [rest] c09_rest(ex, n, $k)
    invariant [reach] c09_rch(ex, n)
    invariant [frame] c09_fr(ex, n)
  loop 2 isParens:bool
    invariant [flag] !isParens ==> !c06_hd(tv(c09_I(ex, $k1)), "Internal`Parens")
    invariant [part-own] nr(c09_I(ex, $k1), arr(c09_P(ex))) && nr(c09_I(ex, $k1), ex)
    invariant [done] c09_done(ex, $k1)
    invariant [done-wf] forall j:int :: {at(c09_P(ex), j)} off(c09_P(ex)) <= j && j < off(c09_P(ex)) + len(c09_P(ex)) && j != off(c09_P(ex)) + $k1 ==> wf(at(c09_P(ex), j))
    invariant [rest] c09_rest(ex, n, $k1 + 1)
    invariant [reach] forall j:int, q:int :: {nr(at(c09_P(ex), j), q)} off(c09_P(ex)) <= j && j < off(c09_P(ex)) + len(c09_P(ex)) && j != off(c09_P(ex)) + $k1 && q >= n && old(nr(at(c09_P(ex), j), q)) ==> nr(at(c09_P(ex), j), q)
    invariant [part-reach] forall q:int :: {nr(c09_I(ex, $k1), q)} {old(nr(c09_I(ex, $k1), q))} q >= n && old(nr(c09_I(ex, $k1), q)) ==> nr(c09_I(ex, $k1), q)
    invariant [part-wf] wf(c09_I(ex, $k1))
    invariant [frame] c09_fr(ex, n)
    invariant [part-sep] sep(c09_I(ex, $k1), n)
    invariant [part] c09_pok(tv(c09_I(ex, $k1))) && c09_un(tv(c09_I(ex, $k1))) && c09_peel(tv(c09_I(ex, $k1))) == c09_peel(tat(old(tseq(ex)), $k1))

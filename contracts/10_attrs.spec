# generated by gen_attrs.py

# membership of a string in a slice of strings, by recursion on the length
smt smem smem {
(declare-fun smem ((Array Int Str) Int Int Str) Bool)
(assert (forall ((a (Array Int Str)) (o Int) (n Int) (s Str)) (! (=> (<= n 0) (not (smem a o n s))) :pattern ((smem a o n s)))))
(assert (forall ((a (Array Int Str)) (o Int) (n Int) (m Int) (s Str)) (! (=> (and (<= 0 n) (= m (+ n 1))) (= (smem a o m s) (or (smem a o n s) (= (select a (+ o n)) s)))) :pattern ((smem a o n s) (smem a o m s)))))
}
logic smem((Array Int Str),Int,Int,Str) Bool
define isin(s, L) = smem(data(L), off(L), len(L), s)

package sort
extern Strings :: x
  modifies elems(x)
  opt noalloc
  ensures forall s:string :: {smem(data(x), off(x), len(x), s)} isin(s, x) <==> old(isin(s, x))
  ensures forall i:int, j:int :: {x[i], x[j]} 0 <= i < j < len(x) ==> !(x[j] < x[i])
  ensures forall j:int :: {at(x, j)} (j < off(x) || off(x) + len(x) <= j) ==> at(x, j) == old(at(x, j))

package github.com/corywalker/expreduce/expreduce/atoms
func StringsToAttributes :: L -> r
  props C10
  ensures [Orderless] r.Orderless <==> isin("Orderless", L)
  ensures [Flat] r.Flat <==> isin("Flat", L)
  ensures [OneIdentity] r.OneIdentity <==> isin("OneIdentity", L)
  ensures [Listable] r.Listable <==> isin("Listable", L)
  ensures [Constant] r.Constant <==> isin("Constant", L)
  ensures [NumericFunction] r.NumericFunction <==> isin("NumericFunction", L)
  ensures [Protected] r.Protected <==> isin("Protected", L)
  ensures [Locked] r.Locked <==> isin("Locked", L)
  ensures [ReadProtected] r.ReadProtected <==> isin("ReadProtected", L)
  ensures [HoldFirst] r.HoldFirst <==> isin("HoldFirst", L)
  ensures [HoldRest] r.HoldRest <==> isin("HoldRest", L)
  ensures [HoldAll] r.HoldAll <==> isin("HoldAll", L)
  ensures [HoldAllComplete] r.HoldAllComplete <==> isin("HoldAllComplete", L)
  ensures [NHoldFirst] r.NHoldFirst <==> isin("NHoldFirst", L)
  ensures [NHoldRest] r.NHoldRest <==> isin("NHoldRest", L)
  ensures [NHoldAll] r.NHoldAll <==> isin("NHoldAll", L)
  ensures [SequenceHold] r.SequenceHold <==> isin("SequenceHold", L)
  ensures [Temporary] r.Temporary <==> isin("Temporary", L)
  ensures [Stub] r.Stub <==> isin("Stub", L)
  loop 1 attrs:Attributes
    invariant [Orderless] attrs.Orderless <==> smem(data(L), off(L), $k, "Orderless")
    invariant [Flat] attrs.Flat <==> smem(data(L), off(L), $k, "Flat")
    invariant [OneIdentity] attrs.OneIdentity <==> smem(data(L), off(L), $k, "OneIdentity")
    invariant [Listable] attrs.Listable <==> smem(data(L), off(L), $k, "Listable")
    invariant [Constant] attrs.Constant <==> smem(data(L), off(L), $k, "Constant")
    invariant [NumericFunction] attrs.NumericFunction <==> smem(data(L), off(L), $k, "NumericFunction")
    invariant [Protected] attrs.Protected <==> smem(data(L), off(L), $k, "Protected")
    invariant [Locked] attrs.Locked <==> smem(data(L), off(L), $k, "Locked")
    invariant [ReadProtected] attrs.ReadProtected <==> smem(data(L), off(L), $k, "ReadProtected")
    invariant [HoldFirst] attrs.HoldFirst <==> smem(data(L), off(L), $k, "HoldFirst")
    invariant [HoldRest] attrs.HoldRest <==> smem(data(L), off(L), $k, "HoldRest")
    invariant [HoldAll] attrs.HoldAll <==> smem(data(L), off(L), $k, "HoldAll")
    invariant [HoldAllComplete] attrs.HoldAllComplete <==> smem(data(L), off(L), $k, "HoldAllComplete")
    invariant [NHoldFirst] attrs.NHoldFirst <==> smem(data(L), off(L), $k, "NHoldFirst")
    invariant [NHoldRest] attrs.NHoldRest <==> smem(data(L), off(L), $k, "NHoldRest")
    invariant [NHoldAll] attrs.NHoldAll <==> smem(data(L), off(L), $k, "NHoldAll")
    invariant [SequenceHold] attrs.SequenceHold <==> smem(data(L), off(L), $k, "SequenceHold")
    invariant [Temporary] attrs.Temporary <==> smem(data(L), off(L), $k, "Temporary")
    invariant [Stub] attrs.Stub <==> smem(data(L), off(L), $k, "Stub")
  timeout 20

func AttrsToStrings :: a -> r
  props C10
  requires a != nil
  ensures [Orderless] isin("Orderless", r) <==> a.Orderless
  ensures [Flat] isin("Flat", r) <==> a.Flat
  ensures [OneIdentity] isin("OneIdentity", r) <==> a.OneIdentity
  ensures [Listable] isin("Listable", r) <==> a.Listable
  ensures [Constant] isin("Constant", r) <==> a.Constant
  ensures [NumericFunction] isin("NumericFunction", r) <==> a.NumericFunction
  ensures [Protected] isin("Protected", r) <==> a.Protected
  ensures [Locked] isin("Locked", r) <==> a.Locked
  ensures [ReadProtected] isin("ReadProtected", r) <==> a.ReadProtected
  ensures [HoldFirst] isin("HoldFirst", r) <==> a.HoldFirst
  ensures [HoldRest] isin("HoldRest", r) <==> a.HoldRest
  ensures [HoldAll] isin("HoldAll", r) <==> a.HoldAll
  ensures [HoldAllComplete] isin("HoldAllComplete", r) <==> a.HoldAllComplete
  ensures [NHoldFirst] isin("NHoldFirst", r) <==> a.NHoldFirst
  ensures [NHoldRest] isin("NHoldRest", r) <==> a.NHoldRest
  ensures [NHoldAll] isin("NHoldAll", r) <==> a.NHoldAll
  ensures [SequenceHold] isin("SequenceHold", r) <==> a.SequenceHold
  ensures [Temporary] isin("Temporary", r) <==> a.Temporary
  ensures [Stub] isin("Stub", r) <==> a.Stub
  ensures [only] forall s:string :: {smem(data(r), off(r), len(r), s)} isin(s, r) ==> s == "Orderless" || s == "Flat" || s == "OneIdentity" || s == "Listable" || s == "Constant" || s == "NumericFunction" || s == "Protected" || s == "Locked" || s == "ReadProtected" || s == "HoldFirst" || s == "HoldRest" || s == "HoldAll" || s == "HoldAllComplete" || s == "NHoldFirst" || s == "NHoldRest" || s == "NHoldAll" || s == "SequenceHold" || s == "Temporary" || s == "Stub"
  ensures [sorted] forall i:int, j:int :: {r[i], r[j]} 0 <= i < j < len(r) ==> !(r[j] < r[i])
  timeout 15

A="Orderless Flat OneIdentity Listable Constant NumericFunction Protected Locked ReadProtected HoldFirst HoldRest HoldAll HoldAllComplete NHoldFirst NHoldRest NHoldAll SequenceHold Temporary Stub".split()
o=[]
p=o.append
p("# generated by gen_attrs.py")
p("""
# membership of a string in a slice of strings, by recursion on the length
smt smem smem {
(declare-fun smem ((Array Int Str) Int Int Str) Bool)
(assert (forall ((a (Array Int Str)) (o Int) (n Int) (s Str)) (! (=> (<= n 0) (not (smem a o n s))) :pattern ((smem a o n s)))))
(assert (forall ((a (Array Int Str)) (o Int) (n Int) (m Int) (s Str)) (! (=> (and (<= 0 n) (= m (+ n 1))) (= (smem a o m s) (or (smem a o n s) (= (select a (+ o n)) s)))) :pattern ((smem a o n s) (smem a o m s)))))
}
logic smem((Array Int Str),Int,Int,Str) Bool
define isin(s, L) = smem(data(L), off(L), len(L), s)
""")
p("package sort")
p("extern Strings :: x")
p("  modifies elems(x)")
p("  opt noalloc")
p("  ensures forall s:string :: {smem(data(x), off(x), len(x), s)} isin(s, x) <==> old(isin(s, x))")
p("  ensures forall i:int, j:int :: {x[i], x[j]} 0 <= i < j < len(x) ==> !(x[j] < x[i])")
p("  ensures forall j:int :: {at(x, j)} (j < off(x) || off(x) + len(x) <= j) ==> at(x, j) == old(at(x, j))")
p("")
p("package github.com/corywalker/expreduce/expreduce/atoms")
p("func StringsToAttributes :: L -> r")
p("  props C10")
for a in A: p(f'  ensures [{a}] r.{a} <==> isin("{a}", L)')
p("  loop 1 attrs:Attributes")
for a in A: p(f'    invariant [{a}] attrs.{a} <==> smem(data(L), off(L), $k, "{a}")')
p("  timeout 20")
p("")
p("func AttrsToStrings :: a -> r")
p("  props C10")
p("  requires a != nil")
for x in A: p(f'  ensures [{x}] isin("{x}", r) <==> a.{x}')
p("  ensures [only] forall s:string :: {smem(data(r), off(r), len(r), s)} isin(s, r) ==> "+" || ".join(f's == "{x}"' for x in A))
p("  ensures [sorted] forall i:int, j:int :: {r[i], r[j]} 0 <= i < j < len(r) ==> !(r[j] < r[i])")
p("  timeout 30")
open("10_attrs.spec","w").write("\n".join(o)+"\n")
